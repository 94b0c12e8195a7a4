#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in checks/ is claimed."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = ("Exploration: every executed case was judged by the oracle; nothing is claimed about cases that were not "
        "executed. Trusts the kernel, libc, the link-time shim (harness/shim.cpp) and the oracle. ")
CHECKS = {
    "C01": ("linearizability checking of recorded client histories (WGL search per key, exact reference model)",
            "Histories are recorded at client boundaries under injected delays, short reads and interruptions, with the collector running."),
    "C02": ("history checking of versions (CAS) recorded at client boundaries, counting oracle for successful conditional stores", ""),
    "C03": ("differential runtime monitoring against an executable reference model of the protocols",
            "Complete over the listed item states and command variants; random beyond them."),
    "C04": ("mutual-exclusion monitor over recorded client histories and deterministic lock scenarios", ""),
    "C05": ("differential runtime monitoring under a virtual clock against an executable reference model",
            "The clock is virtual; visibility is judged exactly at each second."),
    "C06": ("differential runtime monitoring: the same request stream in many segmentations, plus hostile framing with liveness and isolation probes", ""),
    "C07": ("stream monitor with self-describing values under injected back-pressure and short writes", ""),
    "C08": ("state comparison of promoted real slaves with the reference model of the master after recorded update histories", ""),
    "C09": ("fault injection on several real nodes with monitors for roles, exit status, service and contents", ""),
    "C10": ("conservation monitor and linearizability checking of recorded counter histories", ""),
    "C11": ("monitor of contents and statistics around controlled collection runs", ""),
    "C12": ("read-back of self-describing values with monitors of the temporary directory and the descriptor table", ""),
    "C13": ("allocator monitor: every released block is searched for marker bytes", "Blocks released by the C++ runtime through free, realloc and operator delete are seen; registers and stacks are not."),
    "C14": ("AddressSanitizer and UndefinedBehaviorSanitizer over hostile and stress workloads", ""),
    "C15": ("ThreadSanitizer over stress workloads with injected delays", ""),
    "C16": ("monitor of statistics, descriptor table and probe connections under connection faults", ""),
    "C17": ("exit-status and time monitor of signals sent at many moments under load", ""),
    "C18": ("differential runtime monitoring of configuration loading against a table of values", ""),
    "C19": ("history monitor of key dumps against stable, volatile and absent keys", ""),
    "C20": ("conservation monitor: statistics against counts kept by the clients", ""),
    "C21": ("liveness monitor: completion of every request of more connections than workers", "Bounded-time liveness with generous watchdogs."),
    "C22": ("log-file monitor: multiset of whole lines against provoked records under reopening", ""),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i + ".py")):
        t, n = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 checks/%s.py" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i,
                       "technique": "runtime monitoring: " + t,
                       "level": "fault_enumeration" if i in () else "exploration", "level_note": (BASE + n).strip()})
    else:
        na.append({"property": i, "reason": "Its check is not built yet; runtime monitoring applies (see DESIGN.md)."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: instrumentation is linked around the unmodified sources (harness/shim.cpp, ld --wrap)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")

"""Runs the workloads of other checks on sanitizer builds.

Only the reports of the sanitizer are judged here: the oracles of those checks have time limits that
do not hold under a sanitizer, so their verdicts are counted and left to the checks themselves.
"""
import importlib
import os
import sys

import chk
import yr


def job(p, arg):
    mod, fn, a = arg
    m = importlib.import_module(mod)
    yr.SAN_REPORTS = []
    yr.SAN_SEEN.clear()
    q = chk.Part(mod, p.seed, "quick")
    err = None
    try:
        getattr(m, fn)(q, a)
    except Exception as e:
        err = chk.classify(e)
    finally:
        reports, yr.SAN_REPORTS = yr.SAN_REPORTS, None
    if err and ("AddressSanitizer" in err[2] or "ThreadSanitizer" in err[2] or "runtime error:" in err[2]):
        reports.append(err[2])
    if reports:
        p.fail("report of a sanitizer during the workload %s of %s" % (fn, mod), "\n".join(reports)[:20000])
    if err:
        p.count("workloads_ended_early")
        p.sample("%s.%s ended early (not judged here): %s" % (mod, fn, err[1]))
    p.count("workloads")
    p.case((mod, fn), q.evals)
    p.sigs |= {hash((mod, x)) for x in list(q.sigs)[:20000]}
    for k, v in yr.SAN_SEEN.items():
        if k not in ("N_TIME", "N_STEADY"):
            p.count("srv_" + k[2:].lower(), v)


class Capture:
    """Stands in for a check to learn what it would run."""
    thorough = False
    counts = {}

    def __init__(self):
        self.found = []

    def scale(self, quick, thorough):
        return quick

    def jobs(self, fn, args, procs=None):
        self.found.append((fn.__name__, list(args)))


def catalogue(mods):
    """{(module, function): [args]} of the quick tier."""
    out = {}
    for m in mods:
        c = Capture()
        try:
            importlib.import_module(m).run(c)
        except yr.Inconclusive:
            pass
        for fn, args in c.found:
            out.setdefault((m, fn), []).extend(args)
    return out

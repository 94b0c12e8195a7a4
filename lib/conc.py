"""Concurrent histories: runs harness/drv.cpp against a server with injected delays."""
import subprocess
import threading
import time

import build as B
import yr
from yr import Inconclusive, ServerDied

HEAP = 4096


def tool():
    return B.build_tool("drv", ["drv.cpp"], ["-O2", "-w"])


def ctool():
    return B.build_tool("cdrv", ["cdrv.cpp"], ["-O2", "-w"])


def drive(p, s, profile, seed, conns=None, keys=3, ops=800, pipe=None, resets=0, clock=0, timeout=400, big=0):
    """One recorded and checked history. clock: seconds the virtual clock moves per millisecond."""
    # few connections per key keep the search decidable
    if conns is None:
        conns = p.rng.choice([3, 4, 6] if keys <= 2 else [3, 6, 10, 16])
    if pipe is None:
        pipe = p.rng.choice([1, 3] if keys <= 2 or conns >= 10 else [1, 4, 8])
    stop = threading.Event()

    def tick():
        while not stop.wait(0.003):
            s.shm.set("TIME", s.shm.get("TIME") + clock)
    th = None
    if clock:
        th = threading.Thread(target=tick, daemon=True)
        th.start()
    try:
        if profile == "counter":
            args = [ctool(), "port", s.counter_port, "big", big, "moving", int(bool(clock))]
        else:
            args = [tool(), "port", s.port, "profile", profile, "heap", HEAP]
        r = subprocess.run([str(x) for x in args + ["seed", seed, "conns", conns, "keys", keys, "ops", ops,
                            "pipe", pipe, "resets", resets]], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("the driver did not end in time")
    finally:
        stop.set()
        if th:
            th.join()
    if not s.alive():
        raise ServerDied(s.diag())
    ctx = "profile %s seed %d conns %d keys %d ops %d resets %d" % (profile, seed, conns, keys, ops, resets)
    if r.returncode == 1:
        p.fail(r.stdout.split("\n", 1)[0], "%s\n%s\n%s" % (ctx, r.stdout, s.log()[-1500:]))
    if r.returncode == 3:
        p.count("histories_given_up")
        p.sample("given up: " + r.stdout.strip())
        return False
    if r.returncode != 0:
        raise RuntimeError("driver: %d %s %s" % (r.returncode, r.stdout[-1000:], r.stderr[-1000:]))
    d = {}
    for l in r.stdout.splitlines():
        if l.startswith("outcomes "):
            out = l[9:]
        elif l.startswith("sigs"):
            for h in l.split()[1:]:
                p.sigs.add(int(h, 16) * 8 + (profile if profile != 'counter' else 7))
        elif "=" in l:
            k, v = l.split("=", 1)
            d[k] = int(v)
    p.evals += d["ops"]
    for k, v in d.items():
        if k != "interleavings":
            p.count("hist_" + k, v)
    for x in out.strip(",").split(","):
        k, v = x.rsplit("=", 1)
        p.count("out_" + k, int(v))
    p.count("histories")
    p.sample({"history": ctx, "observed": d})
    return True


def perturb(s, r, strong=False):
    """Random scheduling noise for a server."""
    s.shm.set("SEED", r.randrange(1, 1 << 30))
    s.shm.set("P_DELAY", r.choice([0, 300, 2000, 6000] if not strong else [2000, 6000, 15000]))
    s.shm.set("DELAY_US", r.choice([0, 50, 300, 1000]))
    s.shm.set("P_SHORT", r.choice([0, 0, 3000, 12000]))
    s.shm.set("P_EINTR", r.choice([0, 0, 1500]))


def noise_off(s):
    for n in ("P_DELAY", "P_SHORT", "P_EINTR"):
        s.shm.set(n, 0)

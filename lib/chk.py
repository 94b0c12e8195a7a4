"""Frame of every check: seeds, evidence, verdicts, known findings, parallel jobs."""
import concurrent.futures as cf
import faulthandler
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import yr
from yr import Inconclusive, ServerDied, ConnClosed, Timeout

EVID = os.path.join(B.VERIF, "evidence")
KNOWN = os.path.join(B.VERIF, "known_findings.txt")


class Violation(Exception):
    def __init__(self, msg, detail=""):
        Exception.__init__(self, msg, detail)
        self.msg, self.detail = msg, detail


def known_findings(prop):
    """{key: text} of the findings (not the fixed ones) listed for a property."""
    out = {}
    with open(KNOWN) as fp:
        for l in fp:
            if l.startswith("finding:"):
                kv = l[len("finding:"):].strip().split(" ", 2)
                d = dict(x.split("=", 1) for x in kv[:2])
                if d.get("property") == prop:
                    out[d["key"]] = kv[2]
    return out


class Part:
    """What one job of a check observed."""

    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.counts = {}
        self.known_hit = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def case(self, sig=None, n=1):
        self.evals += n
        if sig is not None:
            self.sigs.add(hash(sig) if not isinstance(sig, int) else sig)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def observe(self, server):
        for k, v in server.shm.observed().items():
            if k not in ("N_TIME", "N_STEADY"):
                self.count("srv_" + k[2:].lower(), v)
        if self.prop in ("C12", "C16") and server.shm.get("N_EBADF"):
            self.fail("a descriptor is closed twice: the second time, it may be that of another value or client")

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x if isinstance(x, (dict, list)) else str(x)[:600])

    def fail(self, msg, detail=""):
        raise Violation(msg, detail)

    def check(self, cond, msg, detail=""):
        if not cond:
            raise Violation(msg, detail if not callable(detail) else detail())

    def known(self, key, msg, detail=""):
        """A deviation with a stable identity: reported as known if listed, else a violation."""
        kf = known_findings(self.prop)
        if key not in kf:
            raise Violation(msg, detail)
        self.known_hit[key] = kf[key]

    def merge(self, o):
        self.evals += o.evals
        self.sigs |= o.sigs
        for s in o.samples:
            if len(self.samples) < 12:
                self.samples.append(s)
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.known_hit.update(o.known_hit)


class Check(Part):
    def __init__(self, prop, rule, level="exploration", assumptions=()):
        Part.__init__(self, prop, int(os.environ.get("VERIF_SEED", "1") or 1),
                      os.environ.get("VERIF_TIER", "quick") or "quick")
        self.rule, self.level, self.assumptions = rule, level, list(assumptions)
        self.t0 = time.time()

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def jobs(self, fn, args, procs=None):
        """Run fn(part, arg) for each arg in forked processes; the first violation wins."""
        procs = procs or min(8, os.cpu_count() or 4)
        global _ARGS, _FN
        _ARGS, _FN = list(args), fn
        errors = []
        with cf.ProcessPoolExecutor(max_workers=procs, mp_context=mp.get_context("fork")) as ex:
            futs = [ex.submit(_job, self.prop, "%s/%s/%d" % (self.seed, fn.__name__, i), self.tier, i)
                    for i in range(len(_ARGS))]
            for f in futs:
                try:
                    part, err = f.result()
                except Exception as e:
                    part, err = None, ("error", repr(e), traceback.format_exc())
                if part is not None:
                    self.merge(part)
                if err is not None:
                    errors.append(err)
                    if err[0] in ("violation",):
                        for g in futs:
                            g.cancel()
                        break
        for kind, msg, detail in errors:
            if kind == "violation":
                raise Violation(msg, detail)
        for kind, msg, detail in errors:
            if kind == "inconclusive":
                raise Inconclusive(msg + "\n" + detail)
            raise RuntimeError(msg + "\n" + detail)

    def evidence(self, violations):
        os.makedirs(EVID, exist_ok=True)
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.sigs), "rule": self.rule,
               "samples": self.samples or ["(none)"]}
        cov.update({k: v for k, v in sorted(self.counts.items())})
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
             "coverage": cov, "assumptions": self.assumptions,
             "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        tmp = os.path.join(EVID, self.prop + ".json.tmp")
        with open(tmp, "w") as fp:
            json.dump(d, fp, indent=1, default=str)
        os.rename(tmp, os.path.join(EVID, self.prop + ".json"))


_ARGS, _FN = [], None


def _job(prop, seed, tier, i):
    p = Part(prop, seed, tier)
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    try:
        t = time.time()
        _FN(p, _ARGS[i])
        p.count("ms_in_" + _FN.__name__, int((time.time() - t) * 1000))
        if os.environ.get("YV_TIMES"):
            print("%s %d %r %.1f s" % (_FN.__name__, i, _ARGS[i], time.time() - t), flush=True)
        return p, None
    except Exception as e:
        return p, classify(e)


def classify(e):
    if isinstance(e, Violation):
        return ("violation", e.msg, str(e.detail))
    if isinstance(e, ServerDied):
        s = str(e)
        if "exit status -9" in s:
            return ("inconclusive", "the server was killed from outside", s)
        if "Address already in use" in s:
            return ("inconclusive", "another process holds a port of the server", s)
        return ("violation", "the server terminated unexpectedly", s)
    if isinstance(e, Inconclusive):
        return ("inconclusive", str(e), traceback.format_exc())
    if isinstance(e, ConnClosed):
        return ("violation", "the server closed a connection unexpectedly: %s" % e, traceback.format_exc())
    if isinstance(e, Timeout):
        return ("violation", "no answer from the server within the watchdog time: %s" % e,
                traceback.format_exc())
    return ("error", "%s: %s" % (type(e).__name__, e), traceback.format_exc())


def main(prop, rule, run, level="exploration", assumptions=(), limit=840):
    if os.environ.get("VERIF_TIER") == "thorough":
        limit = 6 * 3600

    def alarm(*_):
        print("INCONCLUSIVE property=%s: the run took longer than %d s" % (prop, limit))
        sys.stdout.flush()
        os.killpg(os.getpgrp(), signal.SIGKILL) if os.getpgrp() == os.getpid() else os._exit(3)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    err = None
    for attempt in (1, 2):
        ck = Check(prop, rule, level, assumptions)
        try:
            run(ck)
            err = None
        except Exception as e:
            err = classify(e)
        if err is None or err[0] != "inconclusive":
            break
        print("note: attempt %d was inconclusive: %s" % (attempt, err[1][:2000]))
    for k, t in sorted(ck.known_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    if err is None:
        ck.evidence(0)
        print("%s: held on %d evaluations (%d distinct), %.1f s; %s" % (
            prop, ck.evals, len(ck.sigs), time.time() - ck.t0,
            " ".join("%s=%s" % kv for kv in sorted(ck.counts.items()))))
        sys.exit(0)
    if err[0] == "violation":
        ck.evidence(1)
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-seed%s.txt" % (prop, ck.seed))
        with open(path, "w") as fp:
            fp.write("property %s\nseed %s tier %s\n\n%s\n\n%s\n" % (prop, ck.seed, ck.tier, err[1], err[2]))
        print(err[1][:3000])
        print(err[2][-3000:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    print("ERROR (%s) in the check of %s: %s\n%s" % (err[0], prop, err[1], err[2][-6000:]))
    sys.exit(2)

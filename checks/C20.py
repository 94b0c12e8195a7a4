"""C20: statistics agree with what happened."""
import os
import re
import signal
import struct
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import yr
from yr import OP, ConnClosed, Inconclusive, Timeout, bin_req, counter_req

PROP = "C20"
WAIT = 120
EXP = struct.pack


class Tally(dict):
    def __missing__(self, k):
        return 0

    def add(self, o):
        for k, v in o.items():
            self[k] += v


def bin_stats(c, sub=b""):
    c.req("Stat", sub)
    out = {}
    while True:
        r = c.recv()
        if r.status:
            raise chk.Violation("Stat is refused", repr(r))
        if not r.key:
            return out
        if r.key in out:
            raise chk.Violation("a statistic is reported twice", r.key)
        out[r.key] = r.val


VOLATILE = (b"time", b"rusage_user", b"rusage_system")


def both(p, t, b, sub):
    """The statistics of a kind, which are the same in both protocols."""
    def diff(x, y):
        return {k: (x[k], y[k]) for k in x if x[k] != y[k] and k not in VOLATILE and k not in (b"text:stats", b"binary:Stat")}

    for _ in range(100):
        x, y, z = t.stats(sub), bin_stats(b, sub), t.stats(sub)
        if set(x) != set(y):
            p.fail("the protocols report different statistics", (sub, sorted(set(x) ^ set(y))))
        d = diff(x, y)
        if sub == b"ops":
            n = int(z[b"text:stats"]) - int(x[b"text:stats"]), int(z[b"binary:Stat"]) - int(x[b"binary:Stat"])
            p.check(n == (1, 1), "one stats command in each protocol is counted as %d and %d" % n)
        # a collection or a connection may come in between
        if not d or not diff(x, z):
            break
        time.sleep(.01)
    x = z
    if d:
        p.fail("the protocols report different values", (sub, d))
    p.case(("both", sub, tuple(sorted(x))))
    return {k: int(v) if v.isdigit() else v for k, v in x.items()}


# -- operations --------------------------------------------------------------------------
class TextLoad:
    def __init__(self, s, r, w, shared):
        self.c, self.r, self.w, self.shared = s.text(timeout=WAIT), r, w, shared
        self.mine, self.n = {}, 0
        self.e = Tally()
        self.cas = {}

    def name(self):
        self.n += 1
        return b"t%d-%d" % (self.w, self.n)

    def batch(self, n):
        """n requests at once; what their replies say goes to the tally."""
        r, e, out, rd = self.r, self.e, [], []

        def op(name, req, reader):
            e["text:" + name] += 1
            out.append(req)
            if reader:
                rd.append(reader)

        def line(l=None, then=None):
            def f():
                x = self.c.line()[:-2]
                if l is not None and x != l:
                    raise chk.Violation("unexpected reply %r instead of %r" % (x, l))
                if then:
                    then(x)
            return f

        def values(k):
            def f():
                g = 0
                while True:
                    l = self.c.line()
                    if l == b"END\r\n":
                        break
                    w = l.split()
                    self.c.take(int(w[3]) + 2)
                    if len(w) > 4:
                        self.cas[w[1]] = int(w[4])
                    g += 1
                e["get_hits"] += g
                e["get_misses"] += k - g
            return f

        def until_end():
            while self.c.line() != b"END\r\n":
                pass

        def casres(x):
            k = {b"STORED": "cas_hits", b"EXISTS": "cas_badval", b"NOT_FOUND": "cas_misses"}.get(x)
            if k:
                e[k] += 1
            elif x != b"LOCKED":
                raise chk.Violation("unexpected reply to cas", x)

        for _ in range(n):
            x = r.random()
            k = r.choice(self.shared)
            nr = b" noreply" if r.random() < .2 else b""
            if x < .3:
                ks = [r.choice(self.shared) if r.random() < .7 else b"none%d" % r.randrange(100) for _ in range(r.choice([1, 1, 2, 10]))]
                o = r.choice(["get", "gets"])
                op(o, o.encode() + b" " + b" ".join(ks) + b"\r\n", values(len(ks)))
            elif x < .45:
                if r.random() < .15:
                    op("cas", b"cas none 0 0 1 5\r\nx\r\n", line(then=casres))
                else:
                    c = self.cas.get(k, 1)
                    op("cas", b"cas %s 0 0 2 %d\r\nzz\r\n" % (k, c), line(then=casres))
            elif x < .6:
                if self.mine and r.random() < .5:
                    k = r.choice(list(self.mine))
                    if r.random() < .5:
                        del self.mine[k]
                        op("delete", b"delete %s%s\r\n" % (k, nr), None if nr else line(b"DELETED"))
                    else:
                        op("set", b"set %s 0 0 1%s\r\n2\r\n" % (k, nr), None if nr else line(b"STORED"))
                else:
                    k = self.name()
                    o = r.choice(["set", "add"])
                    op(o, b"%s %s 0 0 1%s\r\n1\r\n" % (o.encode(), k, nr), None if nr else line(b"STORED"))
                    self.mine[k] = 1
                    e["total_items"] += 1
            elif x < .65:
                o = r.choice(["add", "replace", "append", "prepend"])
                if o == "add":
                    op(o, b"add %s 0 0 1%s\r\n1\r\n" % (k, nr), None if nr else line())      # exists
                else:
                    op(o, b"%s none 0 0 1%s\r\n1\r\n" % (o.encode(), nr), None if nr else line(b"NOT_STORED"))
            elif x < .72:
                o = r.choice(["incr", "decr"])
                op(o, b"%s cnt 1%s\r\n" % (o.encode(), nr), None if nr else line())
            elif x < .77:
                op("touch", b"touch %s 0%s\r\n" % (k, nr), None if nr else line())
            elif x < .82:
                op("lock", b"lock %s\r\n" % k, line())
                op("unlock", b"unlock %s\r\n" % k, line())
            elif x < .85:
                op("unlock_all", b"unlock_all\r\n", line(b"OK"))
            elif x < .88:
                op("version", b"version\r\n", line())
            elif x < .9:
                op("slabs", b"slabs automove 0\r\n", line())
            elif x < .92:
                op("verbosity", b"verbosity 1%s\r\n" % nr, None if nr else line(b"OK"))
            elif x < .94:
                op("stats", b"stats %s\r\n" % r.choice([b"settings", b"items", b"sizes"]), until_end)
            elif x < .95:
                op("keys", b"keys none\r\n", until_end)
            elif x < .96:
                # these are no commands
                out.append(r.choice([b"nonsense\r\n", b"get\r\n", b"GET a\r\n", b"incr\r\n"]))
                rd.append(line())
            else:
                e["total_items"] += 1
                k = self.name()
                op("set", b"set %s 0 0 5000%s\r\n%s\r\n" % (k, nr, b"L" * 5000), None if nr else line(b"STORED"))
                op("delete", b"delete %s\r\n" % k, line(b"DELETED"))
        # nothing without a reply is left at the end
        op("version", b"version\r\n", line())
        self.c.send(b"".join(out))
        for f in rd:
            f()

    def end(self, quit):
        if quit:
            self.e["text:quit"] += 1
            self.c.send(b"quit\r\n")
            if not self.c.closed_by_peer(WAIT):
                raise chk.Violation("a connection is still open after quit")
        self.c.reset()


class BinLoad:
    def __init__(self, s, r, w, shared):
        self.c, self.r, self.w, self.shared = s.bin(timeout=WAIT), r, w, shared
        self.mine, self.n = {}, 0
        self.e = Tally()
        self.cas = {}

    name = TextLoad.name

    def batch(self, n):
        r, e, out = self.r, self.e, []
        want = {}       # opaque: function of the reply or None

        def op(name, key=b"", extras=b"", val=b"", cas=0, then=None):
            e["binary:" + name] += 1
            want[len(out) + 1] = then
            out.append(bin_req(name, key, extras, val, cas, len(out) + 1))

        def got(quiet, k):
            def f(x):
                if x is None:
                    e["get_misses" if quiet == 1 else "?"] += 1
                elif x.status == 0:
                    e["get_hits"] += 1
                elif x.status == 1:
                    e["get_misses"] += 1
                else:
                    raise chk.Violation("unexpected reply to a retrieval", repr(x))
                if x is not None and x.status == 0:
                    self.cas[k] = x.cas
            return f

        def casres(quiet, k):
            def f(x):
                st = 0 if x is None else x.status
                o = {0: "cas_hits", 2: "cas_badval", 1: "cas_misses", 0x10: None}[st]
                if o:
                    e[o] += 1
            return f

        for _ in range(n):
            x = r.random()
            k = r.choice(self.shared)
            q = r.random() < .3
            if x < .3:
                if r.random() < .3:
                    k = b"none%d" % r.randrange(100)
                if r.random() < .7:
                    op(r.choice(["Get", "GetK"]) + ("Q" if q else ""), k, then=got(q, k))
                else:
                    op(r.choice(["GaT", "GaTK"]) + ("Q" if q else ""), k, EXP(">I", 0), then=got(q, k))
            elif x < .35:
                # items of one's own, locked by nobody else
                if self.mine:
                    k = r.choice(list(self.mine))
                    op(r.choice(["LaG", "LaGK"]) + ("Q" if q else ""), k, then=got(0, k))
                    o = r.choice(["Unlock", "UnlockQ", "RaU", "RaUQ", "UnlockAll", "UnlockAllQ"])
                    if o.startswith("RaU"):
                        op(o, k, EXP(">II", 0, 0), b"rau")
                    else:
                        op(o, k if o.startswith("Unlock") and "All" not in o else b"")
                else:
                    op("LaG" + ("Q" if q else ""), b"none", then=got(0, b"none"))
            elif x < .5:
                o = r.choice(["Set", "Replace"]) + ("Q" if q else "")
                if r.random() < .15:
                    op(o, b"none", EXP(">II", 0, 0), b"c", cas=7, then=casres(q, b"none"))
                else:
                    op(o, k, EXP(">II", 0, 0), b"c", cas=self.cas.get(k, 1), then=casres(q, k))
            elif x < .65:
                if self.mine and r.random() < .5:
                    k = r.choice(list(self.mine))
                    if r.random() < .5:
                        del self.mine[k]
                        op("Delete" + ("Q" if q else ""), k)
                    else:
                        op("Set" + ("Q" if q else ""), k, EXP(">II", 0, 0), b"s")
                else:
                    k = b"b" + self.name()
                    self.mine[k] = 1
                    e["total_items"] += 1
                    if r.random() < .5:
                        op(r.choice(["Set", "Add"]) + ("Q" if q else ""), k, EXP(">II", 0, 0), b"s")
                    else:
                        op(r.choice(["Increment", "Decrement"]) + ("Q" if q else ""), k, EXP(">QQI", 1, 5, 0))
            elif x < .7:
                o = r.choice(["Add", "Replace"]) + ("Q" if q else "")
                op(o, k if o.startswith("Add") else b"none", EXP(">II", 0, 0), b"r")
            elif x < .75:
                op(r.choice(["Append", "Prepend"]) + ("Q" if q else ""), b"none", b"", b"r")
            elif x < .8:
                op(r.choice(["Increment", "Decrement"]) + ("Q" if q else ""), b"none", EXP(">QQI", 1, 5, 0xffffffff))
            elif x < .85:
                op("Touch", k, EXP(">I", 0))
            elif x < .9:
                op("Lock" + ("Q" if q else ""), k)
                op("Unlock" + ("Q" if r.random() < .3 else ""), k)
            elif x < .94:
                op(r.choice(["Version", "Noop", "Noop"]))
            elif x < .96:
                op("Delete" + ("Q" if q else ""), b"none")
            else:
                k = self.name()
                e["total_items"] += 1
                op("SetQ", k, EXP(">II", 0, 0), b"L" * 5000)
                op("DeleteQ", k)
        op("Noop")
        last = len(out)
        # the CAS values known at the time of sending are those of earlier batches
        self.c.send(b"".join(out))
        seen = {}
        while True:
            x = self.c.recv()
            if x.opaque in seen:
                raise chk.Violation("two replies to one request", repr(x))
            seen[x.opaque] = x
            if x.opaque == last:
                break
        for o, f in want.items():
            if f:
                f(seen.get(o))
        self.e.pop("?", None)

    def end(self, quit):
        if quit:
            o = self.r.choice(["Quit", "QuitQ"])
            self.e["binary:" + o] += 1
            self.c.req(o)
            if not self.c.closed_by_peer(WAIT):
                raise chk.Violation("a connection is still open after quit")
        self.c.reset()


class CounterLoad:
    def __init__(self, s, r, w, shared):
        self.c, self.r, self.w = s.counter(timeout=WAIT), r, w
        self.e, self.n = Tally(), 0
        self.made = set()

    def batch(self, n):
        r, e, out = self.r, self.e, []
        for _ in range(n):
            x = r.random()
            k = b"c%d-%d" % (self.w, r.randrange(1 + self.n // 5))
            self.n += 1
            kk = struct.pack(">H", len(k)) + k
            if x < .3:
                e["command:acquire"] += 1
                if k not in self.made:
                    self.made.add(k)
                    e["total_objects"] += 1
                out.append(counter_req(2, struct.pack(">II", 1, 10) + kk))
            elif x < .5:
                e["command:release"] += 1
                out.append(counter_req(3, struct.pack(">I", 1) + kk))
            elif x < .8:
                e["command:get"] += 1
                out.append(counter_req(1, kk))
            elif x < .97:
                e["command:noop"] += 1
                out.append(counter_req(0))
            elif x < .99:
                e["command:stats"] += 1
                out.append(counter_req(0x10))
            else:
                out.append(counter_req(0x77))       # no command
        self.c.send(b"".join(out))
        for _ in range(n):
            self.c.recv()

    def end(self, quit):
        self.c.reset()


def settle(p, f, want, what, s):
    """Wait until f() is what it has to be."""
    end = time.time() + 30
    while True:
        x = f()
        if x == want:
            return
        if time.time() > end:
            p.fail("%s is %r instead of %r" % (what, x, want), s.log()[-500:])
        time.sleep(.02)


def counts(p, i):
    """Counters of what clients did, by many of them at once."""
    r = p.rng
    nt, nb, nc = r.choice([(3, 3, 2), (4, 4, 0), (1, 1, 4), (6, 2, 1), (2, 6, 1)])
    with yr.Server(B.build("plain"), tag=p.prop, workers=r.choice([4, 8]), buckets=r.choice([7, 101, 10007]), counter__buckets=r.choice([3, 101]),
                   heap_data_limit=4096, gc_interval=10 ** 6, slave_timeout=10 ** 8) as s:
        if r.random() < .4:
            s.shm.set("P_SHORT", 5000)
            s.shm.set("P_EINTR", 5000)
        if r.random() < .3:
            s.shm.set("P_DELAY", 300)
            s.shm.set("DELAY_US", 300)
        shared = [b"sh%d" % n for n in range(r.choice([1, 5, 50]))]
        t, b, c = s.text(timeout=WAIT), s.bin(timeout=WAIT), s.counter(timeout=WAIT)
        for k in shared:
            t.set(k, b"1")
        t.set(b"cnt", b"5")
        settle(p, lambda: int(t.stats()[b"curr_connections"]), 2, "curr_connections at the start", s)
        settle(p, lambda: int(c.stats()["curr_connections"]), 1, "curr_connections of the counter at the start", s)
        for rnd in range(2):
            o0 = both(p, t, b, b"ops")
            g0 = both(p, t, b, b"")
            c0 = {k: int(v) for k, v in c.stats().items()}
            loads, errors = [], []
            nconn = [0, 0]
            for cls, n in ((TextLoad, nt), (BinLoad, nb), (CounterLoad, nc)):
                for _ in range(n):
                    loads.append(cls(s, yr.random.Random(r.random()), "%d%d" % (rnd, len(loads)) and rnd * 100 + len(loads), shared))
            e = Tally()
            lock = threading.Lock()

            def work(l, nq):
                try:
                    q = l.r
                    for _ in range(nq):
                        l.batch(q.choice([1, 10, 100, 200]))
                    ended = q.random() < .4
                    if ended:
                        l.end(q.random() < .6)
                    with lock:
                        e.add(l.e)
                        nconn[isinstance(l, CounterLoad)] += ended
                except Exception as x:
                    errors.append(x)
            nq = 25 * (4 if p.thorough else 1)
            ths = [threading.Thread(target=work, args=(l, nq)) for l in loads]
            for x in ths:
                x.start()
            for x in ths:
                x.join()
            if errors:
                if not s.alive():
                    raise yr.ServerDied(s.diag())
                raise errors[0]
            settle(p, lambda: int(t.stats(b"")[b"curr_connections"]), g0[b"curr_connections"] + nt + nb - nconn[0], "curr_connections", s)
            settle(p, lambda: int(c.stats()["curr_connections"]), c0["curr_connections"] + nc - nconn[1], "curr_connections of the counter", s)
            o1 = t.stats(b"ops")
            g1 = both(p, t, b, b"")
            # the requests of this thread itself: the stats commands
            for k in o0:
                if k in (b"text:stats", b"binary:Stat"):
                    continue
                if int(o1[k]) - o0[k] != e[k.decode()]:
                    p.fail("%s counted %d times, but there were %d" % (k.decode(), int(o1[k]) - o0[k], e[k.decode()]))
                p.case(("op", k, e[k.decode()]))
            for k in ("get_hits", "get_misses", "cas_hits", "cas_misses", "cas_badval", "total_items"):
                d = g1[k.encode()] - g0[k.encode()]
                if d != e[k]:
                    p.fail("%s increased by %d, but clients saw %d" % (k, d, e[k]))
                p.case((k, d))
                p.count(k, d)
            d = g1[b"total_connections"] - g0[b"total_connections"]
            p.check(d == nt + nb, "total_connections increased by %d with %d connections" % (d, nt + nb))
            c1 = {k: int(v) for k, v in c.stats().items()}
            for k in c1:
                if k.startswith("command:") and k != "command:stats" or k == "total_objects":
                    p.check(c1[k] - c0[k] == e[k], "counter: %s increased by %d, but there were %d" % (k, c1[k] - c0[k], e[k]))
                    p.case(("counter", k, e[k]))
            p.check(c1["total_connections"] - c0["total_connections"] == nc, "counter: total_connections increased by %d with %d connections" % (c1["total_connections"] - c0["total_connections"], nc))
            p.count("requests", sum(v for k, v in e.items() if ":" in k))
            # the dump into the log
            n = s.log().count("memcache master:")
            total = sum(int(v) for v in t.stats(b"ops").values())
            s.proc.send_signal(signal.SIGUSR1)
            s.wait_log("memcache master:", count=n + 1)
            s.wait_log("counter:", count=n + 1)
            l = re.findall(r"memcache master: (\d+) slaves, (\d+) objects, (\d+) clients, (\d+) total ops", s.log())[-1]
            p.check([int(x) for x in l] == [0, g1[b"curr_items"], g1[b"curr_connections"], total], "the status in the log differs from the statistics", (l, g1, total))
            for l in loads:
                l.end(False)
            settle(p, lambda: int(t.stats()[b"curr_connections"]), 2, "curr_connections at the end", s)
            settle(p, lambda: int(c.stats()["curr_connections"]), 1, "curr_connections of the counter at the end", s)
        p.sample("tally %r" % dict(e))
        p.observe(s)


def races(p, i):
    """The same few requests on all connections at a time."""
    r = p.rng
    n = 6
    with yr.Server(B.build("plain"), tag=p.prop, workers=8, buckets=10007, counter__buckets=10007, gc_interval=10 ** 6, slave_timeout=10 ** 8) as s:
        t, b, c = s.text(timeout=WAIT), s.bin(timeout=WAIT), s.counter(timeout=WAIT)
        for w in range(n):
            t.set(b"hit%d" % w, b"1")
        # what expired is missed like what never was
        t.set(b"old", b"1", exp=s.now() + 5)
        s.set_time(s.now() + 10)
        g0 = both(p, t, b, b"")
        want = Tally()
        for x in range(r.choice([3, 9])):
            q = r.choice(["get", "cas", "Get", "Set", "Replace", "GaT", "LaG"])
            if q == "get":
                p.check(t.get(b"old") is None, "an expired item is found")
            elif q == "cas":
                t.send(b"cas old 0 0 1 5\r\n2\r\n")
                x = t.line()
                p.check(x == b"NOT_FOUND\r\n", "cas of an expired item", x)
            else:
                x = b.cmd(q, b"old", EXP(">I", 0) if q == "GaT" else EXP(">II", 0, 0) if q in ("Set", "Replace") else b"", b"2" if q in ("Set", "Replace") else b"", cas=5 if q in ("Set", "Replace") else 0)
                p.check(x.status == 1, "%s of an expired item" % q, repr(x))
            want["cas_misses" if q in ("cas", "Set", "Replace") else "get_misses"] += 1
        g1 = both(p, t, b, b"")
        for k in ("get_hits", "get_misses", "cas_hits", "cas_misses", "cas_badval", "total_items"):
            d = g1[k.encode()] - g0[k.encode()]
            p.check(d == want[k], "%s increased by %d, but clients saw %d" % (k, d, want[k]))
        o0, g0 = both(p, t, b, b"ops"), both(p, t, b, b"")
        c0 = {k: int(v) for k, v in c.stats().items()}
        plan = [(r.choice(["touch", "incr", "delete", "replace", "verbosity", "get", "gets", "set", "cas", "unlock_all"]), r.choice([50, 200, 1000])) for _ in range(12)]
        planb = [(r.choice(["Touch", "GetQ", "GetK", "SetQ", "Replace", "DeleteQ", "IncrementQ", "Noop", "AppendQ", "UnlockAll"]), r.choice([50, 200, 1000])) for _ in range(12)]
        planc = [(r.choice(["get", "release", "noop", "acquire", "acquire"]), r.choice([50, 200, 1000])) for _ in range(12)]
        e = Tally()

        def text(w):
            out = []
            for q, m in plan:
                e["text:" + q] += m
                out.append({"touch": b"touch none 0 noreply\r\n", "incr": b"incr none 1 noreply\r\n", "delete": b"delete none noreply\r\n", "verbosity": b"verbosity 1 noreply\r\n",
                            "replace": b"replace none 0 0 1 noreply\r\n1\r\n", "get": b"get hit%d\r\nget none\r\n" % w, "gets": b"gets hit%d\r\ngets none none\r\n" % w,
                            "cas": b"cas none 0 0 1 1 noreply\r\n1\r\ncas hit%d 0 0 1 18446744073709551615 noreply\r\n1\r\n" % w, "unlock_all": b"unlock_all\r\n", "set": b""}[q] * m)
                if q in ("get", "gets"):
                    e["get_hits"] += m
                    e["get_misses"] += m if q == "get" else 2 * m
                    e["text:" + q] += m
                elif q == "cas":
                    e["text:cas"] += m
                    e["cas_misses"] += m
                    e["cas_badval"] += m
                elif q == "set":
                    e["total_items"] += m
                    out.extend(b"set n%d-%d 0 0 1 noreply\r\n1\r\n" % (w, x) for x in range(int(e["n%d" % w]), int(e["n%d" % w]) + m))
                    e["n%d" % w] += m
            e["text:version"] += 1
            out.append(b"version\r\n")
            return s.text(timeout=WAIT), b"".join(out), lambda d: d.endswith(b"\r\n") and d[d.rfind(b"\r\n", 0, -2) + 2 if b"\r\n" in d[:-2] else 0:].startswith(b"VERSION")

        def binary(w):
            out = []
            for q, m in planb:
                e["binary:" + q] += m
                k = b"hit%d" % w if q == "GetK" and r.random() < .5 else b"none"
                if q in ("GetQ", "GetK"):
                    e["get_misses" if k == b"none" else "get_hits"] += m
                if q == "SetQ":
                    e["total_items"] += m
                    out.extend(bin_req("SetQ", b"b%d-%d" % (w, x), EXP(">II", 0, 0), b"1", 0, 1) for x in range(int(e["n%d" % w]), int(e["n%d" % w]) + m))
                    e["n%d" % w] += m
                    continue
                ex = EXP(">I", 0) if q == "Touch" else EXP(">QQI", 1, 1, 0xffffffff) if q == "IncrementQ" else EXP(">II", 0, 0) if q == "Replace" else b""
                cas = 1 if q == "Replace" else 0
                if q == "Replace":
                    e["cas_misses"] += m
                out.append(bin_req(q, k if q not in ("Noop", "UnlockAll") else b"", ex, b"v" if q in ("Replace", "AppendQ") else b"", cas, 1) * m)
            e["binary:Version"] += 1
            out.append(bin_req("Version", b"", b"", b"", 0, 0xeeeeeeee))
            return s.bin(timeout=WAIT), b"".join(out), lambda d: b"\xee\xee\xee\xee" in d[-60:]

        def counter(w):
            out = []
            for q, m in planc:
                e["command:" + q] += m
                kk = b"\0\4none"
                if q == "acquire":
                    e["total_objects"] += m
                    for x in range(int(e["n%d" % w]), int(e["n%d" % w]) + m):
                        k = b"c%d-%d" % (w, x)
                        out.append(counter_req(2, struct.pack(">II", 1, 10) + struct.pack(">H", len(k)) + k))
                    e["n%d" % w] += m
                else:
                    out.append({"get": counter_req(1, kk), "release": counter_req(3, struct.pack(">I", 1) + kk), "noop": counter_req(0)}[q] * m)
            e["command:stats"] += 1
            out.append(counter_req(0x10))
            return s.counter(timeout=WAIT), b"".join(out), lambda d: b"total_objects" in d[-2000:]

        for make in (text, binary, counter):
            cl = [make(w) for w in range(n)]
            errors = []

            def work(x):
                try:
                    k, d, done = x
                    k.settimeout(WAIT) if hasattr(k, "settimeout") else None
                    th = threading.Thread(target=k.send, args=(d,))
                    th.start()
                    tail = b""
                    while not done(tail):
                        z = k.s.recv(1 << 18)
                        if not z:
                            raise chk.Violation("the connection is closed")
                        tail = (tail + z)[-4096:]
                    th.join()
                except Exception as x:
                    errors.append(x)
            ths = [threading.Thread(target=work, args=(x,)) for x in cl]
            for x in ths:
                x.start()
            for x in ths:
                x.join()
            if errors:
                if not s.alive():
                    raise yr.ServerDied(s.diag())
                raise errors[0]
        o1, g1 = t.stats(b"ops"), t.stats(b"")
        c1 = {k: int(v) for k, v in c.stats().items()}
        for k in o0:
            if k not in (b"text:stats", b"binary:Stat"):
                p.check(int(o1[k]) - o0[k] == e[k.decode()], "%s counted %d times, but there were %d" % (k.decode(), int(o1[k]) - o0[k], e[k.decode()]))
                p.case(("race", k, e[k.decode()]))
        for k in ("get_hits", "get_misses", "cas_hits", "cas_misses", "cas_badval", "total_items"):
            d = int(g1[k.encode()]) - g0[k.encode()]
            p.check(d == e[k], "%s increased by %d, but clients saw %d" % (k, d, e[k]))
            p.count(k, d)
        for k in c1:
            if k.startswith("command:") and k != "command:stats" or k == "total_objects":
                p.check(c1[k] - c0[k] == e[k], "counter: %s increased by %d, but there were %d" % (k, c1[k] - c0[k], e[k]))
                p.case(("race", k, e[k]))
        p.count("requests", sum(v for k, v in e.items() if ":" in k))
        p.observe(s)


CLASSES = [(b"1024", 1024), (b"4096", 4096), (b"16384", 16384), (b"65536", 65536), (b"262144", 262144), (b"1048576", 1 << 20), (b"4194304", 4 << 20), (b"huge", 1 << 60)]


def items(p, i):
    """What a collection finds."""
    r = p.rng
    nb = r.choice([1, 2, 7, 1009])
    heap = r.choice([4096, 65536, 1 << 20])
    with yr.Server(B.build("plain"), tag=p.prop, workers=2, buckets=nb, counter__buckets=101, heap_data_limit=heap, max_data_size="10M",
                   gc_interval=100, slave_timeout=10 ** 8, memory_limit="4G") as s:
        s.step_mode()
        t, b, o = s.text(timeout=WAIT), s.bin(timeout=WAIT), s.bin(timeout=WAIT)
        m = {}              # key: [size, expiration or 0, passes survived since the last use]
        locked = set()
        exp_total = 0
        over = None
        for rnd in range(8):
            for _ in range(r.choice([0, 1, 3, 10, 40]) if rnd else 1):
                x = r.random()
                k = b"k" * r.choice([1, 5, 30]) + b"%d" % r.randrange(200)
                if x < .6 or not m:
                    if k in locked:
                        continue
                    size = r.choice([1, 100, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 65535, 65536, 262143, 262144])
                    if r.random() < .06:
                        size = r.choice([(1 << 20) - 1, 1 << 20, (4 << 20) - 1, 4 << 20])
                    e = r.choice([0, 0, 0, s.now() + 50, s.now() + 10 ** 5])
                    if t.set(k, b"x" * size, exp=e) != b"STORED":
                        p.fail("not stored")
                    m[k] = [size, e, 0]
                elif x < .7:
                    k = r.choice(list(m))
                    if k not in locked:
                        b.cmd("Delete", k)
                        del m[k]
                elif x < .8:
                    k = r.choice(list(m))
                    if t.get(k) is not None:
                        m[k][2] = 0
                elif x < .9:
                    k = r.choice(list(m))
                    if k not in locked and o.cmd("Lock", k).status == 0:
                        locked.add(k)
                else:
                    o.cmd("UnlockAll")
                    locked.clear()
            g0 = both(p, t, b, b"")
            n = s.step_gc(force=102)
            if n != 1:
                raise Inconclusive("%d collections at once" % n)
            now = s.now()
            gone = [k for k, v in m.items() if v[1] and v[1] <= now and k not in locked]
            for k in gone:
                del m[k]
            for k, v in m.items():
                v[2] += 1
            st, it, sz = both(p, t, b, b""), both(p, t, b, b"items"), both(p, t, b, b"sizes")
            cl = {k: 0 for k, _ in CLASSES}
            for v in m.values():
                cl[next(k for k, lim in CLASSES if v[0] < lim)] += 1
            for k, v in cl.items():
                p.check(sz[k] == v, "stats sizes: class %s has %d items instead of %d" % (k.decode(), sz[k], v), m)
                p.case(("size", k, v))
            p.check(st[b"curr_items"] == len(m) and it[b"items:1:number"] == len(m), "%d/%d items are reported, but there are %d" % (st[b"curr_items"], it[b"items:1:number"], len(m)), m)
            p.check(it[b"items:1:largest"] == max([v[0] for v in m.values()] or [0]), "largest item: %d instead of %d" % (it[b"items:1:largest"], max([v[0] for v in m.values()] or [0])))
            p.check(st[b"last_expirations"] == len(gone), "%d expirations are reported, but %d items expired" % (st[b"last_expirations"], len(gone)))
            p.check(st[b"last_evictions"] == 0 and st[b"evictions"] == 0 and it[b"items:1:evicted"] == 0, "evictions are reported without any", (st, it))
            p.check(st[b"gc_count"] == g0[b"gc_count"] + 1, "gc_count is %d after %d" % (st[b"gc_count"], g0[b"gc_count"]))
            p.check(st[b"total_gc_elapsed"] == g0[b"total_gc_elapsed"] + st[b"last_gc_elapsed"], "total_gc_elapsed is no sum", (g0, st))
            age = max([v[2] for k, v in m.items() if k not in locked] or [0])
            p.check(it[b"items:1:age"] == age, "the oldest item is %d collections old instead of %d" % (it[b"items:1:age"], age), m)
            # memory: that of the keys and of values on the heap, and something for each item
            data = sum(len(k) + (v[0] if v[0] <= heap else 0) for k, v in m.items())
            if m:
                rest = st[b"bytes"] - data
                p.check(rest > 0 and rest % len(m) == 0, "%d bytes are reported with %d bytes of data in %d items" % (st[b"bytes"], data, len(m)), m)
                if over is None:
                    over = rest // len(m)
                p.check(rest // len(m) == over, "bytes: %d per item beyond its data, formerly %d" % (rest // len(m), over), m)
            else:
                p.check(st[b"bytes"] == 0, "%d bytes are reported without items" % st[b"bytes"])
            cf = it[b"items:1:conflicts"]
            if nb == 1 or len(m) < 2:
                p.check(cf == (len(m) > 1), "%d conflicts of %d items in %d buckets" % (cf, len(m), nb))
            else:
                real = nb if nb != 1 else 1
                p.check(cf <= len(m) // 2, "%d conflicts of %d items" % (cf, len(m)))
            p.case(("collection", len(m), len(gone), age, data))
            p.count("collections")
            p.count("expired", len(gone))
            exp_total += len(gone)
        p.observe(s)


def evictions(p, i):
    """Evictions are counted exactly."""
    r = p.rng
    with yr.Server(B.build("plain"), tag=p.prop, workers=2, buckets=101, counter__buckets=101, heap_data_limit=65536, gc_interval=100, slave_timeout=10 ** 8, memory_limit="1M") as s:
        s.step_mode()
        t, b = s.text(timeout=WAIT), s.bin(timeout=WAIT)
        have, n, total = set(), 0, 0
        for rnd in range(12):
            for _ in range(r.choice([0, 10, 40, 100])):
                n += 1
                k = b"e%d" % n
                t.set(k, b"x" * r.choice([100, 5000, 20000]))
                have.add(k)
            for k in r.sample(sorted(have), min(len(have), 5)):
                t.get(k)
            g = s.gc_count()
            s.step_gc(force=102)
            k = s.gc_count() - g
            st, it = both(p, t, b, b""), both(p, t, b, b"items")
            left = set(t.keys())
            lost = len(have) - len(left & have)
            p.check(left <= have, "items from nowhere", left - have)
            d = st[b"evictions"] - total
            if s.gc_count() == g + k:
                p.check(d == lost, "%d evictions are reported, but %d items are gone" % (d, lost), (st, it))
                p.check(it[b"items:1:evicted"] == st[b"evictions"], "the reports of evictions differ", (st, it))
                p.check(k != 1 or st[b"last_evictions"] == lost, "last_evictions is %d, but %d items are gone" % (st[b"last_evictions"], lost))
                p.check(st[b"curr_items"] == len(left), "%d items are reported, but there are %d" % (st[b"curr_items"], len(left)))
                p.case(("evictions", lost, len(left)))
                p.count("evicted", lost)
            total = st[b"evictions"]
            have = left
        p.observe(s)


def objects(p, i):
    """The same for the objects of the counter."""
    r = p.rng
    nb = r.choice([1, 7, 101])
    with yr.Server(B.build("plain"), tag=p.prop, workers=2, buckets=7, counter__buckets=nb, counter__stat_interval=100, slave_timeout=10 ** 8) as s:
        c = s.counter(timeout=WAIT)
        m, over, made = {}, None, 0
        for rnd in range(6):
            for _ in range(r.choice([0, 3, 30])):
                k = b"n" * r.choice([1, 20, 200]) + b"%d" % r.randrange(50)
                if r.random() < .6:
                    made += k not in m
                    if c.acquire(k, 1, 1000).status == 0:
                        m[k] = m.get(k, 0) + 1
                elif m.get(k, 0) > 0:
                    c.release(k, 1)
                    m[k] -= 1
            g = int(c.stats()["gc_count"])
            t = (s.now() // 100 + 2) * 100 + 1
            s.shm.set("TIME", t)
            end = time.time() + .5
            while int(c.stats()["gc_count"]) <= g:
                if time.time() > end:
                    # a collection may be left out when the clock passes a boundary
                    t += 100
                    s.shm.set("TIME", t)
                    end = time.time() + .5
                time.sleep(.005)
            # those not in use are gone, or go at the next boundary
            st = {k: int(v) for k, v in c.stats().items()}
            m = {k: v for k, v in m.items() if v}
            d = sorted(c.dump())
            p.check(sorted(k for k, _, _ in d) == sorted(m), "other objects are there than used", (d, m))
            p.check(st["objects"] == len(m), "%d objects are reported, but there are %d" % (st["objects"], len(m)))
            p.check(st["total_objects"] == made, "%d created objects are reported, but there were %d" % (st["total_objects"], made))
            data = sum(len(k) for k in m)
            if m:
                rest = st["used_memory"] - data
                p.check(rest > 0 and rest % len(m) == 0, "%d bytes are reported with names of %d bytes of %d objects" % (st["used_memory"], data, len(m)))
                over = over or rest // len(m)
                p.check(rest // len(m) == over, "used_memory: %d per object, formerly %d" % (rest // len(m), over))
            else:
                p.check(st["used_memory"] == 0, "%d bytes are reported without objects" % st["used_memory"])
            if nb == 1 or len(m) < 2:
                p.check(st["conflicts"] == (len(m) > 1), "%d conflicts of %d objects in %d buckets" % (st["conflicts"], len(m), nb))
            else:
                p.check(st["conflicts"] <= len(m) // 2, "%d conflicts of %d objects" % (st["conflicts"], len(m)))
            p.case(("objects", len(m), data, made))
        p.observe(s)


def job(p, a):
    {"counts": counts, "items": items, "evictions": evictions, "races": races, "objects": objects}[a[0]](p, a[1])


def main(ck):
    B.build("plain")
    jobs = [("counts", i) for i in range(ck.scale(12, 100))]
    jobs += [("races", i) for i in range(ck.scale(8, 60))]
    jobs += [("items", i) for i in range(ck.scale(12, 120))]
    jobs += [("evictions", i) for i in range(ck.scale(6, 50))]
    jobs += [("objects", i) for i in range(ck.scale(6, 50))]
    ck.jobs(job, jobs)


if __name__ == "__main__":
    chk.main(PROP, "one evaluation = one reported statistic compared with what the clients saw in their replies or with the contents; distinct = statistic with value", main,
             assumptions=["retrievals refused because of a lock and cas values of operations other than set, replace and cas are left out",
                          "an operation is counted by the name of its command, with or without a reply"])

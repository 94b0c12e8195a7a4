"""C08: a caught-up slave holds exactly the master's items."""
import copy
import os
import random
import struct
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import repl
import yr
from gen import Driver, Gen
from model import Cmd, Model, Ver
from yr import OP, T0

PROP = "C08"
HEAP = 4096


def master(**kw):
    conf = dict(vip=repl.VIP, slave_timeout=10**8, heap_data_limit=HEAP, gc_interval=10**9, log__threshold="info")
    conf.update(kw)
    return yr.Server(B.build("plain"), tag=PROP, **conf)


def handover(m, slaves):
    """Kill the master; each slave becomes the master in turn with the data it had."""
    for s in slaves:
        repl.freeze(s)
    m.kill()
    m.proc.wait()
    for s in slaves:
        s.shm.set("TIME", m.shm.get("TIME"))
        repl.thaw(s)
        repl.promote(s)
        s.set_time(m.shm.get("TIME"))
        yield s
        s.kill()
        s.proc.wait()


def model(p, n):
    """Sequential commands of all kinds, judged by the model on the master and on the promoted slaves."""
    r = p.rng
    slaves, all_s = [], []
    with master(gc_interval=r.choice([1, 10, 3600]), max_data_size=40000, secure_erase=r.choice(["true", "false"]),
                repl_buffer_size=r.choice([1, 8]), buckets=r.choice([7, 10007]), workers=r.choice([1, 4])) as s:
        try:
            mo = Model(T0, 40000, HEAP)
            d = Driver(p, s, mo, nconn=4)
            keys = [b"%s%d" % (r.choice([b"a", b"kk", b"long" * 40]), i) for i in range(r.choice([4, 20]))]
            g = Gen(r, keys, 40000, HEAP, flush=True)
            s.shm.set("SEED", r.randrange(1, 1 << 30))
            for rnd in range(n):
                x = r.random()
                if (x < .15 or rnd == n // 2) and len(slaves) < 3:
                    if s.shm.get("TIME") != mo.now:
                        mo.now = s.shm.get("TIME")
                    sl = repl.slave(s, tag=PROP + "s")
                    slaves.append(sl)
                    all_s.append(sl)
                    p.count("joins")
                    if r.random() < .5:
                        repl.wait_joined(s, len(slaves))
                elif x < .2 and slaves:
                    sl = slaves.pop(r.randrange(len(slaves)))
                    sl.kill()
                    sl.proc.wait()
                    repl.wait_joined(s, len(slaves))
                    p.count("leaves")
                elif x < .35:
                    d.advance(r.choice([1, 1, 2, 5, 40]))
                elif x < .45 and s.conf["gc_interval"] < 10**6:
                    d.gc()
                elif x < .5:
                    d.reconnect(r.randrange(4), r.choice(["reset", "quit", "close"]))
                cmds = []
                for _ in range(r.choice([1, 5, 20])):
                    c = g.cmd(d)
                    if c.op in (b"flush_all", OP["Flush"], OP["FlushQ"]) and c.exp not in (None, 0):
                        c.exp = None
                    cmds.append(c)
                d.batch(r.randrange(4), cmds)
                s.shm.set("P_SHORT", r.choice([0, 0, 10000]))
            for i in range(4):
                d.reconnect(i, "quit")
            if not slaves:
                sl = repl.slave(s, tag=PROP + "s")
                slaves.append(sl)
                all_s.append(sl)
            # something to take over
            far = [0, 0, 50, 100, 1000, T0 + 5000]
            for k in r.sample(keys, len(keys) * 3 // 4):
                d.batch(r.randrange(4), [Cmd("t", b"set", k, g.value()[:20000] if r.random() < .9 else b"", g.flags(), r.choice(far)),
                                         r.choice([Cmd("t", b"append", k, b"+" * r.choice([1, HEAP])), Cmd("b", "Prepend", k, b"p" * r.choice([1, HEAP])),
                                                   Cmd("t", b"touch", k, exp=r.choice(far)), Cmd("b", "Touch", k, exp=r.choice(far)),
                                                   Cmd("b", r.choice(["GaT", "GaTK", "GaTQ"]), k, exp=r.choice(far)), Cmd("b", "LaG", k, exp=r.choice(far)),
                                                   Cmd("t", b"incr", k, num=5), Cmd("b", "Delete", k), Cmd("b", "Increment", k, num=1, initial=7, exp=r.choice(far))])])
            for i in range(4):
                d.reconnect(i, "quit")
            repl.synced(s, slaves)
            mo.now = s.now()
            mo.gc()
            for k in keys:
                d.batch(0, [Cmd("t", b"get", keys=[k])])
            d.batch(1, [Cmd("t", b"keys", b"")])
            # what the master says matches the model; from here on the slaves have to
            repl.drain(s, slaves)
            mo.now = max(mo.now, s.now())
            mo.flush = None
            for i, sl in enumerate(handover(s, slaves)):
                m2 = copy.deepcopy(mo)
                m2.seen = {}
                for it in m2.items.values():
                    it.ver = Ver()
                    it.lock = None
                d2 = Driver(p, sl, m2, nconn=2)
                d2.hist = d.hist[-150:] + [(0, m2.now, "-- slave %d of %d took over --" % (i, len(slaves)))]
                left = int(sum(1 for k in m2.items if m2.live(k)))
                p.count("items_taken_over", left)
                for _ in range(6):
                    d2.batch(0, [Cmd("t", b"keys", b"")])
                    for k in keys:
                        d2.batch(r.randrange(2), [r.choice([Cmd("t", b"get", keys=[k]), Cmd("b", "GetK", k, exp=None)])])
                    d2.advance(r.choice([1, 2, 5, 90, 1000]))
                g2 = Gen(r, keys, 40000, HEAP)
                for _ in range(20):
                    d2.batch(r.randrange(2), [g2.cmd(d2) for _ in range(5)])
                d2.close()
                p.case(("model", i, min(left, 20), int(s.conf["gc_interval"])))
                p.observe(sl)
            d.close()
            p.observe(s)
        finally:
            for sl in all_s:
                sl.cleanup()


def mutators(r, k):
    """Every way to change an item, as (name, commands)."""
    def f():
        return r.randrange(1 << 32)
    def e():
        return r.choice([0, 40, 300, T0 + 5000])
    v = (b"%d" % r.randrange(10**6)) * r.choice([1, 1, 800])
    big = b"B" * (HEAP + r.choice([0, 1, 500]))
    out = []
    for nr in (False, True):
        n = "q" if nr else ""
        for x in ("set", "add", "replace", "append", "prepend"):
            for y in (v, big, b""):
                out.append(("%s%s%d" % (x, n, (v, big, b"").index(y)), [Cmd("t", x.encode(), k, y, f(), e(), noreply=nr)]))
        out.append(("incr" + n, [Cmd("t", b"incr", k, num=r.randrange(1 << 64), noreply=nr)]))
        out.append(("decr" + n, [Cmd("t", b"decr", k, num=r.randrange(1 << 10), noreply=nr)]))
        out.append(("touch" + n, [Cmd("t", b"touch", k, exp=e(), noreply=nr)]))
        out.append(("delete" + n, [Cmd("t", b"delete", k, noreply=nr)]))
    for q in ("", "Q"):
        for x in ("Set", "Add", "Replace"):
            out.append((x + q, [Cmd("b", x + q, k, v, f(), e())]))
            out.append((x + q + "big", [Cmd("b", x + q, k, big, f(), e())]))
        for x in ("Append", "Prepend"):
            out.append((x + q, [Cmd("b", x + q, k, v)]))
            out.append((x + q + "big", [Cmd("b", x + q, k, big)]))
        for x in ("Increment", "Decrement"):
            for ee in (0xffffffff, 0, 40):
                out.append(("%s%s%s" % (x, q, ee), [Cmd("b", x + q, k, num=r.randrange(100), initial=r.randrange(1 << 64), exp=ee)]))
        out.append(("Delete" + q, [Cmd("b", "Delete" + q, k)]))
        for x in ("GaT", "GaTK", "LaG", "LaGK"):
            out.append((x + q, [Cmd("b", x + q, k, exp=e())]))
        for y in (v, big):
            out.append(("Lock+RaU%s%d" % (q, y is big), [Cmd("b", "Lock", k), Cmd("b", "RaU" + q, k, y, f(), e())]))
        out.append(("LaG+RaU" + q, [Cmd("b", "LaG", k, exp=None), Cmd("b", "RaU" + q, k, v, f(), e())]))
        out.append(("Lock+Unlock" + q, [Cmd("b", "Lock" + q, k), Cmd("b", "Append", k, b"while locked"), Cmd("b", "Unlock" + q, k)]))
    out.append(("Touch", [Cmd("b", "Touch", k, exp=e())]))
    return out


def everyop(p, arg):
    """Each mutation is the last thing that happens to a key of its own, in every state of the item."""
    r = p.rng
    gcrun, heir = arg
    names = [n for n, _ in mutators(r, b"x")]
    states = ["absent", "empty", "text", "number", "edge", "file", "expiring", "gone"]
    with master(gc_interval=10, max_data_size=40000, buckets=r.choice([97, 10007]), workers=r.choice([1, 4])) as s:
        sl = []
        try:
            mo = Model(T0, 40000, HEAP)
            d = Driver(p, s, mo, nconn=3)
            plan = []
            for st in states:
                for i, n in enumerate(names):
                    k = b"%s.%d" % (st.encode(), i)
                    plan.append((st, n, i, k))
            def prepare(st, k):
                v = {"empty": b"", "text": b"some text", "number": b"%d" % r.randrange(1 << 64), "edge": b"e" * HEAP,
                     "file": b"f" * (HEAP + 1 + r.randrange(3000)), "expiring": b"77", "gone": b"88"}.get(st)
                if v is not None:
                    d.batch(r.randrange(3), [Cmd("t", b"set", k, v, r.randrange(1 << 32), {"expiring": 500, "gone": 3}.get(st, 0))])
            before = set(r.sample(range(len(plan)), len(plan) // 2))
            for i in sorted(before):
                prepare(plan[i][0], plan[i][3])
            sl.append(repl.slave(s, tag=PROP + "s"))
            if heir:
                sl.append(repl.slave(s, tag=PROP + "s"))
            repl.synced(s, sl)
            mo.now = s.now()
            for i, x in enumerate(plan):
                if i not in before:
                    prepare(x[0], x[3])
            d.advance(5)
            r.shuffle(plan)
            for st, n, i, k in plan:
                d.batch(r.randrange(3), dict(mutators(r, k))[n])
                p.case((st, n))
            keys = [x[3] for x in plan]
            for i in range(3):
                d.reconnect(i, "quit")
            repl.drain(s, sl)
            mo.now = max(mo.now, s.now())
            for j, x in enumerate(handover(s, sl)):
                m2 = copy.deepcopy(mo)
                m2.seen = {}
                for it in m2.items.values():
                    it.ver = Ver()
                    it.lock = None
                d2 = Driver(p, x, m2, nconn=1)
                d2.hist = [(0, m2.now, "-- slave %d took over --" % j)]
                for t in (0, 30, 100, 400, 6000):
                    if t:
                        d2.advance(t)
                    for a in range(0, len(keys), 40):
                        d2.batch(0, [Cmd("t", b"get", keys=[k]) for k in keys[a:a + 40]])
                    d2.batch(0, [Cmd("t", b"keys", b"")])
                d2.close()
            d.close()
            p.count("last_operations", len(plan))
        finally:
            for x in sl:
                x.cleanup()


def same(p, what, want, got, ctx=""):
    (wk, wc), (gk, gc) = want, got
    if gc is None:
        p.fail("%s: a key is listed twice" % what, ctx)
    lost = sorted(set(wc) - set(gc))
    more = sorted(set(gc) - set(wc))
    if lost:
        p.fail("%s: %d of %d items are missing, e.g. %r" % (what, len(lost), len(wc), lost[:3]), ctx)
    if more:
        p.fail("%s: %d items that the master did not have, e.g. %r" % (what, len(more), [(k, gc[k][1][:60]) for k in more[:3]]), ctx)
    for k in wc:
        if wc[k] != gc[k]:
            a, b = wc[k], gc[k]
            p.fail("%s: %r differs: master %d/%d bytes %r, slave %d/%d bytes %r" % (
                what, k, a[0], len(a[1]), a[1][:60], b[0], len(b[1]), b[1][:60]), ctx)


def compare(p, m, slaves, ctx, times=()):
    """Everything is at rest: what the master has is what each slave has, at each of the given times."""
    for _ in range(20):
        a = repl.contents(m)
        repl.drain(m, slaves)
        b = repl.contents(m)
        if a[1] is None or b[1] is None:
            p.fail("a key is listed twice on the master")
        if a[1] == b[1]:
            break
    else:
        raise yr.Inconclusive("the contents of the master keep changing")
    for s in slaves:
        repl.freeze(s)
    series = [(m.now(), b)]
    for t in times:
        m.advance(t)
        series.append((m.now(), repl.contents(m)))
    t0 = series[0][0]
    m.shm.set("TIME", t0)
    for i, s in enumerate(handover(m, slaves)):
        for t, want in series:
            s.set_time(t)
            same(p, "slave %d of %d%s" % (i + 1, len(slaves), "" if t == t0 else ", %d s later" % (t - t0)), want, repl.contents(s), ctx)
            p.case(n=len(want[1]))
        p.observe(s)
    p.case((ctx[:200], len(slaves), min(len(b[1]), 1000)), 0)
    p.count("items_compared", len(b[1]) * len(slaves))
    p.observe(m)


def race_round(m, r, conns, nkeys, big):
    """Several connections modify the same keys in the same order at the same time."""
    streams = []
    for c in conns:
        out = []
        ser = r.randrange(1 << 30)
        for i in range(nkeys):
            k = b"r%d" % i
            x = r.random()
            z = r.choice([0, 1, 10, 100]) if r.random() > big else r.choice([4095, 4096, 4097, 9000])
            v = (b"%d.%d;" % (ser, i) * (z // 4 + 1))[:z]
            exp = r.choice([0, 0, 20, 60, 500])
            if x < .5:
                out.append(b"set %s %d %d %d noreply\r\n%s\r\n" % (k, r.randrange(1 << 32), exp, len(v), v))
            elif x < .6:
                out.append(b"delete %s noreply\r\n" % k)
            elif x < .7:
                out.append(b"%s %s 0 0 %d noreply\r\n%s\r\n" % (r.choice([b"append", b"prepend"]), k, len(v), v))
            elif x < .8:
                out.append(b"touch %s %d noreply\r\n" % (k, r.choice([0, 30, 100])))
            elif x < .85:
                out.append(b"add %s %d %d %d noreply\r\n%s\r\n" % (k, r.randrange(1 << 32), exp, len(v), v))
            elif x < .88:
                out.append(yr.bin_req("GaTQ", b"absent" + k, struct.pack(">I", 5)))
            elif x < .92:
                out.append(yr.bin_req("IncrementQ", k, struct.pack(">QQI", 1, ser, r.choice([0, 25, 0xffffffff]))))
            elif x < .95:
                out.append(yr.bin_req("ReplaceQ", k, struct.pack(">II", 7, exp), v or b"-"))
            else:
                out.append(yr.bin_req("SetQ", k, struct.pack(">II", r.randrange(1 << 32), exp), v or b"-"))
        streams.append(b"".join(out))
    bar = threading.Barrier(len(conns))

    def go(c, st):
        bar.wait()
        c.send(st + b"version\r\n")
        # errors (quiet binary failures) may precede
        end = b"VERSION"
        c.until(end)
    ths = [threading.Thread(target=go, args=x) for x in zip(conns, streams)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()


class Sink(yr.Text):
    """Swallows replies up to a mark."""

    def until(self, mark):
        while mark not in self.buf:
            self.buf = self.buf[-64:]
            self._more(1 << 16)
        self.buf = b""


def shared(p, arg):
    """Concurrent modification of the same keys; slaves that come, go and stall."""
    n, kind = arg
    r = p.rng
    evict = kind == "evict"
    slaves, all_s = [], []
    with master(memory_limit="150K" if evict else "1024M", buckets=r.choice([7, 503, 10007]), workers=r.choice([3, 8]),
                gc_interval=10 if evict else r.choice([1, 10**9]), repl_buffer_size=r.choice([1, 8, 30]), max_data_size="10M") as s:
        try:
            conns = [Sink(s.port, timeout=120) for _ in range(r.choice([3, 5]))]
            for rnd in range(n):
                conc.perturb(s, r)
                if len(slaves) < 3 and (len(all_s) < 3 or s.conf["gc_interval"] < 10**6) and (r.random() < .4 or rnd == n // 2):
                    sl = repl.slave(s, tag=PROP + "s", wait=False)
                    sl.shm.set("P_SHORT", r.choice([0, 5000]))
                    slaves.append(sl)
                    all_s.append(sl)
                    p.count("joins")
                elif len(slaves) > 1 and r.random() < .15:
                    sl = slaves.pop(0)
                    sl.kill()
                    sl.proc.wait()
                    p.count("leaves")
                stall = None
                if slaves and r.random() < .3:
                    stall = r.choice(slaves)
                    repl.freeze(stall)
                    threading.Timer(.1, repl.thaw, [stall]).start()
                if kind == "drv":
                    c = s.text()
                    for k in c.keys(b"key"):
                        c.cmd(b"delete " + k)
                    c.close()
                    conc.drive(chk.Part(p.prop, p.seed + "d", p.tier), s, r.choice([0, 1, 2]), r.randrange(1, 1 << 30), keys=r.choice([2, 4]), ops=400, clock=0)
                else:
                    race_round(s, r, conns, r.choice([50, 400, 1000]), r.choice([0, .05, .4]))
                if r.random() < .2:
                    c = s.text()
                    z = r.choice([1 << 20, 3 << 20, 9 << 20])
                    c.set(b"huge%d" % r.randrange(2), os.urandom(1000) * (z // 1000), r.randrange(1 << 32))
                    c.close()
                if kind != "drv" and r.random() < .1:
                    c = s.text()
                    c.cmd(b"flush_all")
                    c.close()
                if r.random() < .5:
                    s.shm.set("TIME", s.now() + r.choice([1, 12]))
                if stall:
                    repl.thaw(stall)
            conc.noise_off(s)
            if not slaves:
                sl = repl.slave(s, tag=PROP + "s")
                slaves.append(sl)
                all_s.append(sl)
            time.sleep(.15)
            for sl in slaves:
                repl.thaw(sl)
                sl.wait_log("Slave start")
            if int(s.conf["gc_interval"]) < 10**6:
                repl.synced(s, slaves)
            else:
                repl.wait_joined(s, len(slaves))
                end = time.time() + 60
                # no collection but the one for new slaves
                g = s.gc_count()
                s.intervals(8)
                time.sleep(.1)
                s.intervals(8)
                repl.drain(s, slaves)
            for c in conns:
                c.close()
            compare(p, s, slaves, "shared/%s gc_interval %s buckets %s" % (kind, s.conf["gc_interval"], s.conf["buckets"]),
                    [] if int(s.conf["gc_interval"]) < 10**6 else [21, 10, 40, 500])
        finally:
            for sl in all_s:
                sl.cleanup()


def oldjob(p, n):
    """Workers that were busy when the slave joined do not know it; what they do must still be right on the slave."""
    r = p.rng
    for _ in range(n):
        slaves = []
        with master(gc_interval=r.choice([3600, 10**9]), workers=r.choice([2, 4]), max_data_size="10M", sndbuf=60000) as s:
            try:
                c = s.text(timeout=60)
                c.set(b"big", b"x" * 1000000)
                keys = [b"k%d" % i for i in range(20)]
                for k in keys:
                    if r.random() < .5:
                        c.set(k, b"old" + k, r.randrange(100))
                busy = yr.Text(s.port, timeout=60, rcvbuf=4096)
                busy.send(b"get big\r\n" * 4)
                # its job began before the slave came; it stands still until the replies are read
                acts = []
                for k in r.sample(keys, 12):
                    acts.append(r.choice([b"delete %s noreply\r\n" % k, b"set %s 5 0 4 noreply\r\nbusy\r\n" % k,
                                          b"append %s 0 0 1 noreply\r\n+\r\n" % k, b"touch %s 500 noreply\r\n" % k,
                                          b"incr %s 1 noreply\r\n" % k]))
                busy.send(b"".join(acts) + b"version\r\n")
                time.sleep(r.choice([.02, .1]))
                if r.random() < .3:
                    slaves.append(repl.slave(s, tag=PROP + "s"))
                    repl.wait_joined(s, 1)
                slaves.append(repl.slave(s, tag=PROP + "s"))
                repl.wait_joined(s, len(slaves))
                for k in r.sample(keys, 12):
                    c.send(r.choice([b"delete %s noreply\r\n" % k, b"set %s 6 0 3 noreply\r\nnew\r\n" % k,
                                     b"append %s 0 0 1 noreply\r\n-\r\n" % k, b"touch %s 100 noreply\r\n" % k]))
                if r.random() < .2:
                    c.send(b"flush_all noreply\r\n")
                c.cmd(b"version")
                s.intervals(2)
                for i in range(4):
                    busy.read_values()
                while not busy.line().startswith(b"VERSION"):
                    pass
                s.intervals(6)
                repl.drain(s, slaves)
                busy.close()
                compare(p, s, slaves, "oldjob %d" % len(slaves), [101, 400] if int(s.conf["gc_interval"]) > 10**6 else [])
            finally:
                for x in slaves:
                    x.cleanup()


def duringgc(p, n):
    """A slave that joins while a collection pass is under way: the pass does not know it."""
    r = p.rng
    for _ in range(n):
        slaves = []
        with master(gc_interval=3600, workers=3, buckets=20011, max_data_size="10M", memory_limit=r.choice(["1024M", "300K"])) as s:
            try:
                c = s.text(timeout=60)
                keys = [b"k%d" % i for i in range(400)]
                for k in keys:
                    c.send(b"set %s 1 %d 2000 noreply\r\n%s\r\n" % (k, r.choice([0, 0, 50]), b"v" * 2000))
                c.cmd(b"version")
                for rnd in range(3):
                    # a long pass
                    s.shm.set("SEED", r.randrange(1, 1 << 30))
                    s.shm.set("P_DELAY", 3000)
                    s.shm.set("DELAY_US", 300)
                    s.shm.set("TIME", s.now() + r.choice([3602, 3700]))
                    i = s.shm.get("N_IFADDRS")
                    end = time.time() + 20
                    while s.shm.get("N_IFADDRS") == i and time.time() < end:
                        time.sleep(.001)
                    if len(slaves) < 3:
                        slaves.append(repl.slave(s, tag=PROP + "s", wait=False))
                    end = time.time() + 3
                    while "has joined" not in s.log() and time.time() < end:
                        time.sleep(.001)
                    for j in range(4):
                        for k in r.sample(keys, 60):
                            c.send(r.choice([b"set %s 2 0 500 noreply\r\n%s\r\n" % (k, b"w" * 500), b"delete %s noreply\r\n" % k,
                                             b"touch %s 1 noreply\r\n" % k, b"set %s 2 1 4 noreply\r\nsoon\r\n" % k]))
                        if r.random() < .4:
                            c.send(b"flush_all noreply\r\n")
                        c.cmd(b"version")
                        s.shm.set("TIME", s.now() + 1)
                        time.sleep(.01)
                    p.count("passes_with_join")
                    conc.noise_off(s)
                for x in slaves:
                    x.wait_log("Slave start")
                repl.synced(s, slaves)
                compare(p, s, slaves, "during collection")
            finally:
                for x in slaves:
                    x.cleanup()


def streaming(p, n):
    """Clients that never stop while slaves join and the collector runs."""
    r = p.rng
    slaves = []
    with master(gc_interval=1, workers=4, buckets=r.choice([101, 5003]), max_data_size="10M", repl_buffer_size=r.choice([1, 8])) as s:
        try:
            stop = threading.Event()
            errs = []
            done = [0]

            def client(seed):
                q = random.Random(seed)
                try:
                    c = Sink(s.port, timeout=120)
                    while not stop.is_set():
                        out = []
                        for _ in range(q.choice([5, 50, 300])):
                            k = b"s%d" % q.randrange(60)
                            x = q.random()
                            v = b"%d" % q.randrange(1 << 40) * q.choice([1, 1, 5, 500])
                            out.append(b"set %s %d 0 %d noreply\r\n%s\r\n" % (k, q.randrange(99), len(v), v) if x < .45 else
                                       b"delete %s noreply\r\n" % k if x < .8 else
                                       b"append %s 0 0 1 noreply\r\n+\r\n" % k if x < .9 else
                                       b"touch %s %d noreply\r\n" % (k, q.choice([0, 1000000])))
                        if q.random() < .02:
                            out.append(b"flush_all noreply\r\n")
                        c.send(b"".join(out) + b"version\r\n")
                        c.until(b"VERSION")
                        done[0] += len(out)
                    c.close()
                except Exception as e:
                    errs.append(e)
            conc.perturb(s, r)
            ths = [threading.Thread(target=client, args=(r.randrange(1 << 30),)) for _ in range(5)]
            for t in ths:
                t.start()
            for i in range(n):
                for _ in range(r.choice([5, 30])):
                    s.shm.set("TIME", s.now() + 1)
                    time.sleep(.004)
                if len(slaves) < 4 and r.random() < .6:
                    slaves.append(repl.slave(s, tag=PROP + "s", wait=False))
                    p.count("joins")
                elif slaves and r.random() < .3:
                    x = slaves.pop(0)
                    x.kill()
                    x.proc.wait()
                    x.cleanup()
            if not slaves:
                slaves.append(repl.slave(s, tag=PROP + "s", wait=False))
            time.sleep(.1)
            stop.set()
            for t in ths:
                t.join()
            if errs:
                raise errs[0]
            conc.noise_off(s)
            for x in slaves:
                x.wait_log("Slave start")
            repl.synced(s, slaves)
            p.count("streamed", done[0])
            compare(p, s, slaves, "streaming")
        finally:
            stop.set()
            for x in slaves:
                x.cleanup()


def run(ck):
    B.build("plain")
    conc.tool()
    ck.jobs(oldjob, [ck.scale(3, 20)] * ck.scale(4, 16))
    ck.jobs(everyop, [(i, i & 1) for i in range(ck.scale(4, 24))])
    ck.jobs(model, [ck.scale(60, 300)] * ck.scale(8, 48))
    ck.jobs(shared, [(ck.scale(12, 60), k) for k in ["race", "race", "drv", "evict"] * ck.scale(3, 12)])
    ck.jobs(duringgc, [ck.scale(1, 6)] * ck.scale(4, 16))
    ck.jobs(streaming, [ck.scale(12, 80)] * ck.scale(4, 24))


if __name__ == "__main__":
    chk.main(PROP, "every item of the master at rest is compared with every slave after its promotion (keys, values, flags; expiration by moving "
             "the clock); slaves join, leave and stall during sequential model runs, races on the same keys, eviction, flush and collection; "
             "distinct by scenario and number of items and slaves", run,
             assumptions=["replication is at rest when both reactors have turned several times while no byte moved and no kernel queue holds data"])

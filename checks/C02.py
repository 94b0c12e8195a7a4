"""C02: a conditional update succeeds only if the item is unchanged since its version was read."""
import os
import struct
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import yr
from gen import Driver, Gen
from model import Cmd, Model
from yr import T0, OP

PROP = "C02"
HEAP, MAXD = 4096, 16384
EXISTS, NOTFOUND = 2, 1


def history(p, n):
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=conc.HEAP, workers=r.choice([2, 4, 8]), gc_interval=1,
                   secure_erase=r.choice(["true", "false"])) as s:
        for i in range(n):
            conc.perturb(s, r)
            conc.drive(p, s, 1, r.randrange(1, 1 << 30), keys=r.choice([1, 2, 3]), ops=r.choice([300, 600]),
                       resets=r.choice([0, 0, 2]), clock=r.choice([0, 3]))
            c = s.text()
            for k in c.keys():
                c.send(b"delete %s\r\n" % k)
                c.line()
            c.close()
        conc.noise_off(s)
        p.observe(s)


# what may happen to the item between reading its version and the conditional command:
# name -> commands (connection, Cmd) or special steps
def between(k, cur):
    e = 0
    return {
        "nothing": [],
        "read": [(1, Cmd("t", b"gets", keys=[k]))],
        "touch": [(1, Cmd("t", b"touch", k, exp=1000))],
        "get and touch": [(1, Cmd("b", "GaT", k, exp=1000))],
        "same value set": [(1, Cmd("t", b"set", k, b"10", 5))],
        "other value set": [(1, Cmd("b", "Set", k, b"11", 5))],
        "replaced": [(0, Cmd("t", b"replace", k, b"10", 5))],
        "cas with this version": [(1, Cmd("t", b"cas", k, b"10", 5, cas=cur))],
        "quiet set": [(1, Cmd("b", "SetQ", k, b"10", 5))],
        "failed add": [(1, Cmd("t", b"add", k, b"10", 5))],
        "failed cas": [(1, Cmd("t", b"cas", k, b"99", 5, cas=1 << 62))],
        "too large set": [(1, Cmd("t", b"set", k, b"x" * (MAXD + 1)))],
        "append": [(1, Cmd("t", b"append", k, b"1"))],
        "append nothing": [(1, Cmd("t", b"append", k, b""))],
        "prepend": [(1, Cmd("b", "Prepend", k, b"1"))],
        "incr": [(1, Cmd("t", b"incr", k, num=1))],
        "incr by 0": [(1, Cmd("t", b"incr", k, num=0))],
        "incr and decr": [(1, Cmd("t", b"incr", k, num=1)), (1, Cmd("b", "Decrement", k, num=1, exp=0xffffffff))],
        "deleted": [(1, Cmd("t", b"delete", k))],
        "deleted and set": [(1, Cmd("t", b"delete", k)), (1, Cmd("t", b"set", k, b"10", 5))],
        "deleted and added often": [(1, Cmd("t", b"delete", k)), (1, Cmd("t", b"add", k, b"10", 5))] * 4,
        "deleted and initialised": [(1, Cmd("b", "Delete", k)), (1, Cmd("b", "Increment", k, num=1, initial=10, exp=0))],
        "lock and unlock": [(1, Cmd("t", b"lock", k)), (1, Cmd("t", b"unlock", k))],
        "LaG and RaU": [(1, Cmd("b", "LaG", k, exp=None)), (1, Cmd("b", "RaU", k, b"10", 5, 0))],
        "locked": [(1, Cmd("t", b"lock", k))],
        "locked by self": [(0, Cmd("t", b"lock", k))],
        "touched into the past, set": [(1, Cmd("t", b"touch", k, exp=5)), "wait10", (1, Cmd("t", b"set", k, b"10", 5))],
        "touched into the past, added": [(1, Cmd("t", b"touch", k, exp=5)), "wait10", (1, Cmd("b", "Add", k, b"10", 5, 0))],
        "touched into the past, initialised": [(1, Cmd("t", b"touch", k, exp=5)), "wait10", (1, Cmd("b", "Increment", k, num=1, initial=10, exp=0))],
        "expired": [(1, Cmd("t", b"touch", k, exp=5)), "wait10"],
        "collected and set": [(1, Cmd("t", b"touch", k, exp=5)), "collect", (1, Cmd("t", b"set", k, b"10", 5))],
        "collection": ["collect"],
        "into a file": [(1, Cmd("t", b"set", k, b"F" * (HEAP + 7), 5))],
    }


def conditionals(k, v):
    out = []
    for nr in (False, True):
        out += [Cmd("t", b"cas", k, b"77", 9, 0, cas=v, noreply=nr), Cmd("t", b"cas", k, b"", 9, 0, cas=v, noreply=nr),
                Cmd("t", b"cas", k, b"G" * (HEAP + 3), 9, 0, cas=v, noreply=nr)]
    for q in ("", "Q"):
        for op in ("Set", "Replace", "Append", "Prepend", "RaU"):
            out.append(Cmd("b", op + q, k, b"78", 9, 0, cas=v))
        out += [Cmd("b", "Increment" + q, k, num=3, initial=5, exp=0, cas=v), Cmd("b", "Decrement" + q, k, num=3, initial=5, exp=0xffffffff, cas=v),
                Cmd("b", "Delete" + q, k, cas=v)]
    return out


SOURCES = ("gets", "GetK", "Set", "Append", "Increment", "LaGRaU")


def matrix(p, arg):
    sources, secure, lastbyte = arg
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=MAXD, gc_interval=3600, workers=3,
                   buckets=101, secure_erase=secure) as s:
        d = Driver(p, s, Model(T0, MAXD, HEAP), nconn=2)
        names = list(between(b"x", None))
        n = 0
        for src in sources:
            for name in names:
                todo = []
                for i in range(len(conditionals(b"x", None))):
                    n += 1
                    k = b"k%d" % n
                    d.batch(0, [Cmd("t", b"set", k, b"10", 5)])
                    if src == "gets":
                        d.batch(0, [Cmd("t", b"gets", keys=[k])])
                    elif src == "GetK":
                        d.batch(0, [Cmd("b", "GetK", k, exp=None)])
                    elif src == "Set":
                        d.batch(0, [Cmd("b", "Set", k, b"10", 5, 0)])
                    elif src == "Append":
                        d.batch(0, [Cmd("b", "Append", k, b"0")])
                    elif src == "Increment":
                        d.batch(0, [Cmd("b", "Increment", k, num=1, initial=0, exp=0)])
                    else:
                        d.batch(0, [Cmd("b", "LaG", k, exp=None), Cmd("b", "RaU", k, b"10", 5, 0)])
                    todo.append((k, d.m.items[k].ver))
                steps = between(todo[0][0], todo[0][1])[name]
                for j, st in enumerate(steps):
                    if st == "wait10":
                        d.advance(10)
                    elif st == "collect":
                        d.advance(10)
                        d.gc()
                    else:
                        ci = st[0]
                        d.batch(ci, [between(k, v)[name][j][1] for k, v in todo])
                for i, (k, v) in enumerate(todo):
                    c = conditionals(k, v)[i]
                    chk_ = [c, Cmd("t", b"gets", keys=[k])]
                    d.batch(0, chk_)
                    p.case(("matrix", src, name, str(c.op), len(c.val), c.noreply), 1)
                d.batch(1, [Cmd("t", b"unlock_all")])
                d.batch(0, [Cmd("t", b"unlock_all")])
        p.count("matrix_cases", n)
        d.close()
        p.observe(s)


def walk(p, n):
    """Random walks with many conditional commands, current and stale versions of re-created items."""
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=MAXD, gc_interval=3600, workers=r.choice([1, 3])) as s:
        d = Driver(p, s, Model(T0, MAXD, HEAP), nconn=3)
        g = Gen(r, [b"a", b"b"], MAXD, HEAP, flush=False)
        done = 0
        while done < n:
            x = r.random()
            if x < .02 and d.m.now < 2**32 - 10**8:
                d.advance(r.choice([1, 5, 100]))
            elif x < .024:
                d.gc()
            else:
                cmds = []
                for _ in range(r.choice([1, 2, 4])):
                    c = g.cmd(d)
                    if r.random() < .5:
                        k = r.choice(g.keys)
                        c = r.choice(conditionals(k, g.ver(d, k)))
                    elif r.random() < .3:
                        c = Cmd("t", b"gets", keys=g.keys)
                    elif r.random() < .3:
                        k = r.choice(g.keys)
                        c = r.choice([Cmd("t", b"delete", k), Cmd("t", b"set", k, b"%d" % r.randrange(100)), Cmd("b", "Add", k, b"5", 0, 0)])
                    cmds.append(c)
                d.batch(r.randrange(3), cmds)
                done += len(cmds)
        d.close()
        p.count("walk_commands", done)
        p.observe(s)


def race(p, n):
    """Connections that use one version at the same time: one success, and its value stays."""
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, workers=r.choice([4, 8]), heap_data_limit=HEAP) as s:
        N = 6
        conns = [s.bin() for _ in range(N)]
        w = s.text()
        for i in range(n):
            conc.perturb(s, r)
            k = b"r%d" % (i % 7)
            start = r.choice([b"10", b"10", b"S" * (HEAP + 50)])
            w.store(b"set", k, start)
            v = w.gets(k)[3]
            use = r.randrange(2, N + 1)
            reqs = []
            for j in range(use):
                kind = r.choice(["cas", "Set", "Set", "Replace", "Append", "Delete", "Increment"] if start == b"10" else ["cas", "Set", "Append", "Delete", "Replace"])
                val = b"%d" % (1000 + j) if r.random() < .7 else b"%d" % (1000 + j) * HEAP
                if kind == "cas":
                    data = b"cas %s 0 0 %d %d\r\n%s\r\n" % (k, len(val), v, val)
                elif kind == "Delete":
                    data, val = yr.bin_req("Delete", k, cas=v), None
                elif kind == "Append":
                    data, val = yr.bin_req("Append", k, b"", b"7", cas=v), start + b"7"
                elif kind == "Increment":
                    data, val = yr.bin_req("Increment", k, struct.pack(">QQI", 1 + j, 0, 0xffffffff), cas=v), b"%d" % (11 + j)
                else:
                    data = yr.bin_req(kind, k, struct.pack(">II", 0, 0), val, cas=v)
                reqs.append((kind, data, val))
            for c, q in zip(conns, reqs):
                c.s.sendall(q[1])
            res = []
            for c, q in zip(conns, reqs):
                if q[0] == "cas":
                    x = c.line()[:-2]
                    res.append({b"STORED": "won", b"EXISTS": "exists", b"NOT_FOUND": "absent"}.get(x, x))
                else:
                    x = c.recv()
                    res.append({0: "won", 2: "exists", 1: "absent"}.get(x.status, x.status))
            p.case((tuple(q[0] for q in reqs), tuple(res)))
            won = [q for q, x in zip(reqs, res) if x == "won"]
            ctx = "%r -> %r" % ([(q[0]) for q in reqs], res)
            if len(won) != 1:
                p.fail("%d of %d concurrent conditional updates from one version succeeded" % (len(won), use), ctx)
            bad = [x for x in res if x not in ("won", "exists") and not (x == "absent" and won[0][0] == "Delete")]
            if bad:
                p.fail("a losing conditional update was answered %r" % bad[0], ctx)
            got = w.gets(k)
            if won[0][2] is None:
                if got is not None:
                    p.fail("the item exists although its conditional deletion succeeded", ctx)
            else:
                if got is None or got[2] != won[0][2]:
                    p.fail("the item does not hold the value of the conditional update that succeeded: %.60r" % (got,), ctx)
                if got[3] == v:
                    p.fail("the version did not change with a modification", ctx)
        p.count("races", n)
        p.observe(s)


def loop(p, arg):
    """Read-modify-write loops with text cas and binary Set: no increment is lost."""
    n, size = arg
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, workers=r.choice([2, 8]), heap_data_limit=HEAP, gc_interval=1) as s:
        pad = b" " * size
        w = s.text()
        w.store(b"set", b"n", b"0" + pad)
        conc.perturb(s, r)
        errs, tries = [], [0]
        N = 5
        conns = [s.bin() for _ in range(N)]
        stop = threading.Event()

        def work(j):
            c = conns[j]
            t = yr.Text.__new__(yr.Text)
            t.s, t.buf = c.s, b""
            try:
                done = 0
                while done < n and not errs:
                    x = t.gets(b"n")
                    if x is None or x[2][-len(pad):] != pad and size:
                        errs.append("the counter is damaged: %.80r" % (x,))
                        return
                    new = b"%d" % (int(x[2]) + 1) + pad
                    tries[0] += 1
                    if j % 2:
                        z = t.store(b"cas", b"n", new, cas=x[3])
                        ok = z == b"STORED"
                        if z not in (b"STORED", b"EXISTS"):
                            errs.append("cas answered %r" % z)
                    else:
                        z = c.set(b"n", new, cas=x[3])
                        ok = z.status == 0
                        if z.status not in (0, 2):
                            errs.append("Set answered %r" % z)
                    done += ok
            except Exception as e:
                errs.append(e)

        def tick():
            while not stop.wait(0.01):
                s.shm.set("TIME", s.shm.get("TIME") + 3)
        ts = [threading.Thread(target=work, args=(j,)) for j in range(N)]
        tk = threading.Thread(target=tick)
        tk.start()
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        stop.set()
        tk.join()
        for e in errs:
            if isinstance(e, str):
                p.fail(e)
            raise e
        got = int(w.get(b"n")[2])
        if got != N * n:
            p.fail("%d successful conditional increments gave %d" % (N * n, got))
        p.case(("loop", size, tries[0] - N * n > 0), N * n)
        p.count("loop_successes", N * n)
        p.count("loop_conflicts", tries[0] - N * n)
        p.observe(s)


def run(ck):
    B.build("plain")
    conc.tool()
    ck.jobs(history, [ck.scale(4, 60)] * ck.scale(8, 48))
    ck.jobs(matrix, [((x,), sec, 0) for x in SOURCES for sec in (("true", "false") if ck.thorough else ("false",))])
    ck.jobs(walk, [ck.scale(5000, 60000)] * ck.scale(8, 32))
    ck.jobs(race, [ck.scale(1000, 8000)] * ck.scale(6, 24))
    ck.jobs(loop, [(ck.scale(300, 2000), sz) for sz in (0, 3, HEAP)] * ck.scale(2, 8))


if __name__ == "__main__":
    chk.main(PROP, "versions from every source x what happened to the item since x every conditional command against the reference model "
             "(complete), random walks, races from one version, read-modify-write loops, and linearizable histories with versions; "
             "distinct by source, intervening step, command and outcome", run,
             assumptions=["a version is what gets or a binary reply reported for the key"])

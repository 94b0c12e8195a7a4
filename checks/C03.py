"""C03: every command has its documented effect and reply in every item state."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import yr
from gen import Driver, Gen
from model import Cmd, Model, T30
from yr import OP, T0

HEAP, MAXD = 4096, 16384
PROP = "C03"


def server(**kw):
    return yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=MAXD, gc_interval=3600, **kw)


BIGV, OVER = b"B" * (HEAP + 100), b"O" * (MAXD + 1)

# name, commands of the tested connection (0) or another one (1) that build the state before the
# clock is advanced by 50 seconds
STATES = [
    ("absent", lambda k: []),
    ("deleted", lambda k: [(0, Cmd("t", b"set", k, b"1")), (1, Cmd("t", b"delete", k))]),
    ("number", lambda k: [(1, Cmd("t", b"set", k, b"10", 5))]),
    ("zero", lambda k: [(0, Cmd("t", b"set", k, b"0", 5, 1000))]),
    ("maximum", lambda k: [(1, Cmd("b", "Set", k, b"18446744073709551615", 5))]),
    ("overflowing number", lambda k: [(1, Cmd("b", "Set", k, b"18446744073709551616", 5))]),
    ("text", lambda k: [(0, Cmd("t", b"set", k, b"abc", 0xffffffff))]),
    ("empty", lambda k: [(0, Cmd("t", b"set", k, b"", 9))]),
    ("in a file", lambda k: [(0, Cmd("t", b"set", k, BIGV, 9))]),
    ("almost too large", lambda k: [(0, Cmd("t", b"set", k, b"q" * (MAXD - 1), 9))]),
    ("from file to memory", lambda k: [(0, Cmd("t", b"set", k, BIGV, 9)), (0, Cmd("t", b"set", k, b"7", 9))]),
    ("expired", lambda k: [(0, Cmd("t", b"set", k, b"10", 5, 49))]),
    ("expired in a file", lambda k: [(0, Cmd("t", b"set", k, BIGV, 5, 50))]),
    ("about to expire", lambda k: [(0, Cmd("t", b"set", k, b"10", 5, 51))]),
    ("touched", lambda k: [(0, Cmd("t", b"set", k, b"10", 5, 20)), (1, Cmd("b", "Touch", k, exp=2000))]),
    ("locked by self", lambda k: [(0, Cmd("t", b"set", k, b"10", 5)), (0, Cmd("t", b"lock", k))]),
    ("locked by other", lambda k: [(0, Cmd("t", b"set", k, b"10", 5)), (1, Cmd("b", "LaG", k, exp=None))]),
    ("locked by self, time over", lambda k: [(0, Cmd("t", b"set", k, b"10", 5, 10)), (0, Cmd("b", "Lock", k))]),
    ("locked by other, time over", lambda k: [(0, Cmd("t", b"set", k, b"10", 5, 10)), (1, Cmd("t", b"lock", k))]),
    ("unlocked again", lambda k: [(0, Cmd("t", b"set", k, b"10", 5)), (1, Cmd("t", b"lock", k)), (1, Cmd("t", b"unlock", k))]),
]


def tests(k, now, ver):
    """Every command variant. ver: (current version or None, stale version or None)."""
    out = []
    cur, old = ver
    for nr in (False, True):
        for op in (b"set", b"add", b"replace", b"append", b"prepend"):
            for v in (b"", b"5", b"new", BIGV, OVER, b"p" * MAXD):
                out.append(Cmd("t", op, k, v, 77, 0, noreply=nr))
            for e in (100, now - 1, now, now + 100):
                out.append(Cmd("t", op, k, b"e", 78, e, noreply=nr))
        for c in (cur, old, 1 << 63):
            if c is not None:
                for v in (b"", b"55", BIGV, OVER):
                    out.append(Cmd("t", b"cas", k, v, 79, 30, cas=c, noreply=nr))
        for op in (b"incr", b"decr"):
            for n in (0, 1, 10, 11, (1 << 64) - 1):
                out.append(Cmd("t", op, k, num=n, noreply=nr))
        for e in (0, 1, now - 1, now, now + 1, T30, T30 + 1):
            out.append(Cmd("t", b"touch", k, exp=e, noreply=nr))
        out.append(Cmd("t", b"delete", k, noreply=nr))
    for op in (b"get", b"gets"):
        out.append(Cmd("t", op, keys=[k]))
        out.append(Cmd("t", op, keys=[k, b"nosuch", k]))
    out += [Cmd("t", b"lock", k), Cmd("t", b"unlock", k), Cmd("t", b"keys", k)]
    for q in ("", "Q"):
        for c in (None, cur, old, 1 << 63):
            for op in ("Set", "Add", "Replace", "RaU", "Append", "Prepend"):
                for v in (b"", b"5", b"new", BIGV, OVER, b"p" * MAXD):
                    out.append(Cmd("b", op + q, k, v, 81, 0, cas=c))
            for op in ("Set", "Add", "Replace", "RaU"):
                for e in (100, now, now + 100, 0xffffffff):
                    out.append(Cmd("b", op + q, k, b"e", 82, e, cas=c))
            out.append(Cmd("b", "Delete" + q, k, cas=c))
            for op in ("Increment", "Decrement"):
                for n, ini, e in ((0, 7, 0), (1, 8, 100), (11, (1 << 64) - 1, now), ((1 << 64) - 1, 0, 0xffffffff)):
                    out.append(Cmd("b", op + q, k, num=n, initial=ini, exp=e, cas=c))
        for op in ("Get", "GetK", "GaT", "GaTK", "LaG", "LaGK"):
            for e in (None, 0, 100, now, 0xffffffff):
                out.append(Cmd("b", op + q, k, exp=e))
        out += [Cmd("b", "Lock" + q, k), Cmd("b", "Unlock" + q, k)]
    for e in (0, 1, now - 1, now, now + 1, 0xffffffff):
        out.append(Cmd("b", "Touch", k, exp=e))
    return out


def matrix(p, arg):
    """One state: every command variant on its own key, then the resulting item is inspected."""
    states, keylen = arg
    with server(workers=3) as s:
        d = Driver(p, s, Model(T0, MAXD, HEAP), nconn=2)
        for name, setup in states:
            variants = len(tests(b"x", d.m.now, (1, 2)))
            keys = []
            for i in range(variants):
                k = b"%s-%d" % (name.replace(" ", "_").replace(",", "").encode(), i)
                keys.append(k + b"k" * (keylen - len(k)))
            step = 100
            for a in range(0, variants, step):
                ks = keys[a:a + step]
                # build the state; the first version becomes a stale one where there are two
                for k in ks:
                    run, at = [], None
                    for ci, c in setup(k):
                        if at is not None and ci != at:
                            d.batch(at, run)
                            run = []
                        run.append(c)
                        at = ci
                    if run:
                        d.batch(at, run)
                    d.batch(0, [Cmd("t", b"gets", keys=[k])])
                d.advance(50)
                for i, k in enumerate(ks):
                    it = d.m.items.get(k)
                    cur = it.ver if it is not None and it.ver.num else None
                    old = 1 << 62
                    c = tests(k, d.m.now, (cur, old))
                    c = c[a + i] if a + i < len(c) else None
                    if c is None:
                        continue
                    d.batch(0, [c])
                    # the item as both protocols and both connections show it
                    d.batch(1, [Cmd("t", b"gets", keys=[k]), Cmd("b", "GetK", k, exp=None)])
                    d.batch(0, [Cmd("t", b"unlock", k), Cmd("b", "Unlock", k)])
                    d.batch(1, [Cmd("t", b"unlock", k), Cmd("t", b"gets", keys=[k])])
                    p.case((name, keylen, repr(c).split("key=")[0], len(c.val), c.exp, c.num, c.cas is cur, c.cas is None, c.noreply), 0)
                    if i == 0:
                        p.sample("state %r, command %r" % (name, c))
                # the expiration time that resulted, seen from the clock
                for dt in (1, 29, 30, 40, 2):
                    d.advance(dt)
                    d.batch(0, [Cmd("b", "GetKQ", k, exp=None) for k in ks])
                d.batch(0, [Cmd("t", b"keys", ks[0][:8])])
                d.batch(1, [Cmd("t", b"delete", k) for k in ks])
                d.batch(0, [Cmd("t", b"delete", k) for k in ks])
        d.close()
        p.observe(s)
        if s.stop() != 0:
            p.fail("exit status of the server is not 0", s.diag())


def walk(p, n):
    """A long random history over few keys and several connections."""
    r = p.rng
    with server(workers=r.choice([1, 2, 4]), secure_erase=r.choice(["true", "false"])) as s:
        d = Driver(p, s, Model(T0, MAXD, HEAP), nconn=4)
        g = Gen(r, [b"a", b"b", b"key-%d" % r.randrange(1000), b"k" * 250, b"\xe3\x81\x82"], MAXD, HEAP)
        done = 0
        while done < n:
            x = r.random()
            if x < .03:
                d.advance(r.choice([1, 1, 2, 3, 10, 100, T30]) if d.m.now < 2**32 - 10**8 else 1)
            elif x < .035:
                d.gc()
            else:
                ci = r.randrange(len(d.conns))
                k = r.choice([1, 1, 2, 5, 20])
                before = {key: (it.val[:8], len(it.val), it.lock) for key, it in d.m.items.items()}
                cmds = [g.cmd(d) for _ in range(k)]
                d.batch(ci, cmds, split=r.choice([None, None, None, 1, 4]))
                done += k
                for c in cmds:
                    p.case((str(c.op), c.quiet(), c.cas is None, before.get(c.key, ())[1:]), 0)
        p.sample(d.dump(4))
        d.close()
        p.observe(s)
        if s.stop() != 0:
            p.fail("exit status of the server is not 0", s.diag())


def run(ck):
    B.build("plain")
    groups = [STATES[i::5] for i in range(5)]
    ck.jobs(matrix, [(g, 20) for g in groups] + ([(g, 250) for g in groups] if ck.thorough else [(STATES[2::6], 250)]))
    ck.jobs(walk, [ck.scale(2500, 60000)] * ck.scale(16, 64))


if __name__ == "__main__":
    chk.main(PROP, "each command variant in each item state, plus random histories of four connections; a case is "
             "one reply compared with the reference model, distinct by state, command, conditions and arguments",
             run, assumptions=["the clock is virtual: time() is answered from shared memory",
                               "numbers are digit strings; other forms accepted by the server are not judged"])

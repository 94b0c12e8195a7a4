"""C05: expiration, touch and flush_all, judged at every second of a virtual clock."""
import os
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import yr
from gen import Driver, Gen
from model import Cmd, Model, T30
from yr import T0

PROP = "C05"
HEAP, MAXD = 4096, 16384
FAR = 0xfffffffe

# name -> (needs an existing item, f(key, exptime, model item) -> [commands])
STORES = {
    "set": lambda k, e, d: [Cmd("t", b"set", k, b"1", 3, e)],
    "set-over": lambda k, e, d: [Cmd("t", b"set", k, b"0", 1, 77), Cmd("t", b"set", k, b"1", 3, e)],
    "set-nr": lambda k, e, d: [Cmd("t", b"set", k, b"1", 3, e, noreply=True)],
    "big": lambda k, e, d: [Cmd("t", b"set", k, b"9" * 5000, 3, e)],
    "add": lambda k, e, d: [Cmd("t", b"add", k, b"1", 3, e)],
    "replace": lambda k, e, d: [Cmd("t", b"set", k, b"0", 1, 77), Cmd("t", b"replace", k, b"1", 3, e)],
    "append-keeps": lambda k, e, d: [Cmd("t", b"set", k, b"1", 3, e), Cmd("t", b"append", k, b"2", 3, 55)],
    "prepend-keeps": lambda k, e, d: [Cmd("t", b"set", k, b"1", 3, e), Cmd("b", "Prepend", k, b"2")],
    "incr-keeps": lambda k, e, d: [Cmd("t", b"set", k, b"1", 3, e), Cmd("t", b"incr", k, num=5)],
    "bincr-keeps": lambda k, e, d: [Cmd("t", b"set", k, b"1", 3, e), Cmd("b", "Increment", k, num=5, exp=3)],
    "get-keeps": lambda k, e, d: [Cmd("t", b"set", k, b"1", 3, e), Cmd("b", "Get", k, exp=None), Cmd("b", "GetK", k, exp=0xffffffff)],
    "touch": lambda k, e, d: [Cmd("t", b"set", k, b"1", 3, 50), Cmd("t", b"touch", k, exp=e)],
    "touch-nr": lambda k, e, d: [Cmd("t", b"set", k, b"1", 3, 0), Cmd("t", b"touch", k, exp=e, noreply=True)],
    "bset": lambda k, e, d: [Cmd("b", "Set", k, b"1", 3, e)],
    "bsetq": lambda k, e, d: [Cmd("b", "SetQ", k, b"1", 3, e)],
    "badd": lambda k, e, d: [Cmd("b", "Add", k, b"1", 3, e)],
    "breplace": lambda k, e, d: [Cmd("b", "Set", k, b"0", 3, 50), Cmd("b", "ReplaceQ", k, b"1", 3, e)],
    "btouch": lambda k, e, d: [Cmd("b", "Set", k, b"1", 3, 50), Cmd("b", "Touch", k, exp=e)],
    "gat": lambda k, e, d: [Cmd("b", "Set", k, b"1", 3, 50), Cmd("b", "GaT", k, exp=e)],
    "gatkq": lambda k, e, d: [Cmd("b", "Set", k, b"1", 3, 0), Cmd("b", "GaTKQ", k, exp=e)],
    "get-exp": lambda k, e, d: [Cmd("b", "Set", k, b"1", 3, 50), Cmd("b", "GetKQ", k, exp=e)],
    "lag": lambda k, e, d: [Cmd("b", "Set", k, b"1", 3, 50), Cmd("b", "LaG", k, exp=e), Cmd("b", "Unlock", k)],
    "rau": lambda k, e, d: [Cmd("b", "Set", k, b"1", 3, 50), Cmd("b", "Lock", k), Cmd("b", "RaU", k, b"1", 3, e)],
    "incr-init": lambda k, e, d: [Cmd("b", "Increment", k, num=5, initial=1, exp=e)],
    "decr-init": lambda k, e, d: [Cmd("b", "DecrementQ", k, num=5, initial=1, exp=e)],
}
TEXT_ONLY_BIG = ("set", "set-over", "add", "replace", "touch", "append-keeps", "big")
PROBES = {
    "get": lambda k: Cmd("t", b"get", keys=[k]), "gets": lambda k: Cmd("t", b"gets", keys=[k]),
    "bget": lambda k: Cmd("b", "Get", k, exp=None), "bgetkq": lambda k: Cmd("b", "GetKQ", k, exp=None),
    "gat": lambda k: Cmd("b", "GaT", k, exp=30), "gatkq": lambda k: Cmd("b", "GaTKQ", k, exp=0),
    "add": lambda k: Cmd("t", b"add", k, b"A", 9, 40), "badd": lambda k: Cmd("b", "Add", k, b"A", 9, 40),
    "replace": lambda k: Cmd("t", b"replace", k, b"R", 9, 40), "breplace": lambda k: Cmd("b", "ReplaceQ", k, b"R", 9, 40),
    "set": lambda k: Cmd("t", b"set", k, b"S", 9, 40), "bsetcas": lambda k: Cmd("b", "Set", k, b"S", 9, 40, cas=2**62),
    "append": lambda k: Cmd("t", b"append", k, b"X"), "bprepend": lambda k: Cmd("b", "Prepend", k, b"X"),
    "incr": lambda k: Cmd("t", b"incr", k, num=1), "decr": lambda k: Cmd("t", b"decr", k, num=1),
    "bincr": lambda k: Cmd("b", "Increment", k, num=1, initial=7, exp=20),
    "bdecrnone": lambda k: Cmd("b", "Decrement", k, num=1, initial=7, exp=0xffffffff),
    "touch": lambda k: Cmd("t", b"touch", k, exp=40), "btouch": lambda k: Cmd("b", "Touch", k, exp=40),
    "delete": lambda k: Cmd("t", b"delete", k), "bdelete": lambda k: Cmd("b", "Delete", k),
    "lock": lambda k: Cmd("t", b"lock", k), "block": lambda k: Cmd("b", "Lock", k),
    "lag": lambda k: Cmd("b", "LaGK", k, exp=None), "cas": lambda k: Cmd("t", b"cas", k, b"C", 9, 40, cas=2**62),
    "keys": lambda k: Cmd("t", b"keys", k), "bkeys": lambda k: Cmd("b", "Keys", k),
}
EXPS = [0, 1, 2, 7, T30 - 1, T30, T30 + 1, "now-1", "now", "now+1", "now+9", FAR, 0xffffffff]
TBIG = [1 << 32, (1 << 32) + T0, 1 << 40]


def matrix(p, arg):
    names, collect = arg
    r = p.rng
    full = p.thorough
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=MAXD, gc_interval=1 if collect else 10**9,
                   workers=2, log__threshold="warning") as s:
        d = Driver(p, s, Model(T0, MAXD, HEAP), nconn=2)
        items = []
        pn = sorted(PROBES)
        n = 0
        for name in names:
            text = name in ("set", "set-over", "set-nr", "big", "add", "replace", "append-keeps", "prepend-keeps", "incr-keeps",
                            "bincr-keeps", "get-keeps", "touch", "touch-nr")
            for e in EXPS + (TBIG if text else []):
                for ph in ("at once", "before", "at", "after", "later"):
                    ps = pn if full else r.sample(pn, 5) + ["get"]
                    for pr in ps:
                        for locked in ([False, True] if full or r.random() < .2 else [False]):
                            items.append((b"%s.%d" % (name.encode(), n), name, e, ph, pr, locked))
                            n += 1
        # store everything
        batch = []
        for k, name, e, ph, pr, locked in items:
            ee = T0 + int(e[3:] or 0) if isinstance(e, str) else e
            batch.append((k, STORES[name](k, ee, d)))
        for i in range(0, len(batch), 40):
            cmds = [c for _, cs in batch[i:i + 40] for c in cs]
            d.batch(0, cmds)
        for k, name, e, ph, pr, locked in items:
            if locked and d.m.live(k):
                d.batch(0, [Cmd("t", b"lock", k)])
        # when each is probed
        todo = {}
        for it in items:
            k, name, e, ph, pr, locked = it
            x = d.m.items.get(k)
            ex = x.exp if x is not None else 0
            t = {"at once": T0, "before": ex - 1, "at": ex, "after": ex + 1, "later": ex + 100}[ph]
            if ex == 0 or t < T0:
                t = {"at once": T0, "before": T0 + 5, "at": T0 + T30, "after": FAR - 1, "later": FAR + 5}[ph]
            todo.setdefault(min(t, FAR + 200), []).append(it)
        for t in sorted(todo):
            if t > d.m.now:
                d.advance(t - d.m.now)
                if collect and r.random() < .3:
                    # a pass moves the clock on, so only where nothing else is due shortly
                    nxt = [x for x in todo if x > t]
                    if not nxt or min(nxt) > t + 60:
                        s.intervals(3)
            its = todo[t]
            r.shuffle(its)
            for i in range(0, len(its), 25):
                cmds = []
                for k, name, e, ph, pr, locked in its[i:i + 25]:
                    if locked and r.random() < .5:
                        d.batch(0, [Cmd("t", b"unlock", k)])
                    c = PROBES[pr](k)
                    x = d.m.items.get(k)
                    if c.cas is not None and x is not None and x.ver.num is not None and r.random() < .7:
                        c.cas = x.ver
                    cmds += [c, Cmd("t", b"gets", keys=[k]) if c.proto == "t" or r.random() < .5 else Cmd("b", "GetK", k, exp=None)]
                    p.case((name, str(e), ph, pr, locked, collect), 0)
                d.batch(1, cmds)
        p.count("matrix_items", len(items))
        p.count("matrix_moments", len(todo))
        p.count("gc_passes", s.gc_count())
        d.close()


def walk(p, n):
    """Random walks in which flushes (now, later, at a time, repeated) and the clock play the main part."""
    r = p.rng
    iv = r.choice([1, 20, 10**9])
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=MAXD, gc_interval=iv,
                   workers=r.choice([1, 3])) as s:
        d = Driver(p, s, Model(T0, MAXD, HEAP), nconn=3)
        keys = [b"k%d" % i for i in range(5)]
        g = Gen(r, keys, MAXD, HEAP)
        done = 0
        flushed = {}
        while done < n:
            x = r.random()
            if x < .10:
                dt = r.choice([1, 1, 2, 3, 5, 10])
                if d.m.flush is not None and r.random() < .6:
                    # to the second before, or to that of, the flush
                    dt = max(1, d.m.flush - d.m.now - r.choice([0, 1]))
                if d.m.now + dt < 4 * 10**9:
                    pend = d.m.flush
                    d.advance(dt)
                    p.case(("clock", pend is None, pend is not None and d.m.flush is None), 0)
            elif x < .18:
                now = d.m.now
                e = r.choice([None, None, 0, 0, 1, 2, 5, 10, now - 1, now, now + 1, now + 4, T30, T30 + 1])
                c = r.choice([lambda: Cmd("t", b"flush_all", exp=e, noreply=r.random() < .3), lambda: Cmd("b", r.choice(["Flush", "FlushQ"]), exp=e)])()
                # stored around it in one packet
                a = [Cmd("t", b"set", r.choice(keys), b"before%d" % done)] if c.proto == "t" else [Cmd("b", "Set", r.choice(keys), b"before%d" % done)]
                b = [Cmd("t", b"set", r.choice(keys), b"after%d" % done)] if c.proto == "t" else [Cmd("b", "Set", r.choice(keys), b"after%d" % done)]
                held = sum(1 for i in d.m.items.values() if i.lock is not None)
                d.batch(r.randrange(3), (a if r.random() < .5 else []) + [c] + (b if r.random() < .6 else []))
                p.case(("flush", c.proto, c.quiet(), "none" if e is None else e - now if abs(e - now) < 10 else min(e, 11), d.m.flush is None, min(held, 2)), 0)
                if r.random() < .5:
                    d.batch(r.randrange(3), [Cmd("t", b"get", keys=keys)])
            elif x < .20:
                if iv < 10**9 and d.m.now < 4 * 10**9:
                    d.gc()
            elif x < .24:
                s.intervals(3)
                d.batch(r.randrange(3), [Cmd("t", b"get", keys=keys), Cmd("t", b"keys")])
            else:
                k = r.choice([1, 2, 6])
                d.batch(r.randrange(3), [g.cmd(d) for _ in range(k)])
                done += k
        d.close()
        p.observe(s)


def storm(p, n):
    """Clients store and read their own keys while another flushes, with a collector slowed by injected delays."""
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, workers=r.choice([2, 4, 8]), gc_interval=1, buckets=20011) as s:
        for rnd in range(n):
            conc.perturb(s, r)
            flushes, ops, stop, errs = [], [], threading.Event(), []
            clk = time.monotonic_ns

            def client(i, seed, delayed):
                import random
                q = random.Random(seed)
                try:
                    c = s.text()
                    log = []
                    for j in range(60):
                        k = b"w%d.%d" % (i, q.randrange(4))
                        v = b"%d" % (i * 10**9 + rnd * 10**6 + j * 1000)
                        x = q.random()
                        a = clk()
                        if x < .4:
                            rr = c.set(k, v)
                            log.append((k, "set", a, clk(), v, rr))
                        elif x < .55:
                            rr = c.cmd(b"incr %s 1" % k)
                            log.append((k, "incr", a, clk(), None, rr))
                        elif x < .65:
                            rr = c.store(b"append", k, b"")
                            log.append((k, "keep", a, clk(), None, rr))
                        elif x < .72:
                            rr = c.cmd(b"touch %s 1000" % k)
                            log.append((k, "keep", a, clk(), None, rr))
                        else:
                            rr = c.get(k)
                            log.append((k, "get", a, clk(), None, rr if rr is None or isinstance(rr, bytes) else rr[2]))
                    ops.append(log)
                    c.close()
                except Exception as e:
                    errs.append(e)

            def flusher(seed):
                import random
                q = random.Random(seed)
                try:
                    c = s.text()
                    for _ in range(4):
                        time.sleep(q.random() * .02)
                        a = clk()
                        if c.cmd(b"flush_all") != b"OK":
                            raise chk.Violation("flush_all is refused")
                        flushes.append((a, clk()))
                    c.close()
                except Exception as e:
                    errs.append(e)
            ths = [threading.Thread(target=client, args=(i, r.randrange(1 << 30), False)) for i in range(6)]
            ths.append(threading.Thread(target=flusher, args=(r.randrange(1 << 30),)))
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            if errs:
                raise errs[0]
            # final reads after the collections that the flushes started
            s.intervals(3)
            c = s.text()
            for log in ops:
                for k in sorted({x[0] for x in log}):
                    a = clk()
                    rr = c.get(k)
                    log.append((k, "get", a, clk(), None, rr if rr is None else rr[2]))
            c.close()
            over = 0
            for log in ops:
                # a key is used by one client only; sets of possible values are followed
                state = {}
                for k, op, a, b, v, rr in log:
                    # what the item may be: None, or (value, since when it was stored)
                    poss = state.get(k)
                    if poss is None:
                        c0 = None
                        poss = {None} if rnd == 0 else {"?"}
                    # flushes that completed after the last operation and before or during this one
                    new = set()
                    for x in poss:
                        if x is None or x == "?":
                            new.add(x)
                            if x == "?" and any(fb < a for fa, fb in flushes):
                                new.discard("?")
                                new.add(None)
                            elif x == "?":
                                new.add(None)
                            continue
                        val, sa, sb = x
                        if any(fa > sb and fb < a for fa, fb in flushes):
                            new.add(None)        # certainly flushed
                        elif any(fb > sa and fa < b for fa, fb in flushes):
                            new.add(None)        # possibly
                            new.add(x)
                            over += 1
                        else:
                            new.add(x)
                    txt = "%s of %r -> %r; possible before: %r; flushes %r; operation %d..%d" % (op, k, rr, poss, flushes, a, b)
                    if op == "set":
                        if rr != b"STORED":
                            p.fail("set: %r" % rr, txt)
                        after = {(v, a, b)}
                    elif op == "get":
                        if rr is None:
                            ok = {x for x in new if x is None}
                        else:
                            ok = {x for x in new if isinstance(x, tuple) and x[0] == rr} or ({(rr, 0, 0)} if "?" in new else set())
                        if not ok:
                            p.fail("a read returned an item that was flushed, or missed one stored after the flush", txt)
                        after = ok
                    else:
                        if rr in (b"NOT_FOUND", b"NOT_STORED"):
                            ok = {x for x in new if x is None}
                            after = ok
                        else:
                            live = {x for x in new if isinstance(x, tuple)}
                            if op == "incr":
                                ok = {x for x in live if b"%d" % (int(x[0]) + 1) == rr}
                                after = {(rr,) + x[1:] for x in ok} or ({(rr, 0, 0)} if "?" in new else set())
                                ok = ok or after
                            else:
                                ok = after = live or ({"?"} if "?" in new else set())
                        if not ok:
                            p.fail("an operation worked on a flushed item, or missed one stored after the flush", txt)
                    state[k] = after
                    p.case(("storm", op, rr is None or rr in (b"NOT_FOUND", b"NOT_STORED"), len(new)))
            p.count("flushes", len(flushes))
            p.count("ops_near_a_flush", over)
        conc.noise_off(s)
        p.observe(s)


def window(p, n):
    """Items stored right after a flush stay through the collection that it starts, and old ones never come back."""
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, workers=r.choice([1, 4]), gc_interval=r.choice([1, 10**9]), buckets=r.choice([1009, 50021])) as s:
        for rnd in range(n):
            s.shm.set("SEED", r.randrange(1, 1 << 30))
            s.shm.set("P_DELAY", r.choice([0, 1000, 3000]))
            s.shm.set("DELAY_US", r.choice([50, 200]))
            c, b = s.text(), s.bin()
            old = [b"o%d" % i for i in range(r.choice([10, 400]))]
            for k in old:
                c.send(b"set %s 0 0 3 noreply\r\nold\r\n" % k)
            c.cmd(b"version")
            how = r.choice(["now", "zero", "binary", "binary0", "later", "absolute"])
            pre = [b"p%d" % i for i in range(10)]
            if how in ("later", "absolute"):
                t = s.now() + r.choice([1, 3])
                x = c.cmd(b"flush_all %d" % (t - s.now() if how == "later" else t))
                for k in pre:
                    c.set(k, b"pre")
                for k in old + pre:
                    if c.get(k) is None:
                        p.fail("an item is gone before the time of the flush", how)
                s.set_time(t)
                s.intervals(2)
            elif how.startswith("binary"):
                q = b.cmd("Flush", extras=b"\0\0\0\0" if how == "binary0" else b"")
                x = b"OK" if q.status == 0 else q
            else:
                x = c.cmd(b"flush_all" if how == "now" else b"flush_all 0")
            if x != b"OK":
                p.fail("flush_all: %r" % x)
            new = [b"n%d" % i for i in range(60)] + old[:5]
            r.shuffle(new)
            for i, k in enumerate(new):
                if i % 7 == 0:
                    c.store(b"add", k, b"new")
                elif i % 7 == 1:
                    b.set(k, b"new")
                else:
                    c.set(k, b"new")
                x = c.get(k)
                if x is None or x[2] != b"new":
                    p.fail("an item stored after a flush (%s) is not readable: %r" % (how, x))
                for o in r.sample(old, 2):
                    x = c.get(o)
                    if x is not None and (o not in new[:i + 1]):
                        p.fail("an item stored before a flush (%s) is returned after it: %r" % (how, x))
            s.intervals(4)
            g = s.gc_count()
            end = time.time() + 1
            while s.gc_count() == g and time.time() < end and r.random() < .9:
                time.sleep(0.005)
            for k in new:
                x = c.get(k)
                if x is None or x[2] != b"new":
                    p.fail("an item stored after a flush (%s) is gone: %r" % (how, x))
            ks = set(c.keys())
            if ks != set(new):
                p.fail("keys after a flush (%s): missing %r, extra %r" % (how, sorted(set(new) - ks)[:5], sorted(ks - set(new))[:5]))
            for k in new:
                c.cmd(b"delete " + k)
            p.case(("window", how, len(old)), len(new) + len(old))
            c.close()
            b.close()
        p.count("windows", n)
        conc.noise_off(s)
        p.observe(s)


def run(ck):
    B.build("plain")
    names = sorted(STORES)
    per = 7 if not ck.thorough else 2
    ck.jobs(matrix, [(names[i:i + per], c) for i in range(0, len(names), per) for c in (False, True)])
    ck.jobs(walk, [ck.scale(3000, 30000)] * ck.scale(8, 48))
    ck.jobs(storm, [ck.scale(25, 150)] * ck.scale(4, 16))
    ck.jobs(window, [ck.scale(6, 100)] * ck.scale(8, 16))


if __name__ == "__main__":
    chk.main(PROP, "matrix of ways of setting an expiration time x times x probing command x moment (one second before, at, after) under a "
             "virtual clock, flush walks against the reference model, concurrent flush histories, and flush windows with a slowed "
             "collector; distinct by cell of the matrix and by kind of flush", run,
             assumptions=["a flush for a future second takes effect in the first housekeeping interval of that second"])

"""C19: key dumps are complete and exact."""
import os
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import yr
from yr import ConnClosed, Inconclusive, Timeout

PROP = "C19"
WAIT = 120


def bin_keys(c, prefix):
    c.req("Keys", prefix)
    out = []
    while True:
        r = c.recv()
        if r.status != 0:
            return r
        if not r.key:
            return out
        if r.val or r.extras:
            raise chk.Violation("a key of a dump comes with a value", repr(r))
        out.append(r.key)


def names(r, n, binary):
    """Names with many common prefixes; one is a prefix of another now and then."""
    al = bytes(range(33, 127)) if not binary else bytes(range(1 if binary == "text" else 0, 256))
    if binary == "text":
        al = bytes(c for c in al if c not in b"\r\n")       # may be listed by a text client, but not be stored by it
    out = set()
    stems = [b""] + [bytes(r.choice(al) for _ in range(r.choice([1, 2, 3, 7, 8, 9, 100, 240]))) for _ in range(6)]
    while len(out) < n:
        x = r.random()
        if x < .15 and out:
            k = r.choice(tuple(out)) if len(out) < 50 else k
            k = k[:r.randint(1, len(k))] if r.random() < .5 else k + bytes([r.choice(al)])
        else:
            k = r.choice(stems) + bytes(r.choice(al) for _ in range(r.choice([1, 1, 2, 3, 5, 8, 16])))
        if r.random() < .02:
            k = (k * 250)[:r.choice([249, 250])]
        if k.lower().startswith(b"noreply") or not 0 < len(k) <= 250:
            continue
        out.add(k)
    return sorted(out)


def exact(p, i):
    """With nothing else going on, a dump is the set of the matching items."""
    r = p.rng
    nb = r.choice([1, 2, 7, 101, 1009, 10007])
    mode = [None, None, "text", "all"][i % 4]
    n = r.choice([0, 1, 2, 30, 300, 1500]) if nb > 7 else r.choice([0, 1, 30, 200])
    with yr.Server(B.build("plain"), tag=p.prop, workers=r.choice([1, 2, 4]), buckets=nb, counter__buckets=101, heap_data_limit=4096, gc_interval=r.choice([5, 10 ** 6]),
                   sndbuf=r.choice([0, 50000])) as s:
        if r.random() < .4:
            s.shm.set("P_SHORT", 10000)
            s.shm.set("P_EINTR", 10000)
        t, b, o = s.text(timeout=WAIT), s.bin(timeout=WAIT), s.bin(timeout=WAIT)
        m = {}              # key: expiration time or 0
        locked = set()
        ks = names(r, n, mode)
        for rnd in range(3):
            now = s.now()
            for k in r.sample(ks, len(ks) if rnd == 0 else len(ks) // 3):
                x = r.random()
                if k in locked:
                    continue
                if x < .55 or rnd == 0 and x < .9:
                    e = r.choice([0, 0, 0, now + 2, now + 3, now + 5, now + 50, now + 10 ** 6])
                    v = b"v" * r.choice([1, 10, 10, 10, 5000])
                    if mode is None and r.random() < .5:
                        t.set(k, v, exp=e)
                    else:
                        b.set(k, v, exp=e)
                    m[k] = e
                elif x < .75:
                    b.cmd("Delete", k)
                    m.pop(k, None)
                elif x < .85 and k in m and not (m[k] and m[k] <= now):
                    if o.cmd("Lock", k).status == 0:
                        locked.add(k)
                elif k in m and not (m[k] and m[k] <= now):
                    e = r.choice([0, now + 2, now + 10 ** 6])
                    b.cmd("Touch", k, yr.struct.pack(">I", e))
                    m[k] = e
            if rnd == 1:
                if r.random() < .3:
                    t.cmd(b"flush_all")
                    s.intervals(2)
                    m = {k: 1 for k in m if k in locked}         # these are gone as soon as they are unlocked
                if r.random() < .5:
                    o.cmd("UnlockAll")
                    m = {k: e for k, e in m.items() if not (e and e <= now) or k not in locked}
                    locked.clear()
            if r.random() < .8:
                s.advance(r.choice([1, 2, 3, 5, 60]))
                if r.random() < .5:
                    s.intervals(5)
            now = s.now()
            live = {k for k, e in m.items() if not (e and e <= now) or k in locked}
            m = {k: e for k, e in m.items() if k in live}
            pre = [b""] + [k[:r.randint(1, len(k))] for k in r.sample(ks, min(20, len(ks)))] + r.sample(ks, min(10, len(ks))) + \
                  [k + b"x" for k in r.sample(ks, min(3, len(ks))) if len(k) < 250] + [b"zz-none", b"\x7e" * 250]
            for q in pre:
                want = sorted(k for k in live if k.startswith(q))
                ways = [("binary", lambda: bin_keys(b, q))]
                if mode in (None, "text") and (not q or all(32 < c < 127 for c in q)):
                    ways.append(("text", lambda: t.keys(q)))
                for name, f in ways:
                    got = f()
                    if not isinstance(got, list):
                        p.fail("a %s dump is refused" % name, (q, got))
                    if sorted(got) != want:
                        w, g = set(want), set(got)
                        p.fail("a %s dump with prefix %r has %d keys instead of %d" % (name, q[:60], len(got), len(want)),
                               "missing %r\nextra %r\ntwice %r" % (sorted(w - g)[:5], sorted(g - w)[:5], sorted(k for k in g if got.count(k) > 1)[:5]))
                    p.case((name, q, len(got), nb))
                    p.count("keys_listed", len(got))
            p.check(t.cmd(b"version").startswith(b"VERSION"), "the stream of a connection is out of step after dumps")
            p.check(b.cmd("Noop").status == 0, "the stream of a connection is out of step after dumps")
        p.observe(s)


class Life:
    """Lives of volatile items: [surely not before, surely from, surely until, surely not after]."""
    __slots__ = ("a", "b", "c", "d")
    INF = float("inf")

    def __init__(self, a):
        self.a, self.b, self.c, self.d = a, Life.INF, Life.INF, Life.INF


def concurrent(p, i):
    """Dumps while items come and go, expire and are collected."""
    r = p.rng
    nb = r.choice([1, 17, 101, 499, 1009])
    ns = 200 if nb == 1 else r.choice([500, 2000, 4000])
    slow = r.random() < .5
    with yr.Server(B.build("plain"), tag=p.prop, workers=r.choice([4, 6]), buckets=nb, counter__buckets=101, heap_data_limit=4096, gc_interval=r.choice([1, 3]),
                   slave_timeout=10 ** 8, sndbuf=20000 if slow else 0) as s:
        pre = [b"a-", b"a-b", b"c"]
        stable = [r.choice(pre) + b"s%05d" % n for n in range(ns)]
        c0 = s.bin(timeout=WAIT)
        for k in stable:
            c0.req("SetQ", k, yr.struct.pack(">II", 0, 0), b"1" if r.random() < .98 else b"L" * 5000)
        # leftovers that are to be collected meanwhile
        for n in range(ns):
            c0.req("SetQ", r.choice(pre) + b"old%05d" % n, yr.struct.pack(">II", 0, s.now() + 1), b"x")
        c0.noop()
        s.advance(2)
        lives, errors, stop = {}, [], threading.Event()
        mono = time.monotonic
        if r.random() < .5:
            s.shm.set("P_DELAY", 3000 if nb > 100 else 20000)
            s.shm.set("DELAY_US", 500)
        seeds = [r.random() for _ in range(8)]

        def guard(f):
            def g(*a):
                try:
                    f(*a)
                except Exception as e:
                    if not errors:
                        errors.append(e)
                    stop.set()
            return g

        @guard
        def churn(w):
            """Create and delete items of one's own, each name over and over or once."""
            q = yr.random.Random(seeds[w])
            c = s.bin(timeout=WAIT) if w % 2 else s.text(timeout=WAIT)
            live, n = {}, 0
            while not stop.is_set():
                x = q.random()
                if x < .5 or not live:
                    n += 1
                    k = q.choice(pre) + (b"v%d-%05d" % (w, n) if q.random() < .6 else b"w%d-%d" % (w, q.randrange(10)))
                    if k in live:
                        continue
                    l = Life(mono())
                    lives.setdefault(k, []).append(l)
                    lock.acquire()
                    e = s.now() + q.choice([2, 4, 8]) if k[:-6].endswith(b"v%d" % w) and q.random() < .3 else 0
                    if e:
                        expiring.append((e, l))
                    lock.release()
                    v = c.set(k, b"v" * q.choice([1, 20, 5000]), exp=e)
                    if not (v == b"STORED" or getattr(v, "status", 1) == 0):
                        raise chk.Violation("an item is not stored", repr(v))
                    l.b = mono()
                    if not e:
                        live[k] = l
                else:
                    k = q.choice(list(live))
                    l = live.pop(k)
                    l.c = mono()
                    v = c.cmd(b"delete " + k) if w % 2 == 0 else c.cmd("Delete", k)
                    if not (v == b"DELETED" or getattr(v, "status", 1) == 0):
                        raise chk.Violation("an item is lost", (k, v))
                    l.d = mono()
                if len(live) > 100:
                    for k in q.sample(list(live), 60):
                        l = live.pop(k)
                        l.c = mono()
                        c.cmd(b"delete " + k) if w % 2 == 0 else c.cmd("Delete", k)
                        l.d = mono()

        expiring, lock = [], threading.Lock()

        @guard
        def modify():
            """Change the values of stable items, lock them, touch them: they exist all the time."""
            q = yr.random.Random(seeds[6])
            c = s.bin(timeout=WAIT)
            while not stop.is_set():
                k = q.choice(stable)
                x = q.random()
                if x < .4:
                    c.set(k, b"2" * q.choice([1, 3, 5000]))
                elif x < .6:
                    c.cmd("Append", k, b"", b"33")
                elif x < .8:
                    c.cmd("Touch", k, yr.struct.pack(">I", q.choice([0, s.now() + 10 ** 6])))
                else:
                    c.cmd("Lock", k)
                    c.cmd("Unlock", k)

        @guard
        def clock():
            while not stop.is_set():
                # what ends now: the server may take the time over at any moment between
                with lock:
                    now = s.now() + 1
                    ls = [x for x in expiring if x[0] <= now]
                    for x in ls:
                        x[1].c = mono()
                        expiring.remove(x)
                    s.shm.set("TIME", now)
                s.set_time(now)
                for x in ls:
                    x[1].d = mono()
                stop.wait(.03)

        dumps = []

        @guard
        def dump(w):
            q = yr.random.Random(seeds[w])
            mk = lambda: (s.text if w % 2 else s.bin)(timeout=WAIT, rcvbuf=4096 if slow and w < 4 else 0)
            c = mk()
            for _ in range(p_n):
                if stop.is_set():
                    break
                x = q.choice(pre + [b"", b"a", b"a-s", b"a-bv"])
                t0 = mono()
                if slow and w < 4:
                    # the dump proceeds only as its reader does
                    c.send(b"keys %s\r\n" % x if x and w % 2 else b"keys\r\n" if w % 2 else yr.bin_req("Keys", x))
                    time.sleep(q.random() * .1)
                    if w % 2:
                        got = []
                        while True:
                            l = c.line()[:-2]
                            if l == b"END":
                                break
                            got.append(l[6:])
                            if len(got) % 512 == 0:
                                time.sleep(.005)
                    else:
                        got = []
                        while True:
                            y = c.recv()
                            if not y.key:
                                break
                            got.append(y.key)
                            if len(got) % 512 == 0:
                                time.sleep(.005)
                else:
                    got = c.keys(x) if w % 2 else bin_keys(c, x)
                dumps.append((w, x, t0, mono(), got))

        p_n = (60 if not slow else 25) * (4 if p.thorough else 1) // (2 if ns > 2000 else 1)
        bg = [threading.Thread(target=churn, args=(w,)) for w in range(3)] + [threading.Thread(target=modify), threading.Thread(target=clock)]
        fg = [threading.Thread(target=dump, args=(w,)) for w in (2, 3, 4, 5)]
        for x in bg + fg:
            x.start()
        for x in fg:
            x.join()
        stop.set()
        for x in bg:
            x.join()
        if errors:
            if not s.alive():
                raise yr.ServerDied(s.diag())
            raise errors[0]
        known = set(stable)
        partial = 0
        for w, x, t0, t1, got in dumps:
            name = "text" if w % 2 else "binary"
            if not isinstance(got, list):
                p.fail("a %s dump is refused" % name, repr(got))
            cnt = {}
            for k in got:
                cnt[k] = cnt.get(k, 0) + 1
            for k in stable:
                if k.startswith(x) and cnt.get(k, 0) != 1:
                    p.fail("an item that exists all the time is listed %d times in a %s dump" % (cnt.get(k, 0), name), (k, x, len(got)))
            nv = 0
            for k, n in cnt.items():
                if not k.startswith(x):
                    p.fail("a %s dump with prefix %r lists %r" % (name, x, k))
                if k in known:
                    continue
                ls = [l for l in lives.get(k, ()) if l.a <= t1 and l.d >= t0]
                if not ls:
                    p.fail("a %s dump lists %r, which exists at no moment of it" % (name, k),
                           "dump [%f, %f], lives of the item %r" % (t0, t1, [(l.a, l.b, l.c, l.d) for l in lives.get(k, ())]))
                if n > 1 and len(ls) == 1:
                    p.fail("a %s dump lists an item %d times" % (name, n), k)
                nv += 1
                partial += len(ls) and (ls[0].b > t0 or ls[0].c < t1)
            for k, ls in lives.items():
                if not k.startswith(x):
                    continue
                for l in ls:
                    if l.b <= t0 and l.c >= t1:
                        p.count("must_list")
                        if cnt.get(k, 0) != 1:
                            p.fail("an item that exists during a whole %s dump is listed %d times" % (name, cnt.get(k, 0)), (k, x, t0, t1, l.a, l.b, l.c, l.d))
            p.case((name, x, len(got), nv, nb, slow))
            p.count("keys_listed", len(got))
            p.count("volatile_listed", nv)
        p.count("dumps", len(dumps))
        p.count("listed_while_coming_or_going", partial)
        p.count("volatile_lives", sum(len(v) for v in lives.values()))
        p.count("collections", s.gc_count())
        p.observe(s)
        s.shm.set("P_DELAY", 0)


def job(p, a):
    {"exact": exact, "concurrent": concurrent}[a[0]](p, a[1])


def main(ck):
    B.build("plain")
    jobs = [("concurrent", i) for i in range(ck.scale(16, 120))]
    jobs += [("exact", i) for i in range(ck.scale(24, 300))]
    ck.jobs(job, jobs)


if __name__ == "__main__":
    chk.main(PROP, "one evaluation = one key dump compared with the items known to exist (at rest: equality; under change: each item existing throughout exactly once, none that "
             "existed at no moment); distinct = protocol, prefix, size of the dump, buckets", main,
             assumptions=["moments are taken by the clients before requests and after responses"])

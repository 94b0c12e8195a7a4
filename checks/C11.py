"""C11: collection removes only what it must; memory is bounded; least recently used items go first."""
import os
import random
import struct
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import yr
from gen import Driver, Gen
from model import Cmd, Model
from yr import OP, T0, Inconclusive

PROP = "C11"
HEAP = 4096
FAR = T0 + 3 * 10**8


def noloss(p, n):
    """Clients work on items that do not expire while collection passes follow each other and memory stays within the limit."""
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=40000, gc_interval=1, memory_limit="2048M",
                   buckets=r.choice([7, 1009, 10007]), workers=r.choice([2, 4]), log__threshold="warning") as s:
        stop = threading.Event()

        def clock():
            while not stop.wait(.004):
                s.shm.set("TIME", s.shm.get("TIME") + 2)
        errs, subs = [], []
        g0 = s.gc_count()

        def client(i, seed):
            q = random.Random(seed)
            sub = chk.Part(p.prop, seed, p.tier)
            subs.append(sub)
            try:
                m = Model(T0, 40000, HEAP)
                d = Driver(sub, s, m, nconn=2)
                keys = [b"%c%d" % (65 + i, j) for j in range(6)]
                g = Gen(q, keys, 40000, HEAP)
                # keys that are only looked at now and then
                rare = {b"%crare%d" % (65 + i, j): b"%d" % j * q.choice([1, 3000, 9000]) for j in range(30)}
                d.batch(0, [Cmd("t", b"set", k, v) for k, v in rare.items()])
                done = 0
                while done < n:
                    cmds = []
                    for _ in range(q.choice([1, 3, 10])):
                        c = g.cmd(d)
                        if c.op in (b"keys", OP["Keys"]) and not c.key.startswith(keys[0][:1]):
                            continue
                        # times in the past and far in the future only
                        if c.exp not in (None, 0, 0xffffffff):
                            c.exp = FAR if q.random() < .9 or c.op == b"flush_all" else T0 - 5
                        cmds.append(c)
                    if q.random() < .1:
                        k = q.choice(sorted(rare))
                        cmds.append(Cmd("t", b"get", keys=[k]))
                    if q.random() < .01:
                        d.reconnect(0, "reset")
                    d.batch(q.randrange(2), cmds)
                    done += len(cmds)
                d.batch(1, [Cmd("t", b"get", keys=sorted(rare))])
                d.batch(1, [Cmd("t", b"gets", keys=keys)])
                d.batch(1, [Cmd("t", b"keys", keys[0][:1])])
                d.close()
            except Exception as e:
                errs.append(e)
        th = threading.Thread(target=clock)
        th.start()
        s.shm.set("SEED", r.randrange(1, 1 << 30))
        s.shm.set("P_DELAY", r.choice([0, 300, 1500]))
        s.shm.set("DELAY_US", r.choice([50, 300]))
        ths = [threading.Thread(target=client, args=(i, r.randrange(1 << 30))) for i in range(5)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        stop.set()
        th.join()
        if errs:
            raise errs[0]
        conc.noise_off(s)
        st = s.stats()
        if int(st[b"evictions"]) != 0:
            p.fail("evictions although memory use stayed within the limit: %s" % st[b"evictions"])
        for sub in subs:
            p.merge(sub)
        p.count("passes", s.gc_count() - g0)
        p.case(("noloss", int(s.conf["buckets"])), 0)
        p.observe(s)


class It:
    __slots__ = ("val", "flags", "lo", "hi", "lock")

    def __init__(self, val, flags):
        self.val, self.flags = val, flags
        self.lo = self.hi = 0       # age in passes: bounds (locking may or may not count as a use)
        self.lock = None


def evict(p, n):
    """Stepped collection: the exact history of uses between passes decides what a pass may remove."""
    r = p.rng
    interval = r.choice([3600, 1800, 600, 10])
    limit = r.choice([60000, 200000])
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=40000, gc_interval=interval,
                   memory_limit=limit, buckets=r.choice([7, 499]), workers=2, log__threshold="error") as s:
        s.step_mode()
        items = {}
        conns = [s.text(timeout=60) for _ in range(3)]
        b = s.bin(timeout=60)
        conns[0].set(b"a", b"b")
        s.step_gc(force=interval + 2)
        C = int(s.stats()[b"bytes"]) - 2
        if not 0 < C < 1000:
            p.fail("overhead of an item: %d" % C)
        items[b"a"] = It(b"b", 0)
        items[b"a"].lo = items[b"a"].hi = 1
        serial = [0]
        log = []

        def mem():
            return sum(C + len(k) + (len(i.val) if len(i.val) <= HEAP else 0) for k, i in items.items())

        def use(i):
            i.lo = i.hi = 0

        def put(k, z, c=None):
            serial[0] += 1
            v = (b"%d." % serial[0] * (z // 2 + 1))[:z]
            if (c or conns[0]).set(k, v, serial[0]) != b"STORED":
                p.fail("set of an unlocked item failed")
            it = items.setdefault(k, It(v, 0))
            it.val, it.flags = v, serial[0]
            use(it)

        def some(f=lambda i: True):
            ks = [k for k, i in items.items() if f(i)]
            return r.choice(ks) if ks else None

        def ops(m):
            for _ in range(m):
                x = r.random()
                ci = r.randrange(3)
                c = conns[ci]
                k = some(lambda i: i.lock is None)
                if x < .35 or k is None:
                    put(b"k%d" % serial[0] if r.random() < .8 or k is None else k, r.choice([1, 10, 500, 1500, 4095, 4096, 4097, 9000]), c)
                    log.append("put")
                    continue
                it = items[k]
                y = r.randrange(9)
                log.append("use%d %s" % (y, k))
                if y == 0:
                    got = c.get(k)
                elif y == 1:
                    got = c.gets(k)
                elif y == 2:
                    if c.cmd(b"touch %s 0" % k) != b"TOUCHED":
                        p.fail("touch of a live item failed: %s" % k)
                    got = 0
                elif y == 3:
                    rs = b.cmd("GaT", k, struct.pack(">I", 0))
                    got = (k, 0, rs.val) if rs.status == 0 else None
                    if got and rs.val == it.val:
                        got = 0
                elif y == 4:
                    rs = b.cmd("Get", k)
                    got = 0 if rs.status == 0 and rs.val == it.val else None
                elif y == 5 and len(it.val) + 3 < 40000:
                    if c.store(b"append", k, b"+a") != b"STORED":
                        p.fail("append to a live item failed: %s" % k)
                    it.val += b"+a"
                    got = 0
                elif y == 6 and len(it.val) + 3 < 40000:
                    if c.store(b"prepend", k, b"p+") != b"STORED":
                        p.fail("prepend to a live item failed: %s" % k)
                    it.val = b"p+" + it.val
                    got = 0
                elif y == 7:
                    if c.cmd(b"lock " + k) != b"OK":
                        p.fail("lock of a live item failed: %s" % k)
                    it.lock = ci
                    it.lo = 0
                    continue
                else:
                    if c.cmd(b"delete " + k) != b"DELETED":
                        p.fail("delete of a live item failed: %s" % k)
                    del items[k]
                    continue
                if got is None or (got and got[2] != it.val):
                    p.fail("a live item is lost or wrong: %s" % k, "\n".join(log[-50:]))
                use(it)
                p.case()
            # some locks are released
            for k, i in items.items():
                if i.lock is not None and r.random() < .3:
                    if conns[i.lock].cmd(b"unlock " + k) != b"OK":
                        p.fail("the owner cannot unlock %s" % k)
                    i.lock = None
                    i.lo = 0

        def after_pass(np, over):
            """Compare what is left with what the passes may have removed."""
            for i in items.values():
                i.lo += np
                i.hi += np
            left = conns[0].keys()
            if len(left) != len(set(left)):
                p.fail("a key is listed twice", repr(left))
            left = set(left)
            if left - set(items):
                p.fail("keys from nowhere: %r" % sorted(left - set(items))[:5])
            gone = [k for k in items if k not in left]
            if gone and not over:
                p.fail("items disappeared although memory use was within the limit: %r" % gone[:5], "\n".join(log[-80:]))
            if gone:
                if np == 1:
                    for k in gone:
                        if items[k].lock is not None:
                            p.fail("a locked item was evicted: %s" % k)
                        if items[k].hi <= 1:
                            p.fail("an item used since the last pass was evicted: %s" % k, "\n".join(log[-80:]))
                    young = min((items[k].hi, k) for k in gone)
                    old = max(((i.lo, k) for k, i in items.items() if k in left and i.lock is None), default=(0, b""))
                    if young[0] < old[0]:
                        p.fail("%s, used %d passes ago, was evicted while %s, used %d passes ago, was kept" % (young[1], young[0], old[1], old[0]), "\n".join(log[-80:]))
                    p.case(("evict", min(young[0], 30), min(old[0], 30), min(len(gone), 20)), len(gone))
                for k in gone:
                    del items[k]
                p.count("evicted_items", len(gone))
            st = s.stats()
            if np == 1:
                if int(st[b"bytes"]) != mem():
                    p.fail("memory in use is reported as %s; the contents amount to %d" % (st[b"bytes"], mem()),
                           repr([(k, len(i.val)) for k, i in items.items()][:50]))
                if int(st[b"curr_items"]) != len(items):
                    p.fail("%s items reported, %d exist" % (st[b"curr_items"], len(items)))
            return int(st[b"bytes"])

        used = mem()
        for rnd in range(n):
            log.append("-- round %d: %d items, %d bytes" % (rnd, len(items), used))
            if r.random() < .3:
                # ageing
                for _ in range(r.choice([1, 2, 5, 12])):
                    if used > limit:
                        break
                    used = after_pass(s.step_gc(force=interval + 2), False)
            ops(r.choice([2, 10, 40]))
            if r.random() < .4:
                while mem() <= limit * r.choice([1, 1, 1.3]):
                    put(b"f%d" % serial[0], r.choice([500, 2000, 4096]))
            np = s.step_gc(force=interval + 2)
            used = after_pass(np, False)
            stale = 0
            while used > limit:
                before, nb = used, len(items)
                if r.random() < .3:
                    ops(3)
                np = s.step_gc()
                used = after_pass(np, True)
                p.count("eviction_passes", np)
                free = [i for i in items.values() if i.lock is None]
                stale = stale + 1 if len(items) >= nb else 0
                if stale > 12 and free:
                    p.fail("memory use stays above the limit: %d > %d, nothing was evicted in %d passes, %d of %d items are unlocked" % (
                        used, limit, stale, len(free), len(items)), "\n".join(log[-80:]))
                if not free and used > limit:
                    for k, i in items.items():
                        conns[i.lock].cmd(b"unlock " + k)
                        i.lock, i.lo = None, 0
            p.count("rounds")
        for k, i in items.items():
            g = conns[0].get(k)
            if g is None or g[2] != i.val or g[1] != i.flags:
                p.fail("item %s is lost or wrong at the end" % k)
        p.observe(s)


def pressure(p, n):
    """Clients store far more than the limit while eviction runs: what is read is what was stored, locked items stay,
    and when the clients stop memory use returns below the limit."""
    r = p.rng
    limit = 400000
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=100000, gc_interval=10, memory_limit=limit,
                   buckets=r.choice([101, 5003]), workers=4, log__threshold="error") as s:
        s.shm.set("SEED", r.randrange(1, 1 << 30))
        s.shm.set("P_DELAY", r.choice([0, 500, 2000]))
        s.shm.set("DELAY_US", 200)
        errs, cnt = [], [0, 0]
        stop = threading.Event()

        def clock():
            while not stop.wait(.01):
                s.shm.set("TIME", s.shm.get("TIME") + 12)

        def client(i, seed):
            q = random.Random(seed)
            try:
                c = s.text(timeout=60)
                last = {}
                locked = [b"L%d-%d" % (i, j) for j in range(5)]
                for k in locked:
                    while True:
                        c.set(k, b"locked" + k)
                        if c.cmd(b"lock " + k) == b"OK":
                            break
                for j in range(n):
                    k = b"%d-%d" % (i, q.randrange(300))
                    x = q.random()
                    if x < .5:
                        v = (b"%d:%d|" % (i, j)) * q.choice([1, 100, 600, 2000])
                        if c.set(k, v) != b"STORED":
                            raise chk.Violation("set failed under memory pressure")
                        last[k] = v
                    elif x < .9:
                        g = c.get(k)
                        if g is None:
                            if k in last:
                                cnt[1] += 1
                            last.pop(k, None)
                        elif g[2] != last.get(k):
                            raise chk.Violation("%s: a value that is not the last one stored" % k, "%r, stored %r" % (g[2][:100], last.get(k, b"(nothing)")[:100]))
                    elif x < .95:
                        a = c.store(b"add", k, b"added")
                        if a == b"STORED":
                            last[k] = b"added"
                        elif k not in last:
                            raise chk.Violation("add refused for an item that does not exist")
                    else:
                        g = c.get(q.choice(locked))
                        if g is None or g[2] != b"locked" + g[0]:
                            raise chk.Violation("a locked item was evicted")
                    cnt[0] += 1
                for k in locked:
                    g = c.get(k)
                    if g is None:
                        raise chk.Violation("a locked item was evicted")
                    if c.cmd(b"unlock " + k) != b"OK":
                        raise chk.Violation("a locked item cannot be unlocked")
                c.close()
            except Exception as e:
                errs.append(e)
        th = threading.Thread(target=clock)
        th.start()
        ths = [threading.Thread(target=client, args=(i, r.randrange(1 << 30))) for i in range(5)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        conc.noise_off(s)
        end = time.time() + 60
        ok = 0
        while ok < 2:
            g = s.gc_count()
            while s.gc_count() <= g + 1 and time.time() < end:
                time.sleep(.005)
            ok = ok + 1 if int(s.stats()[b"bytes"]) <= limit else 0
            if time.time() > end:
                p.fail("memory use does not return below the limit: %s" % s.stats()[b"bytes"])
        stop.set()
        th.join()
        if errs:
            raise errs[0]
        p.case(("pressure", int(s.conf["buckets"])), cnt[0])
        p.count("evicted_seen", cnt[1])
        p.observe(s)


def rss(s):
    with open("/proc/%d/statm" % s.proc.pid) as fp:
        return int(fp.read().split()[1]) * 4096


def churn(p, n):
    """The process itself does not grow: the same kinds of life cycle again and again."""
    r = p.rng
    kinds = ["overwrite", "append", "delete", "expire", "evict", "flush", "connections", "file", "prepend", "locks", "errors", "counters"]
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=20000, max_data_size=200000, gc_interval=10, memory_limit=3000000,
                   workers=2, counter__stat_interval=10, log__threshold="error", env={"MALLOC_ARENA_MAX": "2"}) as s:
        c = s.text(timeout=60)

        def cycle(kind, j):
            v = b"v" * 20000
            if kind == "overwrite":
                c.send(b"".join(b"set o%d 0 0 %d noreply\r\n%s\r\n" % (i % 20, 50 + (i * 997) % 15000, v[:50 + (i * 997) % 15000]) for i in range(200)))
            elif kind in ("append", "prepend"):
                c.send(b"set a 0 0 0 noreply\r\n\r\n" + b"".join(b"%s a 0 0 200 noreply\r\n%s\r\n" % (kind.encode(), v[:200]) for i in range(120)))
            elif kind == "delete":
                c.send(b"".join(b"set d%d 0 0 15000 noreply\r\n%s\r\ndelete d%d noreply\r\n" % (i, v[:15000], i) for i in range(100)))
            elif kind == "expire":
                c.send(b"".join(b"set e%d-%d 0 1 5000 noreply\r\n%s\r\n" % (j, i, v[:5000]) for i in range(200)))
            elif kind == "evict":
                c.send(b"".join(b"set v%d-%d 0 0 5000 noreply\r\n%s\r\n" % (j, i, v[:5000]) for i in range(400)))
            elif kind == "flush":
                c.send(b"".join(b"set f%d 0 0 5000 noreply\r\n%s\r\n" % (i, v[:5000]) for i in range(200)) + b"flush_all noreply\r\n")
            elif kind == "connections":
                for i in range(60):
                    x = s.text()
                    x.send(b"get a\r\nset x 0 0 5\r\nab")
                    x.line()
                    x.reset()
            elif kind == "file":
                c.send(b"".join(b"set F%d 0 0 150000 noreply\r\n%s\r\nget F%d\r\n" % (i % 4, (v * 8)[:150000], i % 4) for i in range(10)))
                for i in range(10):
                    c.read_values()
            elif kind == "locks":
                c.send(b"set l 0 0 1 noreply\r\nx\r\n" + b"lock l\r\nunlock l\r\n" * 200)
                for i in range(400):
                    c.line()
            elif kind == "errors":
                c.send(b"bogus\r\n" * 500)
                for i in range(500):
                    c.line()
            elif kind == "counters":
                x = s.counter()
                for i in range(100):
                    x.acquire(b"c%d-%d" % (j, i), 1, 5)
                x.reset()
            if c.cmd(b"version")[:7] != b"VERSION":
                p.fail("version")
            s.force_gc()
        base = {}
        rounds = 24 * n
        for kind in r.sample(kinds, len(kinds)):
            for j in range(12):
                cycle(kind, j)
            a = rss(s)
            for j in range(12, 12 + rounds):
                cycle(kind, j)
            b = rss(s)
            if b - a > 8 << 20:
                # caches of the allocator fill up at first; a leak goes on
                for j in range(12 + rounds, 12 + 3 * rounds):
                    cycle(kind, j)
                d = rss(s)
                if d - b > 8 << 20:
                    p.fail("the process grows without bound during '%s': %d, %d, %d bytes" % (kind, a, b, d))
            p.case(("churn", kind), rounds)
        p.observe(s)


def run(ck):
    B.build("plain")
    ck.jobs(evict, [ck.scale(60, 500)] * ck.scale(8, 64))
    ck.jobs(noloss, [ck.scale(1500, 15000)] * ck.scale(6, 24))
    ck.jobs(pressure, [ck.scale(2500, 30000)] * ck.scale(6, 24))
    ck.jobs(churn, [ck.scale(1, 8)] * ck.scale(2, 8))


if __name__ == "__main__":
    chk.main(PROP, "items that do not expire under permanent collection, judged by the model; stepped collection passes with the exact "
             "history of uses, judged by age order, limit and accounting; stores beyond the limit during eviction; growth of the process "
             "over repeated life cycles; distinct by (youngest evicted age, oldest kept age, number evicted)", run)

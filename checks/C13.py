"""C13: with secure_erase, memory that held item data is cleared before it is released."""
import os
import struct
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import repl
import yr
from yr import Inconclusive

PROP = "C13"
HEAP = 65536


def server(p, digits, erase=True, **kw):
    conf = dict(heap_data_limit=HEAP, max_data_size=4 * HEAP, secure_erase="true" if erase else "false", sndbuf=1 << 20,
                gc_interval=2, log__threshold="warning")
    conf.update(kw)
    s = yr.Server(B.build("scan"), tag=PROP, **conf)
    s.shm.set_mark(b"77777777" if digits else b"\xe7\xe7\xe7\xe7")
    return s


class Ops:
    """Operations on items all of whose data consists of the marker; looks for it in what the server releases."""

    def __init__(self, p, s, digits, limit=HEAP, files=False, erase=True, watch=()):
        self.p, self.s, self.r, self.digits, self.limit, self.files, self.erase = p, s, p.rng, digits, limit, files, erase
        self.t, self.b, self.b2 = s.text(timeout=60), s.bin(timeout=60), s.bin(timeout=60)
        self.len = {}
        self.locked = set()
        self.hist = []
        self.watch = [s] + list(watch)
        self.base = [x.shm.get("N_FREE_DIRTY") for x in self.watch]
        self.dirty = {}

    def fill(self, n):
        return (b"7" if self.digits else b"\xe7") * n

    def size(self):
        if self.digits:
            return self.r.randrange(8, 20)     # fewer sevens may occur in statistics
        m = self.limit
        return min(m, self.r.choice([4, 5, 15, 16, 17, 23, 24, 25, 32, 100, self.r.randrange(4, 200), self.r.randrange(4, 3000),
                                     self.r.randrange(4, m + 1), m - 1, m]))

    def seen(self, what):
        for i, x in enumerate(self.watch):
            d = x.shm.get("N_FREE_DIRTY")
            if d == self.base[i]:
                continue
            if self.erase:
                self.p.fail("item data was left in released memory%s (block of %d bytes) after: %s" % (
                    " of the slave" if i else "", x.shm.get("DIRTY_SIZE"), what), "\n".join(self.hist[-12:]))
            self.dirty[what.split(" ")[0]] = 1
            self.base[i] = d

    def did(self, what, *sig):
        self.hist.append(what)
        self.p.case((what.split(" ")[0], self.digits) + sig)
        self.seen(what)

    def cls(self, n):
        return 0 if n is None else 1 if n < 24 else 2 if n < 1000 else 3 if n <= self.limit else 4

    def put(self, k, n=None, op="set"):
        n = n or self.size()
        if self.files and self.r.random() < .1:
            n = self.limit + self.r.randrange(1, 1000)
        v = self.fill(n)
        bin = self.r.random() < .5
        if bin:
            st = self.b.set(k, v, 0, 0, op=op.capitalize()).status == 0
        else:
            st = self.t.store(op.encode(), k, v) == b"STORED"
        if k not in self.locked and st != ((k in self.len) if op == "replace" else (k not in self.len) if op == "add" else True):
            self.p.fail("%s of %d bytes failed" % (op, n), "\n".join(self.hist[-12:]))
        old = self.len.get(k)
        if st:
            self.len[k] = n
        self.did("%s %r %s->%d %s" % (op, k, old, n, "bin" if bin else "text"), self.cls(old), self.cls(n), bin, k in self.locked)

    def extend(self, k, front):
        old = self.len[k]
        n = self.size()
        if self.digits:
            n = min(n, 19 - old)
        elif not (self.files and self.r.random() < .3):
            n = min(n, self.limit - old)
        if n <= 0 or old + n > 4 * HEAP:
            return
        v = self.fill(n)
        bin = self.r.random() < .5
        if bin:
            st = self.b.cmd("Prepend" if front else "Append", k, b"", v).status == 0
        else:
            st = self.t.store(b"prepend" if front else b"append", k, v) == b"STORED"
        if st:
            self.len[k] = old + n
        elif k not in self.locked:
            self.p.fail("append failed", "\n".join(self.hist[-12:]))
        self.did("%s %r %d+%d" % ("prepend" if front else "append", k, old, n), self.cls(old), self.cls(old + n), bin, k in self.locked)

    def incr(self, k):
        # the new value must not be predicted here: only what is left behind counts
        d = self.r.choice([b"0", b"1", b"111", b"1111111111111", b"7776111"])
        how = self.r.choice(["incr", "decr"])
        if self.r.random() < .5:
            x = self.t.cmd(b"%s %s %s" % (how.encode(), k, d))
            ok = x.isdigit()
            n = len(x)
        else:
            x = self.b.cmd("Increment" if how == "incr" else "Decrement", k, struct.pack(">QQI", int(d), 0, 0xffffffff))
            ok = x.status == 0
            n = 19
        if ok:
            self.len[k] = min(n, 19)
            if not self.digits:
                self.p.fail("a value of bytes 0xe7 was taken for a number")
        self.did("%s %r %s %s" % (how, k, d.decode(), "ok" if ok else "refused"), self.cls(self.len.get(k)), ok, k in self.locked)

    def init(self, k):
        if k in self.len:
            return
        if self.b.cmd("Increment", k, struct.pack(">QQI", 1, 7777777777777777, 0)).status:
            self.p.fail("increment of an absent item with an initial value failed")
        self.len[k] = 16
        self.did("init %r" % k)

    def delete(self, k):
        bin = self.r.random() < .5
        st = self.b.cmd("Delete", k).status == 0 if bin else self.t.cmd(b"delete " + k) == b"DELETED"
        old = self.len.get(k)
        if st:
            del self.len[k]
        self.did("delete %r %s" % (k, old), self.cls(old), bin, k in self.locked)

    def rau(self, k, release=True):
        """Lock, read, and replace with unlock."""
        if self.b2.cmd("LaG" if not self.files else "Lock", k).status:
            return
        if release:
            n = self.size()
            if self.b2.cmd("RaU", k, struct.pack(">II", 0, 0), self.fill(n)).status:
                self.p.fail("replace and unlock failed", "\n".join(self.hist[-12:]))
            old, self.len[k] = self.len[k], n
            self.did("rau %r %d->%d" % (k, old, n), self.cls(old), self.cls(n))
        else:
            self.locked.add(k)

    def unlock(self):
        self.b2.cmd("UnlockAll")
        self.locked.clear()

    def read(self, k):
        if not self.files:
            self.t.get(k)
            self.b.cmd("GaT", k, struct.pack(">I", 0))
            self.did("read %r" % k)

    def one(self, keys):
        k = self.r.choice(keys)
        have = k in self.len
        x = self.r.random()
        if not have:
            if self.digits and x < .3 and k not in self.locked:
                self.init(k)
            else:
                self.put(k, op="set" if x < .8 else "add")
        elif x < .25:
            self.put(k)
        elif x < .30:
            self.put(k, op=self.r.choice(["replace", "replace", "add"]))
        elif x < .45:
            self.extend(k, False)
        elif x < .60:
            self.extend(k, True)
        elif x < .75 if self.digits else x < .65:
            self.incr(k)
        elif x < .85:
            self.delete(k)
        elif x < .92 and not self.locked:
            self.rau(k)
        elif x < .95 and not self.locked:
            self.rau(k, False)
        elif self.locked and x < .98:
            self.unlock()
        else:
            self.read(k)

    def settle(self, what):
        for c in (self.b, self.b2):
            c.noop()
        self.t.cmd(b"version")
        self.s.intervals(2)
        self.seen(what)

    def gone(self, how):
        """All items vanish at once."""
        self.unlock()
        n = len(self.len)
        if how == "flush":
            self.t.cmd(b"flush_all")
        elif how == "flush-bin":
            self.b.cmd("Flush")
        elif how == "flush-later":
            self.t.cmd(b"flush_all 3")
            self.s.advance(4)
        elif how == "expire":
            for k in list(self.len):
                self.t.cmd(b"touch %s 5" % k)
            self.s.advance(6)
        a = self.s.shm.get("N_FREE_SCANNED")
        self.s.force_gc(2)
        self.seen(how)
        self.p.count("blocks_released_by_collection", self.s.shm.get("N_FREE_SCANNED") - a)
        self.len.clear()
        self.did("%s of %d items" % (how, n))

    def evict(self):
        """Fill until the collector evicts."""
        self.unlock()
        e0 = int(self.s.stats()[b"evictions"])
        for i in range(400):
            n = self.size() if self.digits else 30000
            self.t.set(b"evict%d" % i, self.fill(n))
            if i % 40 == 39:
                self.s.force_gc(1)
                self.s.force_gc(1)
                if int(self.s.stats()[b"evictions"]) > e0:
                    break
        n = int(self.s.stats()[b"evictions"]) - e0
        if n == 0:
            if not self.digits:
                raise Inconclusive("no eviction")
            return
        self.p.count("evicted", n)
        self.len.clear()
        self.did("evict some items")
        self.gone("flush")


def sequences(p, arg):
    digits, files, n, erase = arg
    with server(p, digits, erase, workers=p.rng.choice([1, 3]), memory_limit="2M") as s:
        o = Ops(p, s, digits, files=files, erase=erase)
        keys = [b"key%d" % i for i in range(12)]
        ways = ["flush", "flush-bin", "flush-later", "expire", "evict"]
        for i in range(n):
            o.one(keys)
            if i % 150 == 149:
                o.settle("operations")
                w = ways[i // 150 % len(ways)]
                for k in keys:
                    if k not in o.len and k not in o.locked:
                        o.put(k)
                if w == "evict":
                    o.evict()
                else:
                    o.gone(w)
                o.hist.clear()
        # data that expires or is flushed and is stored over, deleted or appended to before the collector comes
        s.shm.set("TIME", s.now() + 1)
        for k in keys:
            if k not in o.len:
                o.put(k)
        o.t.cmd(b"flush_all")
        s.intervals(3)
        o.did("flush without collection")
        for k in keys:
            o.put(k)
        o.settle("overwriting flushed items")
        if erase:
            p.observe(s)
        else:
            for w in o.dirty:
                p.count("calibration_dirty_" + w)


def slaves(p, arg):
    """Everything a slave receives, and the resynchronisation with another master."""
    digits, n = arg
    with server(p, digits, vip=repl.VIP, slave_timeout=10**8, repl_buffer_size=16) as m:
        with repl.slave(m, tag=PROP, exe=B.build("scan"), log__threshold="info") as s:
            s.shm.set_mark(b"77777777" if digits else b"\xe7\xe7\xe7\xe7")
            repl.wait_joined(m, 1)
            o = Ops(p, m, digits, limit=20000, watch=[s])
            keys = [b"key%d" % i for i in range(12)]
            for i in range(n):
                o.one(keys)
                if i % 100 == 99:
                    o.settle("operations")
                    repl.drain(m, [s])
                    o.seen("operations replicated")
                    if i % 300 == 299:
                        for k in keys:
                            if k not in o.len and k not in o.locked:
                                o.put(k)
                        o.gone(p.rng.choice(["flush", "expire"]))
                        repl.drain(m, [s])
                        o.seen("replicated removal")
            o.unlock()
            for i in range(100):
                o.put(b"last%d" % i)
            repl.synced(m, [s])
            o.seen("synchronisation")
            # another master: the slave drops everything it had
            m.kill()
            m.proc.wait()
            a = s.shm.get("N_FREE_SCANNED")
            with server(p, digits, vip=repl.VIP, slave_timeout=10**8, repl_port=m.repl_port) as m2:
                repl.wait_joined(m2, 1)
                o2 = Ops(p, m2, digits, limit=20000, watch=[s])
                o2.put(b"new")
                repl.synced(m2, [s])
                d = s.shm.get("N_FREE_DIRTY")
                if d:
                    p.fail("item data was left in %d released blocks of a slave that was resynchronised" % d)
                p.count("blocks_released_by_resync", s.shm.get("N_FREE_SCANNED") - a)
                m2.kill()
                m2.proc.wait()
            repl.promote(s)
            ks, c = repl.contents(s)
            if sorted(ks) != [b"new"]:
                raise Inconclusive("the slave did not resynchronise: %r" % ks[:5])
            p.case(("resync", digits))
            p.observe(s)
            p.observe(m)


def concurrent(p, n):
    """Parallel operations, collections and connection resets under injected delays."""
    r = p.rng
    with server(p, False, workers=6, gc_interval=1) as s:
        s.shm.set("SEED", r.randrange(1, 1 << 30))
        s.shm.set("P_DELAY", 4000)
        s.shm.set("DELAY_US", 100)
        errs = []

        def client(seed):
            import random
            q = random.Random(seed)
            try:
                b = s.bin(timeout=60)
                for i in range(n):
                    k = b"c%d" % q.randrange(4)
                    v = b"\xe7" * q.choice([4, 24, 100, 1000, q.randrange(4, 20000)])
                    x = q.random()
                    if x < .4:
                        b.set(k, v, exp=q.choice([0, 0, 1, 3]))
                    elif x < .6:
                        g = b.cmd("Get", k)
                        if g.status == 0 and len(g.val) + len(v) <= 40000:
                            # others may extend it meanwhile, but never beyond the limit for memory
                            b.cmd(q.choice(["Append", "Prepend"]), k, b"", v[:1000])
                    elif x < .7:
                        b.cmd("Delete", k)
                    elif x < .8:
                        if b.cmd("Lock", k).status == 0:
                            b.cmd("RaU", k, struct.pack(">II", 0, 0), v)
                    elif x < .83:
                        b.cmd("Flush")
                    elif x < .86:
                        b.cmd("Increment", k, struct.pack(">QQI", 1, 0, 0xffffffff))
                    elif x < .89:
                        b.cmd("Lock", k)
                        b.reset()
                        b = s.bin(timeout=60)
                    else:
                        b.cmd("Get", k)
            except Exception as e:
                errs.append(e)
        ths = [threading.Thread(target=client, args=(r.randrange(1 << 40),)) for _ in range(8)]
        for t in ths:
            t.start()
        while any(t.is_alive() for t in ths):
            s.shm.set("TIME", s.shm.get("TIME") + 1)
            time.sleep(.005)
            if s.shm.get("N_FREE_DIRTY"):
                p.fail("item data was left in released memory during concurrent operations (block of %d bytes)" % s.shm.get("DIRTY_SIZE"))
        if errs:
            raise errs[0]
        conc.noise_off(s)
        s.text().cmd(b"flush_all")
        s.force_gc(2)
        if s.shm.get("N_FREE_DIRTY"):
            p.fail("item data was left in released memory during concurrent operations")
        p.case(("concurrent", s.shm.get("ORDER_HASH")), n * 8)
        p.observe(s)


def job(p, arg):
    arg[0](p, arg[1])


def run(ck):
    n = ck.scale(1500, 20000)
    B.build("scan")
    args = [(sequences, (d, f, n, True)) for d, f in ((False, False), (False, True), (True, False), (False, False), (True, False))]
    args += [(sequences, (d, False, 750, False)) for d in (False, True)]
    args += [(slaves, (d, ck.scale(600, 5000))) for d in (False, True)]
    args += [(concurrent, ck.scale(1000, 20000))] * ck.scale(2, 6)
    ck.jobs(job, args)
    if ck.counts.get("srv_free_scanned", 0) == 0 or not ck.counts.get("blocks_released_by_resync"):
        raise Inconclusive("nothing was released")


if __name__ == "__main__":
    chk.main(PROP, "every block of memory the server releases (free, realloc, operator delete) while all item data consists of a "
             "marker is searched for the marker, after every operation, collection and resynchronisation", run,
             assumptions=["request and reply buffers are not item memory: they are told apart by their size or their first byte",
                          "values that exceed heap_data_limit live in files; buffers used to read those are not covered"])

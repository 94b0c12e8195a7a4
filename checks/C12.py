"""C12: values of every size are stored faithfully; temporary storage is invisible and released."""
import hashlib
import os
import random
import signal
import struct
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import repl
import yr
from yr import T0, ConnClosed, Timeout, Inconclusive

PROP = "C12"
_pool = random.Random(12).randbytes(1 << 20)


def data(r, n):
    """n bytes that differ at every position from those of other calls."""
    if n == 0:
        return b""
    seed = b"%08x" % r.randrange(1 << 32)
    if n <= 8:
        return seed[:n]
    out = [seed]
    have, h = 8, int(seed, 16)
    while have < n:
        o = (h + have * 7) % (len(_pool) - 4096)
        x = _pool[o:o + min(4096, n - have)]
        out.append(x)
        have += len(x)
        h = (h * 1103515245 + 12345) & 0xffffffff
    return b"".join(out)


def files(s):
    """(number, allocated bytes, apparent bytes, linked names) of the temporary files the server holds, and all descriptors."""
    d = os.path.join(s.wd, "tmp")
    n = blocks = size = total = 0
    names = []
    for f in os.listdir("/proc/%d/fd" % s.proc.pid):
        p = "/proc/%d/fd/%s" % (s.proc.pid, f)
        try:
            t = os.readlink(p)
            total += 1
            if not t.startswith(d):
                continue
            st = os.stat(p)
        except OSError:
            continue
        n += 1
        blocks += st.st_blocks * 512
        size += st.st_size
        if st.st_nlink:
            names.append(t)
    return n, blocks, size, names, total


def visible(p, s, what):
    l = os.listdir(os.path.join(s.wd, "tmp"))
    if l:
        p.fail("temporary storage is visible in the directory %s: %r" % (what, l[:5]))


class Store:
    """Keys and what they must hold; operations through either protocol."""

    def __init__(self, p, s, limit, mx):
        self.p, self.s, self.r = p, s, p.rng
        self.limit, self.mx = limit, mx
        self.t, self.b = s.text(timeout=120), s.bin(timeout=120)
        s.stats()       # the control connection counts as well
        self.v = {}

    def put(self, key, n, proto=None, op="set"):
        v = data(self.r, n)
        fl = self.r.randrange(1 << 32)
        if n and (proto or self.r.choice("tb")) == "b":
            x = self.b.set(key, v, fl, op={"set": "Set", "add": "Add", "replace": "Replace"}[op])
            ok = x.status == 0
        else:
            x = self.t.store(op.encode(), key, v, fl)
            ok = x == b"STORED"
        should = {"set": True, "add": key not in self.v, "replace": key in self.v}[op]
        if ok != should:
            self.p.fail("%s of %d bytes: %r" % (op, n, x))
        if ok:
            self.v[key] = (fl, v)

    def extend(self, key, n, front, proto=None):
        v = data(self.r, n)
        fl, old = self.v[key]
        if len(old) + n > self.mx:
            return False
        if n and (proto or self.r.choice("tb")) == "b":
            x = self.b.cmd("Prepend" if front else "Append", key, b"", v).status
            ok = x == 0
        else:
            x = self.t.store(b"prepend" if front else b"append", key, v)
            ok = x == b"STORED"
        if not ok:
            self.p.fail("%s of %d bytes to %d bytes: %r" % ("prepend" if front else "append", n, len(old), x))
        self.v[key] = (fl, v + old if front else old + v)
        return True

    def verify(self, key, what, proto=None):
        want = self.v.get(key)
        if (proto or self.r.choice("tb")) == "t":
            x = self.t.get(key, self.r.choice([b"get", b"gets"]))
            got = (x[1], x[2]) if x else None
        else:
            x = self.b.cmd(self.r.choice(["Get", "GetK"]), key)
            got = (struct.unpack(">I", x.extras)[0], x.val) if x.status == 0 else None
        self.p.case()
        if got == want:
            return
        if got is None or want is None:
            self.p.fail("%s: %r is %s" % (what, key, "missing" if got is None else "there"))
        a, b = want[1], got[1]
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        self.p.fail("%s: %r differs: %d bytes stored, %d returned, first difference at %d; flags %d/%d" % (
            what, key, len(a), len(b), i, want[0], got[0]), "stored ..%r returned ..%r" % (a[max(0, i - 20):i + 20], b[max(0, i - 20):i + 20]))

    def all(self, what):
        for k in list(self.v):
            self.verify(k, what)

    def big(self):
        return [len(v) for _, v in self.v.values() if len(v) > self.limit]

    def space(self, what, base_fds=None, wait=20):
        """Everything not needed has been released (some of it may take a moment)."""
        big = self.big()
        end = time.time() + wait
        while True:
            n, blocks, size, names, total = files(self.s)
            bad = None
            if names:
                bad = "temporary files have names: %r" % names[:3]
            elif n > len(big):
                bad = "%d temporary files are open for %d file-backed items" % (n, len(big))
            elif max(blocks, size) > sum(big) * 1.1 + 66000 * len(big) + 4096:
                bad = "temporary files take %d (%d allocated) bytes for %d bytes of data" % (size, blocks, sum(big))
            elif base_fds is not None and total - n > base_fds:
                bad = "%d descriptors are open instead of %d" % (total - n, base_fds)
            if bad is None:
                break
            if time.time() > end:
                self.p.fail("%s: %s" % (what, bad))
            time.sleep(.02)
        visible(self.p, self.s, what)
        self.p.case()
        return n


def server(limit, mx, **kw):
    conf = dict(heap_data_limit=limit, max_data_size=mx, gc_interval=10, log__threshold="warning")
    conf.update(kw)
    return yr.Server(B.build("plain"), tag=PROP, **conf)


# -- all transitions between sizes ------------------------------------------------

def transitions(p, arg):
    limit, mx, third = arg
    r = p.rng
    with server(limit, mx, workers=r.choice([1, 4])) as s:
        st = Store(p, s, limit, mx)
        s.shm.set("SEED", r.randrange(1, 1 << 30))
        s.shm.set("P_SHORT", r.choice([0, 3000, 12000]))
        base = files(s)[4]
        sizes = sorted({x for x in (0, 1, 23, 24, 25, limit // 2, limit - 1, limit, limit + 1, 2 * limit, mx - 1, mx) if 0 <= x <= mx})
        n = 0
        for a in sizes:
            for b in sizes:
                for op in ("set", "replace", "append", "prepend"):
                    k = b"k%d" % n
                    n += 1
                    st.put(k, a, op=r.choice(["set", "add"]))
                    if r.random() < .2:
                        st.verify(k, "after the first store")
                    what = "%d bytes, then %s of %d" % (a, op, b)
                    if op in ("set", "replace"):
                        st.put(k, b, op=op)
                    else:
                        st.extend(k, b, op == "prepend")
                    visible(p, s, what)
                    p.case((limit, a, b, op), 0)
                    st.verify(k, what)
                    for _ in range(third):
                        c = r.choice(sizes)
                        op = r.choice(["set", "append", "prepend", "prepend"])
                        what += ", then %s of %d" % (op, c)
                        if op == "set":
                            st.put(k, c)
                        else:
                            st.extend(k, c, op == "prepend")
                        st.verify(k, what)
                    if len(st.v) >= 60:
                        st.space("after transitions", base)
                        for k2 in r.sample(list(st.v), 40):
                            if r.random() < .5:
                                st.verify(k2, "some time later")
                            if st.t.cmd(b"delete " + k2) != b"DELETED":
                                p.fail("delete failed")
                            del st.v[k2]
                        st.space("after deletes", base)
        st.all("at the end")
        p.count("fsync", s.shm.get("N_FSYNC"))
        p.observe(s)
        x = files(s)
        p.count("temp_files_seen", x[0])
        s.kill(r.choice([signal.SIGKILL, signal.SIGTERM]))
        s.proc.wait()
        visible(p, s, "after the end of the server")


# -- values that age, are written to disk, and are used again ---------------------------

def aged(p, n):
    r = p.rng
    limit, mx = 4096, 200000
    # few buckets: several values of a bucket are written out at once
    with server(limit, mx, gc_interval=1, buckets=r.choice([1, 3, 7, 1009])) as s:
        st = Store(p, s, limit, mx)
        base = files(s)[4]
        for rnd in range(n):
            for i in range(20):
                st.put(b"a%d" % i, r.choice([10, limit, limit + 1, 5000, 60000]))
            f0 = s.shm.get("N_FSYNC")
            s.force_gc(11)
            s.force_gc(2)
            if st.big() and s.shm.get("N_FSYNC") == f0:
                # writing old data out is an optimisation, not something clients rely on
                p.count("rounds_without_flushing")
            p.count("flushed_files", s.shm.get("N_FSYNC") - f0)
            st.space("after %d collections" % 13, base)
            for k in list(st.v):
                x = r.random()
                if x < .25:
                    st.verify(k, "after collections")
                elif x < .5:
                    st.extend(k, r.choice([0, 1, 5000]), r.random() < .5)
                elif x < .6:
                    st.put(k, r.choice([0, 10, 5000, 70000]))
            s.force_gc()
            st.all("used after it had aged")
            st.space("after use", base)
            p.case(("aged", len(st.big())))
        p.observe(s)


# -- every way to release ------------------------------------------------------------

def release(p, n):
    r = p.rng
    limit, mx = 4096, 1 << 20
    for _ in range(n):
        with server(limit, mx, memory_limit="600K", gc_interval=5) as s:
            st = Store(p, s, limit, mx)
            base = files(s)[4]

            def fill(exp=0):
                for i in range(30):
                    z = r.choice([100, limit + 1, 5000, 30000, 100000])
                    v = data(r, z)
                    if st.t.set(b"f%d" % i, v, 5, exp) != b"STORED":
                        p.fail("set failed")
                    st.v[b"f%d" % i] = (5, v)
                if st.space("filled", base) == 0 and st.big():
                    p.count("no_files")

            ways = ["delete", "smaller", "empty", "file", "expire", "expire-access", "flush", "replace", "rau", "evict", "overwrite-expired", "client"]
            r.shuffle(ways)
            for w in ways:
                if w in ("expire", "expire-access", "overwrite-expired"):
                    fill(exp=20)
                else:
                    fill()
                ks = [k for k in st.v]
                if w == "delete":
                    for k in ks:
                        x = st.t.cmd(b"delete " + k) == b"DELETED" if r.random() < .5 else st.b.cmd("Delete", k).status == 0
                        if not x:
                            p.fail("delete failed")
                        del st.v[k]
                elif w in ("smaller", "empty", "file"):
                    for k in ks:
                        st.put(k, {"smaller": 50, "empty": 0, "file": limit + 1}[w])
                elif w == "replace":
                    for k in ks:
                        st.put(k, r.choice([1, limit, limit + 1]), op="replace")
                elif w == "rau":
                    for k in ks:
                        if st.b.cmd("LaG", k, b"").status:
                            p.fail("lock failed")
                        v = data(r, r.choice([1, limit, limit + 1]))
                        if st.b.cmd("RaU", k, struct.pack(">II", 1, 0), v).status:
                            p.fail("replace and unlock failed")
                        st.v[k] = (1, v)
                elif w == "expire":
                    s.advance(25)
                    st.v.clear()
                    s.force_gc()
                elif w == "overwrite-expired":
                    s.advance(25)
                    st.v.clear()
                    for k in ks:
                        st.put(k, 10, op=r.choice(["set", "add"]))
                elif w == "expire-access":
                    s.advance(25)
                    for k in ks:
                        if st.t.get(k):
                            p.fail("expired item returned")
                        st.t.cmd(b"delete " + k)
                    st.v.clear()
                    s.force_gc()
                elif w == "flush":
                    st.t.cmd(b"flush_all")
                    st.v.clear()
                    s.force_gc()
                elif w == "evict":
                    # file-backed items do not count, but they are evicted as well
                    i = 0
                    e0 = int(s.stats()[b"evictions"])
                    while int(s.stats()[b"evictions"]) == e0:
                        for _ in range(40):
                            st.put(b"e%d" % i, limit)
                            i += 1
                        s.force_gc()
                        if i > 4000:
                            p.fail("nothing was evicted")
                    s.force_gc()
                    left = set(st.t.keys())
                    for k in list(st.v):
                        if k not in left:
                            del st.v[k]
                    p.count("evicted", int(s.stats()[b"evictions"]) - e0)
                elif w == "client":
                    # a client that goes away in the middle of storing or reading a large value
                    for k in ks[:8]:
                        c = s.text()
                        c.send(b"set %s 0 0 900000\r\n" % k + b"x" * r.choice([10, 500000]))
                        c.reset() if r.random() < .5 else c.close()
                        c = yr.Text(s.port, rcvbuf=4096)
                        c.send(b"get %s\r\n" % k * 20)
                        c.reset() if r.random() < .5 else c.close()
                st.space("after %s" % w, base + (20 if w == "client" else 0))
                st.all("after %s" % w)
                p.case(("release", w))
                if w == "client":
                    # sockets are no concern of this property
                    base = files(s)[4] - len(st.big())
                for k in list(st.v):
                    if st.t.cmd(b"delete " + k) != b"DELETED":
                        p.fail("delete failed")
                    del st.v[k]
                if st.space("after deleting everything", base + (20 if w == "client" else 0)) != 0:
                    p.fail("files are open for no items")
            p.observe(s)


def slaves(p, n):
    """Slaves store replicated data the same way, and drop it all when they start over."""
    r = p.rng
    limit, mx = 4096, 1 << 20
    for _ in range(n):
        with yr.Server(B.build("plain"), tag=PROP, vip=repl.VIP, slave_timeout=10**8, heap_data_limit=limit, max_data_size=mx,
                       gc_interval=10, log__threshold="info") as m:
            st = Store(p, m, limit, mx)
            for i in range(30):
                st.put(b"s%d" % i, r.choice([10, limit, limit + 1, 30000, 300000]))
            x = repl.slave(m, tag=PROP + "s")
            try:
                repl.synced(m, [x])
                for k in list(st.v):
                    y = r.random()
                    if y < .3:
                        st.put(k, r.choice([10, limit + 1, 7000]))
                    elif y < .5:
                        st.extend(k, 5000, r.random() < .5)
                    elif y < .7:
                        m.text().cmd(b"delete " + k)
                        del st.v[k]
                repl.drain(m, [x])
                sl = Store(p, m, limit, mx)
                sl.s, sl.v = x, st.v
                k = sl.space("on a slave")
                p.count("slave_files", k)
                if r.random() < .5:
                    # the master goes, and another one with other data comes
                    m.kill()
                    m.proc.wait()
                    m2 = yr.Server(B.build("plain"), tag=PROP, vip=repl.VIP, slave_timeout=10**8, heap_data_limit=limit, max_data_size=mx,
                                   gc_interval=10, repl_port=m.repl_port, log__threshold="info")
                    try:
                        st2 = Store(p, m2, limit, mx)
                        st2.put(b"only", limit + 1)
                        repl.wait_joined(m2, 1)
                        repl.synced(m2, [x])
                        sl.v = st2.v
                        sl.space("on a slave that started over")
                        p.case("again")
                    finally:
                        m2.cleanup()
                else:
                    m.kill()
                    m.proc.wait()
                    repl.promote(x)
                    nv = st.v
                    sl = Store(p, x, limit, mx)
                    sl.v = nv
                    sl.all("after takeover")
                    sl.space("after takeover")
                    p.case("takeover")
            finally:
                x.cleanup()


# -- concurrent readers and writers -----------------------------------------------------

def block(serial, n):
    h = b"<%012d %08d>" % (serial, n)
    o = serial * 131 % (len(_pool) - 300000)
    return h + _pool[o:o + n]


def parse(v):
    """The serials of the blocks a value consists of; None if it is not a sequence of whole blocks."""
    out, i = [], 0
    while i < len(v):
        h = v[i:i + 23]
        if len(h) != 23 or h[:1] != b"<" or h[22:] != b">":
            return None
        try:
            ser, n = int(h[1:13]), int(h[14:22])
        except ValueError:
            return None
        o = ser * 131 % (len(_pool) - 300000)
        if v[i + 23:i + 23 + n] != _pool[o:o + n]:
            return None
        out.append(ser)
        i += 23 + n
    return out


def concurrent(p, n):
    r = p.rng
    limit, mx = 4096, 400000
    with server(limit, mx, workers=r.choice([3, 6]), gc_interval=1) as s:
        keys = [b"c%d" % i for i in range(3)]
        errs, reads, seen = [], [0], set()
        stop = threading.Event()

        def writer(wid, seed):
            rr = random.Random(seed)
            try:
                c = s.bin(timeout=120)
                for i in range(n):
                    ser = wid * 10**6 + i
                    k = rr.choice(keys)
                    b = block(ser, rr.choice([0, 50, 2000, limit - 23, limit - 22, 9000, 60000]))
                    x = rr.random()
                    if x < .45:
                        c.set(k, b)
                    elif x < .65:
                        c.cmd("Append", k, b"", b)
                    elif x < .85:
                        c.cmd("Prepend", k, b"", b)
                    elif x < .95:
                        c.cmd("Delete", k)
                    else:
                        c.cmd("Touch", k, struct.pack(">I", 0))
                    visible_ = os.listdir(os.path.join(s.wd, "tmp"))
                    del visible_
                c.close()
            except Exception as e:
                errs.append(e)

        def reader(seed):
            rr = random.Random(seed)
            try:
                c = s.text(timeout=120)
                while not stop.is_set():
                    k = rr.choice(keys)
                    x = c.get(k)
                    if x is None:
                        continue
                    if isinstance(x, bytes):
                        raise chk.Violation("get returned %r" % x)
                    b = parse(x[2])
                    reads[0] += 1
                    if b is None:
                        raise chk.Violation("a concurrent read of a large value returned a mixture", repr(x[2][:100]))
                    if len(set(b)) != len(b):
                        raise chk.Violation("a part of a value appears twice: %r" % b)
                    # parts appended or prepended by one client are in order around its base
                    seen.add(hash(tuple(b)))
                c.close()
            except Exception as e:
                errs.append(e)
        conc.perturb(s, r)
        s.shm.set("P_SHORT", r.choice([0, 6000, 20000]))
        ws = [threading.Thread(target=writer, args=(i, r.random())) for i in range(4)]
        rs = [threading.Thread(target=reader, args=(r.random(),)) for _ in range(3)]
        for t in ws + rs:
            t.start()
        while any(t.is_alive() for t in ws):
            s.shm.set("TIME", s.shm.get("TIME") + 2)
            time.sleep(.01)
        stop.set()
        for t in ws + rs:
            t.join()
        if errs:
            raise errs[0]
        conc.noise_off(s)
        st = Store(p, s, limit, mx)
        for k in keys:
            x = st.t.get(k)
            if x:
                st.v[k] = (x[1], x[2])
                if parse(x[2]) is None:
                    p.fail("a value is a mixture after concurrent updates")
        st.space("after concurrent updates")
        p.evals += reads[0]
        p.count("concurrent_reads", reads[0])
        for h in seen:
            p.sigs.add(h)
        p.observe(s)


def huge(p, n):
    """Values up to the largest size."""
    r = p.rng
    with server("256K", "10M", workers=2) as s:
        st = Store(p, s, 256 << 10, 10 << 20)
        s.shm.set("SEED", r.randrange(1, 1 << 30))
        s.shm.set("P_SHORT", r.choice([0, 2000]))
        for i in range(n):
            z = r.choice([256 << 10, (256 << 10) + 1, 1 << 20, (10 << 20) - 1, 10 << 20, r.randrange(10 << 20)])
            st.put(b"h", z)
            st.verify(b"h", "%d bytes" % z)
            for _ in range(2):
                a = r.choice([1, 70000, 1 << 20])
                if st.extend(b"h", a, r.random() < .5):
                    st.verify(b"h", "%d bytes extended by %d" % (z, a))
            st.space("huge")
            p.case(("huge", z))
        x = st.t.store(b"set", b"h", b"y" * ((10 << 20) + 1))
        if x == b"STORED":
            p.fail("a value above the limit was stored")
        st.verify(b"h", "after a refused store")
        p.observe(s)


def run(ck):
    B.build("plain")
    ck.jobs(transitions, [(4096, 20000, 1), (4096, 9000, 2), (16384, 50000, 1), (65536, 65536, 1), (20000, 20001, 1)]
            + [(4096 + 7 * i, 30000 + i, 3) for i in range(ck.scale(4, 40))])
    ck.jobs(aged, [ck.scale(4, 20)] * ck.scale(8, 16))
    ck.jobs(release, [ck.scale(3, 10)] * ck.scale(8, 16))
    ck.jobs(slaves, [ck.scale(1, 4)] * ck.scale(6, 24))
    ck.jobs(concurrent, [ck.scale(1500, 8000)] * ck.scale(8, 24))
    ck.jobs(huge, [ck.scale(25, 200)] * ck.scale(4, 8))


if __name__ == "__main__":
    chk.main(PROP, "values whose bytes are known by position go through all pairs of sizes around the memory/file border and all ways to build "
             "them; the temporary directory and the descriptors of the process are inspected after each way of releasing them; distinct by "
             "transition, way of release and sequence of parts seen by concurrent readers", run)

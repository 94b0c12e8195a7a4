"""C07: reply streams are complete and uncorrupted under back-pressure."""
import os
import queue
import random
import socket
import struct
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import yr
from gen import Client, Driver, Gen
from model import Cmd, Model
from yr import OP, T0, bin_req, counter_req, ConnClosed, Timeout, Inconclusive

PROP = "C07"
HEAP = 16384


class Slow:
    """Mixin: writes from a thread of its own, reads in pieces with pauses."""

    def pace(self, rng, pause=0.01, most=65536, p=.1):
        self.rng, self.pause, self.most, self.p_pause = rng, pause, most, p
        self.q = queue.Queue()
        self.werr = None
        threading.Thread(target=self._writer, daemon=True).start()
        return self

    def _writer(self):
        while True:
            b = self.q.get()
            if b is None:
                return
            try:
                self.s.sendall(b)
            except (OSError, socket.timeout) as e:
                self.werr = e

    def send(self, b):
        self.q.put(b)

    def _more(self, n=65536):
        if self.rng.random() < self.p_pause:
            time.sleep(self.rng.random() * self.pause)
        super()._more(max(1, min(n, int(self.most ** self.rng.random()))))

    def close(self):
        self.q.put(None)
        super().close()


class SlowClient(Slow, Client):
    pass


class SlowConn(Slow, yr.Bin):
    line2 = None


class SlowText(Slow, yr.Text):
    pass


class SlowCounter(Slow, yr.Counter):
    pass


def mk(cls, port, r, rcvbuf=None, pause=0.01, most=65536, p=.1):
    # (windows that are too far apart make the kernel wait for timers)
    c = cls(port, timeout=90, rcvbuf=rcvbuf or r.choice([4096, 20000]))
    return c.pace(r, pause, most, p)


def value(key, gen, n):
    """A value every piece of which says what it is."""
    pat = b"<%s/%d/%%08d>" % (key, gen)
    w = len(pat % 0)
    return b"".join(pat % i for i in range(n // w + 1))[:n]


def server(p, r, workers, **kw):
    s = yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size="9M", gc_interval=3600, workers=workers,
                  memory_limit="4096M", sndbuf=r.choice([4096, 8192, 50000, 400000]), log__threshold="error", **kw)
    s.shm.set("SEED", r.randrange(1, 1 << 30))
    s.shm.set("P_SHORT", r.choice([0, 2000, 15000]))
    s.shm.set("P_EINTR", r.choice([0, 2000]))
    s.shm.set("P_DELAY", r.choice([0, 500, 3000]))
    s.shm.set("DELAY_US", r.choice([0, 50, 300]))
    return s


def models(p, n):
    """Clients that read slowly run pipelines of random commands; every reply is compared with the model.  More of them
    than workers, so that sends are resumed both by workers and by the reactor."""
    r = p.rng
    with server(p, r, r.choice([1, 2, 4])) as s:
        errs, subs = [], []

        def client(i, seed):
            q = random.Random(seed)
            sub = chk.Part(p.prop, seed, p.tier)
            subs.append(sub)
            try:
                m = Model(T0, 9 << 20, HEAP)
                d = Driver(sub, s, m, nconn=1)
                d.conns[0].close()
                d.conns[0] = SlowClient(s.port, 0, timeout=90, rcvbuf=q.choice([4096, 20000])).pace(
                    q, q.choice([.001, .01]), q.choice([4000, 20000, 65536]), q.choice([.005, .03]))
                keys = [b"%c%d" % (65 + i, j) for j in range(4)]
                g = Gen(q, keys, 50000, HEAP)
                for k in keys:
                    d.batch(0, [Cmd("t", b"set", k, value(k, 0, q.choice([10, 3000, 16385, 45000])))])
                done = 0
                while done < n:
                    cmds = []
                    for _ in range(q.choice([1, 10, 40, 80])):
                        x = q.random()
                        if x < .4:
                            c = Cmd("t", q.choice([b"get", b"gets"]), keys=[q.choice(keys) for _ in range(q.choice([1, 2, 5]))])
                        elif x < .6:
                            c = Cmd("b", q.choice(["Get", "GetK", "GetKQ", "GaT"]), q.choice(keys), exp=None)
                        else:
                            c = g.cmd(d)
                        if c.op in (b"keys", OP["Keys"]) and not c.key.startswith(keys[0][:1]):
                            continue
                        cmds.append(c)
                    if cmds:
                        d.batch(0, cmds)
                    done += len(cmds)
                d.close()
            except Exception as e:
                errs.append(e)
        ths = [threading.Thread(target=client, args=(i, r.randrange(1 << 30))) for i in range(5)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        for sub in subs:
            p.merge(sub)
        p.case(("models", s.shm.get("SNDBUF"), s.shm.get("P_SHORT")), 0)
        conc.noise_off(s)
        p.observe(s)


def pipes(p, n):
    """Pipelines of very large replies; the stream ends with a quit and must be complete at its end."""
    r = p.rng
    with server(p, r, r.choice([1, 2, 4])) as s:
        sizes = [1, 4090, 16384, 16385, 65536, 1 << 20, (1 << 20) - 40, (1 << 20) + 1, 2500000, 8 << 20]
        t = s.text(timeout=60, rcvbuf=20000)
        vals = {}
        for i, z in enumerate(sizes):
            k = b"big%d" % i
            vals[k] = value(k, 0, z)
            assert t.set(k, vals[k], i) == b"STORED"
        keys = sorted(vals)
        for it in range(n):
            proto = r.choice("tb")
            most = r.choice([65536, 1 << 20])
            c = mk(SlowText if proto == "t" else SlowConn, s.port, r, most=most, p=.02)
            end = r.choice(["quit", "quitq", "open", "open", "stop"]) if proto == "b" else r.choice(["quit", "open", "open", "stop"])
            budget, reqs = r.choice([200000, 3 << 20, 20 << 20]), []
            while budget > 0 and len(reqs) < 1500:
                k = r.choice(keys)
                if len(vals[k]) > budget:
                    k = r.choice(keys[:6])
                reqs.append(k)
                budget -= len(vals[k]) + 50
            op = r.choice(["Get", "GetK", "GetQ", "GaTK"])
            if proto == "t":
                c.send(b"".join(b"get %s\r\n" % k for k in reqs) + (b"quit\r\n" if end == "quit" else b""))
            else:
                c.send(b"".join(bin_req(op, k, struct.pack(">I", 0) if op == "GaTK" else b"", b"", opaque=j) for j, k in enumerate(reqs)) +
                       (bin_req("Quit", opaque=77) if end == "quit" else bin_req("QuitQ") if end == "quitq" else b""))
            if r.random() < .5:
                # wait until the server cannot send any more
                lim = time.time() + r.choice([.05, .3])
                a = s.shm.get("N_EAGAIN_SEND")
                while time.time() < lim and s.shm.get("N_EAGAIN_SEND") == a:
                    time.sleep(.002)
            for j, k in enumerate(reqs):
                v = vals[k]
                i = keys.index(k)
                if proto == "t":
                    h = c.line()
                    if h != b"VALUE %s %d %d\r\n" % (k, sizes.index(len(v)), len(v)):
                        p.fail("reply %d of %d: %r for %s" % (j, len(reqs), h[:200], k))
                    d = c.take(len(v) + 7)
                    if d != v + b"\r\nEND\r\n":
                        p.fail("reply %d of %d for %s differs" % (j, len(reqs), k), where(d, v + b"\r\nEND\r\n"))
                else:
                    rs = c.recv()
                    if (rs.magic, rs.op, rs.status, rs.opaque, rs.key) != (0x81, OP[op], 0, j, k if "K" in op else b""):
                        p.fail("reply %d of %d for %s: %r" % (j, len(reqs), k, rs))
                    if rs.val != v or rs.extras != struct.pack(">I", sizes.index(len(v))):
                        p.fail("reply %d of %d for %s differs" % (j, len(reqs), k), where(rs.val, v))
                if end == "stop" and j > len(reqs) // 2:
                    break
            if end == "stop":
                c.reset() if r.random() < .5 else c.close()
            elif end == "open":
                c.send(b"version\r\n")
                if not c.line().startswith(b"VERSION "):
                    p.fail("no reply after a long pipeline")
                c.close()
            else:
                if end == "quit" and proto == "b":
                    rs = c.recv()
                    if (rs.op, rs.opaque, rs.status) != (OP["Quit"], 77, 0):
                        p.fail("reply to quit: %r" % rs)
                if c.buf:
                    p.fail("bytes after the last reply: %r" % c.buf[:100])
                if not c.closed_by_peer(60):
                    p.fail("the connection stays open after %s" % end)
                if c.buf:
                    p.fail("bytes after the last reply: %r" % c.buf[:100])
                c.close()
            p.case(("pipe", proto, op if proto == "b" else "", end, len(reqs) > 20), len(reqs))
        # nothing of all this has changed the values
        for k in keys:
            x = t.get(k)
            if x is None or x[2] != vals[k]:
                p.fail("value %s was lost or changed" % k)
        conc.noise_off(s)
        p.observe(s)


def where(got, want):
    n = min(len(got), len(want))
    i = next((i for i in range(0, n, 4096) if got[i:i + 4096] != want[i:i + 4096]), n)
    return "first difference near %d of %d (%d received)\ngot  %r\nwant %r" % (i, len(want), len(got), got[i:i + 4096][:300], want[i:i + 4096][:300])


def shared(p, n):
    """Readers of values that other clients replace all the time: each reply is one whole version."""
    r = p.rng
    with server(p, r, 4) as s:
        stop = threading.Event()
        errs, cnt = [], [0]
        keys = [b"sh%d" % i for i in range(3)]

        def writer(i, seed):
            q = random.Random(seed)
            try:
                c = s.text(timeout=90)
                g = 0
                while not stop.is_set():
                    g += 1
                    k = q.choice(keys)
                    z = q.choice([30, 3000, 16384, 16385, 70000, 600000])
                    if c.set(k, value(b"%s-%d" % (k, i), g, z), z) != b"STORED":
                        raise chk.Violation("set failed")
                c.close()
            except Exception as e:
                errs.append(e)
        ths = [threading.Thread(target=writer, args=(i, r.randrange(1 << 30))) for i in range(2)]
        for k in keys:
            s.ctl().set(k, value(b"%s-9" % k, 0, 100), 100)
        for t in ths:
            t.start()

        def reader(seed):
            q = random.Random(seed)
            try:
                c = mk(SlowText, s.port, q)
                for _ in range(n):
                    ks = [q.choice(keys) for _ in range(q.choice([1, 5, 20]))]
                    c.send(b"get " + b" ".join(ks) + b"\r\n")
                    vs = c.read_values()
                    if isinstance(vs, bytes) or [v[0] for v in vs] != ks:
                        raise chk.Violation("reply to get of %r: %r" % (ks, vs if isinstance(vs, bytes) else [v[0] for v in vs]))
                    for k, fl, d, _ in vs:
                        name = d[1:].split(b"/", 2)
                        if len(name) < 3 or not name[0].startswith(k + b"-") or len(d) != fl or d != value(name[0], int(name[1]), fl):
                            raise chk.Violation("a value of %s with flags %d is not what was stored" % (k, fl), d[:300])
                        cnt[0] += 1
                c.close()
            except Exception as e:
                errs.append(e)
        rd = [threading.Thread(target=reader, args=(r.randrange(1 << 30),)) for _ in range(3)]
        for t in rd:
            t.start()
        for t in rd:
            t.join()
        stop.set()
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        p.case(("shared", s.shm.get("SNDBUF")), cnt[0])
        conc.noise_off(s)
        p.observe(s)


def stalled(p, n):
    """Clients that stop reading: while a worker is left the others are served; when the stalled ones resume they get
    everything, and when they disappear the workers they occupied come back."""
    r = p.rng
    W = r.choice([2, 3, 4])
    with server(p, r, W) as s:
        t = s.text(timeout=90, rcvbuf=20000)
        vals = {}
        # (sets of keys in turn: the server may still be busy with the requests of the clients of the last round)
        for i in range(3 * W):
            k = b"stall%d_%d" % (i % 3, i // 3)
            vals[k] = value(k, 1, r.choice([2 << 20, 5 << 20]))
            t.set(k, vals[k])
        m = Model(T0, 9 << 20, HEAP)
        d = Driver(p, s, m, nconn=2)
        # keys of the monitored client: in buckets of their own (nobody waits for the lock of a stalled reader's bucket)
        keys = [b"other%d" % j for j in range(4)]
        g = Gen(r, keys, 50000, HEAP)
        for rnd in range(n):
            k = r.choice([1, W - 1, W - 1, W, W])
            st = []
            for i in range(k):
                c = yr.Bin(s.port, timeout=90, rcvbuf=4096)
                reps = r.choice([3, 10])
                # (a stalled reader holds the lock of the bucket it is sending from)
                reqs = [b"stall%d_%d" % (rnd % 3, i)] * reps
                c.send(b"".join(bin_req("GetK", x, opaque=j) for j, x in enumerate(reqs)))
                st.append((c, reqs))
            a = s.shm.get("N_EAGAIN_SEND")
            lim = time.time() + .2
            while time.time() < lim and s.shm.get("N_EAGAIN_SEND") < a + k:
                time.sleep(.002)
            if k < W:
                for _ in range(5):
                    cmds = [c for c in (g.cmd(d) for _ in range(r.choice([1, 10]))) if c.op not in (b"keys", OP["Keys"])]
                    if cmds:
                        d.batch(r.randrange(2), cmds)
            # some resume, some disappear
            order = list(range(k))
            r.shuffle(order)
            for i in order:
                c, reqs = st[i]
                how = r.choice(["resume", "resume", "half", "reset", "close"])
                if how in ("resume", "half"):
                    for j, x in enumerate(reqs[:len(reqs) if how == "resume" else len(reqs) // 2]):
                        rs = c.recv()
                        if (rs.op, rs.opaque, rs.key, rs.status) != (OP["GetK"], j, x, 0) or rs.val != vals[x]:
                            p.fail("reply %d after a stall: %r" % (j, rs), where(rs.val, vals[x]))
                    if how == "resume":
                        c.send(b"version\r\n")
                        if not c.line().startswith(b"VERSION "):
                            p.fail("no service after a stall")
                if how == "close":
                    c.close()
                else:
                    c.reset()
                p.case(("stall", k == W, how))
            # every worker must be available again: as many commands at once as there are workers
            cs = [s.text(timeout=90) for _ in range(W)]
            for c in cs:
                c.send(b"get other0 other1\r\nversion\r\n")
            for c in cs:
                while not c.line().startswith(b"VERSION "):
                    pass
                c.close()
            cmds = [g.cmd(d) for _ in range(20)]
            d.batch(0, [c for c in cmds if c.op not in (b"keys", OP["Keys"])])
        for k, v in vals.items():
            x = t.get(k)
            if x is None or x[2] != v:
                p.fail("value %s was lost or changed" % k)
        d.close()
        p.count("stall_rounds", n)
        conc.noise_off(s)
        p.observe(s)


def counters(p, n):
    """The same for the counter protocol: pipelined dumps and statistics read slowly."""
    r = p.rng
    with server(p, r, r.choice([1, 2])) as s:
        h = s.counter(timeout=60)
        want = {}
        for i in range(3000):
            nm = b"c%d-" % i + b"n" * (i % 200)
            h.send(counter_req(2, struct.pack(">IIH", i + 1, 10**6, len(nm)) + nm, struct.pack(">I", i)))
            want[nm] = i + 1
        for i in range(3000):
            rs = h.recv()
            if rs.status != 0 or rs.opaque != struct.pack(">I", i):
                p.fail("acquire: %r" % rs)
        for it in range(n):
            c = mk(SlowCounter, s.counter_port, r, most=r.choice([3000, 65536]), p=.02)
            reqs = [r.choice([0x11, 0x11, 0x10, 1, 0]) for _ in range(r.choice([3, 12]))]
            nm = r.choice(sorted(want))
            c.send(b"".join(counter_req(q, struct.pack(">H", len(nm)) + nm if q == 1 else b"", struct.pack(">I", j)) for j, q in enumerate(reqs)))
            for j, q in enumerate(reqs):
                seen = {}
                while True:
                    rs = c.recv()
                    if (rs.op, rs.status, rs.opaque) != (q, 0, struct.pack(">I", j)):
                        p.fail("reply %d of %r: %r" % (j, reqs, rs))
                    if q != 0x11 or not rs.body:
                        break
                    a, b, l = struct.unpack(">IIH", rs.body[:10])
                    if rs.body[10:10 + l] in seen or len(rs.body) != 10 + l:
                        p.fail("dump: twice or malformed: %r" % rs)
                    seen[rs.body[10:10 + l]] = a
                if q == 0x11 and seen != want:
                    p.fail("dump differs: %d of %d counters" % (len(seen), len(want)), repr(sorted(set(seen.items()) ^ set(want.items()))[:5]))
                if q == 1 and struct.unpack(">I", rs.body)[0] != want[nm]:
                    p.fail("get: %r" % rs)
            (c.close if r.random() < .5 else c.reset)()
            p.case(("counter", tuple(sorted(set(reqs)))), len(reqs))
        conc.noise_off(s)
        p.observe(s)


def run(ck):
    B.build("plain")
    ck.jobs(models, [ck.scale(250, 4000)] * ck.scale(8, 40))
    ck.jobs(pipes, [ck.scale(10, 200)] * ck.scale(8, 24))
    ck.jobs(shared, [ck.scale(15, 800)] * ck.scale(8, 16))
    ck.jobs(stalled, [ck.scale(5, 100)] * ck.scale(8, 24))
    ck.jobs(counters, [ck.scale(6, 100)] * ck.scale(4, 16))


if __name__ == "__main__":
    chk.main(PROP, "slow readers (small socket buffers, injected short writes, interruptions and delays) of model-checked pipelines, of large "
             "self-describing values up to the end of the stream, of values being replaced; stalled readers that resume or vanish; counter "
             "dumps; distinct by protocol, kind and ending", run)

"""C21: every connection with a complete request is eventually served (quiescence oracle)."""
import errno
import os
import select
import socket
import struct
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import yr
from yr import Inconclusive, bin_req, counter_req

PROP = "C21"
QUIET = 15          # seconds without any byte moved by an idle server while requests wait
LIMIT = 240

SIZES = [0, 1, 100, 3000, 20000, 150000]


def value(n):
    return (b"%07d" % n * (n // 7 + 1))[:n]


class Maker:
    """Requests with replies of a known length."""

    def __init__(self, s, r):
        self.r, self.n = r, 0
        t = s.text(timeout=120)
        for n in SIZES:
            if t.set(b"v%d" % n, value(n)) != b"STORED":
                raise chk.Violation("not stored")
        t.send(b"version\r\n")
        self.version = len(t.line())
        t.close()
        c = s.counter(timeout=120)
        self.cget = 12 + len(c.cmd(1, b"\0\4none").body)
        c.acquire(b"x", 1, 5)
        self.cgetx = 12 + len(c.cmd(1, b"\0\1x").body)
        self.keep = c

    def one(self, kind, big=False):
        r = self.r
        x = r.random()
        n = r.choice(SIZES[4:] if big else SIZES[:4])
        self.n += 1
        if kind == "t":
            if x < .4:
                return b"get v%d\r\n" % n, len(b"VALUE v%d 0 %d\r\n\r\nEND\r\n" % (n, n)) + n
            if x < .6:
                return b"set w%d 0 0 %d\r\n%s\r\n" % (r.randrange(50), n, value(n)), 8
            if x < .7:
                return b"set w%d 0 0 %d noreply\r\n%s\r\nversion\r\n" % (r.randrange(50), n, value(n)), self.version
            if x < .8:
                return b"version\r\n", self.version
            if x < .9:
                return b"touch none 0\r\n", 11
            return b"get none\r\n", 5
        if kind == "b":
            if x < .4:
                return bin_req("Get", b"v%d" % n), 28 + n
            if x < .6:
                return bin_req("Set", b"w%d" % r.randrange(50), struct.pack(">II", 0, 0), value(max(n, 1))), 24
            if x < .75:
                return bin_req("GetQ", b"none") + bin_req("Noop"), 24
            return bin_req("Noop"), 24
        if x < .4:
            return counter_req(0), 12
        if x < .7:
            return counter_req(1, b"\0\4none"), self.cget
        return counter_req(1, b"\0\1x"), self.cgetx


class Client:
    def __init__(self, s, kind, rcvbuf=0):
        self.kind = kind
        self.s = yr.connect(s.counter_port if kind == "c" else s.port, 60, rcvbuf=rcvbuf)
        self.s.setblocking(False)
        self.out, self.want, self.got, self.sent = b"", 0, 0, 0.0

    def ask(self, data, n):
        self.out += data
        self.want += n

    def fd(self):
        return self.s.fileno()

    def push(self, n=1 << 30):
        """Send what is to be sent, or a part of it."""
        while self.out and n > 0:
            try:
                k = self.s.send(self.out[:min(n, 1 << 18)])
            except BlockingIOError:
                return
            except ConnectionError as e:
                raise chk.Violation("a connection was closed with requests pending", str(e))
            self.out = self.out[k:]
            n -= k

    def pull(self):
        while True:
            try:
                d = self.s.recv(1 << 18)
            except BlockingIOError:
                return
            except ConnectionError as e:
                raise chk.Violation("a connection was closed with requests pending", str(e))
            if not d:
                raise chk.Violation("a connection was closed with requests pending")
            self.got += len(d)
            if self.got > self.want:
                raise chk.Violation("more is received than replies to the requests sent", (self.kind, self.got, self.want, d[-200:]))

    def done(self):
        return not self.out and self.got == self.want

    def close(self, how=0):
        if how:
            yr.rst(self.s)
        self.s.close()


def moved(s):
    return tuple(s.shm.get(k) for k in ("N_RECV_BYTES", "N_SEND_BYTES", "N_ACCEPT"))


def wait_all(p, s, clients, what):
    """Until all of them are done.  Nobody sends anything that is not part of a request already begun."""
    left = {c.fd(): c for c in clients if not c.done()}
    ep = select.poll()
    for fd, c in left.items():
        ep.register(fd, select.POLLIN | (select.POLLOUT if c.out else 0))
    start = last = time.time()
    seen = moved(s)
    while left:
        ev = ep.poll(1000)
        now = time.time()
        for fd, e in ev:
            c = left[fd]
            g, o = c.got, len(c.out)
            if e & select.POLLOUT:
                c.push()
                if not c.out:
                    ep.modify(fd, select.POLLIN)
            if e & (select.POLLIN | select.POLLHUP | select.POLLERR):
                c.pull()
            if (g, o) != (c.got, len(c.out)):
                last = now
            if c.done():
                ep.unregister(fd)
                del left[fd]
        if not left:
            break
        m = moved(s)
        if m != seen:
            seen, idle = m, now
            if now - start > LIMIT:
                raise Inconclusive("%s: %d connections are not served after %d s" % (what, len(left), LIMIT))
            last = now
        elif now - last > QUIET:
            if not s.alive():
                raise yr.ServerDied(s.diag())
            p.fail("%s: %d of %d connections with complete requests are not served any more" % (what, len(left), len(clients)),
                   ([(c.kind, c.got, c.want, len(c.out)) for c in left.values()][:10], s.shm.observed(), s.log()[-800:]))
    p.count("longest_wait_ms_sum", int((time.time() - start) * 1000))


def server(p, **kw):
    kw.setdefault("workers", p.rng.choice([1, 1, 2, 3]))
    kw.setdefault("buckets", 10007)
    kw.setdefault("counter__buckets", 101)
    kw.setdefault("gc_interval", p.rng.choice([1, 1000]))
    return yr.Server(B.build("plain"), tag=p.prop, slave_timeout=10 ** 8, max_data_size="10M", **kw)


PARTS = [b"g", b"get", b"get v1", b"get v1\r", b"set p 0 0 100\r\n", b"set p 0 0 100\r\nabc", b"set p 0 0 100000\r\n" + b"x" * 50000, b"v", b"\x80", bin_req("Get", b"v1")[:23],
         bin_req("Get", b"v1")[:-1], bin_req("Set", b"p", b"\0" * 8, b"y" * 70000)[:-1], bin_req("Noop")[:5], b"x" * 5000]
CPARTS = [b"\x90", counter_req(0)[:11], counter_req(1, b"\0\4none")[:-1], counter_req(1, b"\0\4none")[:13]]


def idle(p, s, n):
    """Connections that never complete a request."""
    out = []
    for _ in range(n):
        k = p.rng.choice("tbc")
        c = Client(s, k)
        if p.rng.random() < .7:
            c.out = p.rng.choice(CPARTS if k == "c" else PARTS)
            c.push()
            c.out = b""
        out.append(c)
    return out


def bursts(p, i):
    """Rounds of simultaneous requests, after each of which all wait."""
    r = p.rng
    with server(p) as s:
        mk = Maker(s, r)
        p.count("idle_connections", 0)
        nidle = r.choice([0, 5, 40])
        idlers = idle(p, s, nidle)
        p.count("idle_connections", nidle)
        kinds = r.choice(["tbc", "tbc", "t", "c"])
        cl = [Client(s, r.choice(kinds)) for _ in range(r.choice([2, 5, 20, 60]))]
        rounds = 400 * (5 if p.thorough else 1) if len(cl) > 10 else 1200 * (5 if p.thorough else 1)
        style = r.choice(["one", "pipe", "frag", "mix"])
        churn = r.random() < .5
        for rnd in range(rounds):
            if rnd % 100 == 0:
                conc.perturb(s, r)
                if r.random() < .3:
                    s.shm.set("P_ACCEPTERR", 3000)
            act = r.sample(cl, r.randrange(1, len(cl) + 1))
            for c in act:
                m = 1 if style == "one" else r.choice([1, 1, 2, 10])
                for _ in range(m):
                    c.ask(*mk.one(c.kind, big=r.random() < .01))
            if style in ("frag", "mix"):
                for _ in range(r.choice([1, 2, 5])):
                    for c in act:
                        if c.out and r.random() < .7:
                            c.push(r.choice([1, 2, 10, 100]))
            for c in act:
                c.push()
            wait_all(p, s, act, "burst")
            p.case(("burst", style, len(act), len(cl), kinds))
            p.count("requests", len(act))
            if churn and r.random() < .2:
                k = r.randrange(len(cl))
                c = cl[k]
                if r.random() < .5:
                    # gone with something pending
                    d, _ = mk.one(c.kind, True)
                    c.out = d * r.choice([1, 3])
                    c.push(r.choice([3, 1 << 30]))
                c.close(r.random() < .6)
                cl[k] = Client(s, c.kind)
        p.observe(s)
        for c in cl + idlers:
            c.close()


def fragments(p, i):
    """Pieces of requests that arrive around the moment a worker is done with what came before."""
    r = p.rng
    with server(p) as s:
        mk = Maker(s, r)
        cl = [Client(s, r.choice("tbc")) for _ in range(r.choice([1, 1, 2, 4]))]
        pause = 0
        for rnd in range(1500 * (6 if p.thorough else 1)):
            if rnd % 150 == 0:
                conc.perturb(s, r)
                pause = r.choice([0, 20e-6, 80e-6, 200e-6, 500e-6])
            for c in cl:
                for _ in range(r.choice([1, 1, 3])):
                    c.ask(*mk.one(c.kind))
            while any(c.out for c in cl):
                for c in cl:
                    c.push(r.choice([1, 1, 3, 20, 200, 1 << 30]))
                    c.pull()
                end = time.perf_counter() + pause * r.random()
                while time.perf_counter() < end:
                    pass
            wait_all(p, s, cl, "fragments")
            p.case(("fragments", len(cl), "".join(sorted(c.kind for c in cl)), pause))
            p.count("requests", len(cl))
        p.observe(s)
        for c in cl:
            c.close()


def partial(p, i):
    """Others are served while requests are incomplete, and these are served when they become complete."""
    r = p.rng
    with server(p, workers=1 if i % 3 else 2) as s:
        mk = Maker(s, r)
        for rnd in range(6 * (6 if p.thorough else 1)):
            conc.perturb(s, r)
            slow = []
            for _ in range(r.choice([3, 30, 90])):
                c = Client(s, r.choice("tbc"))
                d, n = mk.one(c.kind, big=r.random() < .3)
                if r.random() < .05:
                    d, n = b"set big 0 0 3000000\r\n" + b"z" * 3000000 + b"\r\n", 8
                    c.close()
                    c = Client(s, "t")
                k = r.choice([1, len(d) - 1, r.randrange(1, len(d))])
                c.out, c.want = d[:k], 0
                end = time.time() + LIMIT
                while c.out:
                    c.push()
                    if time.time() > end:
                        p.fail("an incomplete request is not read")
                c.rest = d[k:], n
                slow.append(c)
            fast = [Client(s, r.choice("tbc")) for _ in range(r.choice([1, 3, 10]))]
            for _ in range(30):
                for c in fast:
                    c.ask(*mk.one(c.kind))
                    c.push()
                wait_all(p, s, fast, "beside incomplete requests")
                p.case(("partial", len(slow), len(fast)))
                p.count("requests", len(fast))
            r.shuffle(slow)
            gone = slow[:len(slow) // 4]
            slow = slow[len(slow) // 4:]
            for c in gone:
                c.close(r.random() < .5)
            for c in slow:
                if c.got or c.want:
                    p.fail("an incomplete request is answered")
                c.out, c.want = c.rest
                c.push()
            wait_all(p, s, slow, "completed requests")
            p.count("requests", len(slow))
            p.case(("completed", len(slow)))
            for c in slow + fast:
                c.close(r.random() < .5)
        p.observe(s)


def blocked(p, i):
    """All workers are kept by readers that do not read; once they do, everyone is served."""
    r = p.rng
    w = r.choice([1, 2, 3])
    with server(p, workers=w) as s:
        mk = Maker(s, r)
        for rnd in range(5 * (6 if p.thorough else 1)):
            conc.perturb(s, r)
            snd = r.choice([20000, 60000, 0])
            s.shm.set("SNDBUF", snd)
            stall = []
            for _ in range(w + r.choice([0, 1, 3])):
                c = Client(s, r.choice("tb"), rcvbuf=r.choice([4096, 20000]))
                for _ in range(r.choice([3, 30, 60])):
                    n = 150000
                    c.ask(*((b"get v%d\r\n" % n, len(b"VALUE v%d 0 %d\r\n\r\nEND\r\n" % (n, n)) + n) if c.kind == "t" else (bin_req("Get", b"v%d" % n), 28 + n)))
                stall.append(c)
                c.push()
            time.sleep(r.choice([0, .05, .3]))
            fast = [Client(s, r.choice("tbc")) for _ in range(r.choice([2, 8, 30]))]
            for c in fast:
                for _ in range(r.choice([1, 1, 4])):
                    c.ask(*mk.one(c.kind))
                c.push()
            time.sleep(r.choice([0, .05, .3]))
            p.count("not_served_meanwhile", sum(1 for c in fast if not select.select([c.s], [], [], 0)[0]))
            # some go away, the others read
            r.shuffle(stall)
            k = r.choice([0, 0, 1, len(stall)])
            for c in stall[:k]:
                c.close(1)
            wait_all(p, s, stall[k:] + fast, "after stalled readers")
            p.case(("blocked", w, len(stall), k, len(fast), snd))
            p.count("requests", len(fast) + len(stall) - k)
            for c in stall[k:] + fast:
                c.close(r.random() < .5)
        p.observe(s)


def arrivals(p, i):
    """Many new connections at once, each with a request."""
    r = p.rng
    with server(p) as s:
        mk = Maker(s, r)
        for rnd in range(8 * (6 if p.thorough else 1)):
            conc.perturb(s, r)
            s.shm.set("P_ACCEPTERR", r.choice([0, 20000]))
            n = r.choice([10, 60, 110])
            kind = r.choice("tbc")
            cl = []
            for _ in range(n):
                c = Client.__new__(Client)
                c.kind = kind
                c.s = socket.socket()
                c.s.setblocking(False)
                c.out, c.want, c.got = b"", 0, 0
                e = c.s.connect_ex(("127.0.0.1", s.counter_port if kind == "c" else s.port))
                if e not in (0, errno.EINPROGRESS):
                    raise Inconclusive("connect: %s" % os.strerror(e))
                cl.append(c)
            for c in cl:
                c.ask(*mk.one(kind))
            if r.random() < .5:
                r.shuffle(cl)
            wait_all(p, s, cl, "arrivals")
            p.case(("arrivals", n, kind))
            p.count("requests", n)
            for c in cl:
                c.close(r.random() < .5)
        p.observe(s)


def job(p, a):
    {"bursts": bursts, "fragments": fragments, "partial": partial, "blocked": blocked, "arrivals": arrivals}[a[0]](p, a[1])


def main(ck):
    B.build("plain")
    n = ck.scale(1, 6)
    ck.jobs(job, [(k, i) for k, c in (("bursts", 32), ("fragments", 24), ("partial", 16), ("blocked", 16), ("arrivals", 16)) for i in range(c * n)])


if __name__ == "__main__":
    chk.main(PROP, "one evaluation = one round of requests of several connections that were all answered; distinct = kind of workload with the number and kinds of connections", main,
             assumptions=["a lost wake-up shows as an idle server: no byte is received or sent by it for %d s while complete requests wait" % QUIET,
                          "connections that stream requests without waiting, and readers that stop reading, may keep their worker"])

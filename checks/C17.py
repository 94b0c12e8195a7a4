"""C17: a termination signal always ends the server promptly and cleanly; other signals never do."""
import os
import shutil
import signal
import socket
import struct
import subprocess
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import frozen
import repl
import yr
from yr import ConnClosed, Inconclusive, ServerDied, Timeout, bin_req, counter_req, rst

PROP = "C17"
BOUND = 30      # seconds; tcp_connect to a silent master takes up to 10, the wait for a promotion 5
HEAP = 4096


def server(p, **kw):
    rng = p.rng
    conf = dict(heap_data_limit="1M", max_data_size="4M", workers=rng.choice([1, 2, 4]), buckets=rng.choice([1, 7, 1009]),
                counter__buckets=rng.choice([1, 101]), gc_interval=rng.choice([2, 3600]), slave_timeout=10 ** 8,
                sndbuf=rng.choice([0, 60000]), repl_buffer_size=rng.choice([1, 8]))
    conf.update(kw)
    return yr.Server(B.build("plain"), tag=p.prop, **conf)


def end(p, s, what, sigs=(signal.SIGTERM,)):
    """Exit status 0 within the bound."""
    if not s.alive():
        raise ServerDied("before the signal; " + what + "\n" + s.diag())
    t = time.time()
    for x in sigs:
        s.kill(x)
    try:
        try:
            rc = s.proc.wait(2)
        except subprocess.TimeoutExpired:
            s.shm.set("P_DELAY", 0)      # injected delays are not to be blamed
            rc = s.proc.wait(BOUND)
    except subprocess.TimeoutExpired:
        st = subprocess.run(["gdb", "-p", str(s.proc.pid), "-batch", "-ex", "thread apply all bt 14"], capture_output=True, text=True).stdout
        p.fail("the server did not end within %d s after signal %s while: %s" % (BOUND, list(sigs), what), s.diag()[-3000:] + "\n" + st[-20000:])
    dt = time.time() - t
    p.check(rc == 0, "the server ended with status %r after signal %s while: %s" % (rc, list(sigs), what), s.diag)
    if dt > 3:
        p.count("exits_slower_than_3s")
    p.count("ms_to_exit", int(dt * 1000))
    p.count("exits")
    p.observe(s)


class Acts:
    """Things that clients, slaves and the collector do at the moment of the signal."""

    def __init__(self, p, s):
        self.p, self.s, self.rng = p, s, p.rng
        self.keep, self.stop, self.ths = [], threading.Event(), []
        self.names = []

    def thread(self, fn):
        t = threading.Thread(target=fn, daemon=True)
        self.ths.append(t)
        t.start()

    def loop(self, fn):
        def body():
            import random
            r = random.Random(id(fn))
            try:
                while not self.stop.is_set():
                    fn(r)
            except (ConnClosed, Timeout, OSError, ValueError, struct.error, IndexError):
                pass
        self.thread(body)

    def rr(self):
        for _ in range(3):
            c = self.s.text(timeout=5)
            self.keep.append(c)

            def f(r, c=c):
                c.set(b"k%d" % r.randrange(50), b"v" * r.choice([1, 100, 5000]))
                c.get(b"k%d" % r.randrange(50))
                if r.random() < .05:
                    c.cmd(b"delete k%d" % r.randrange(50))
            self.loop(f)

    def ctr(self):
        for i in range(2):
            c = self.s.counter(timeout=5)
            self.keep.append(c)
            self.loop(lambda r, c=c: (c.acquire(b"r%d" % r.randrange(9), 1, 100), c.release(b"r%d" % r.randrange(9), 1)))

    def stalled(self):
        how = self.rng.choice(["stats", "get", "bget", "keys", "dump", "cstats"])
        if how in ("get", "bget"):
            frozen.big(self.s, 1)
        n = self.rng.choice([1, 2, 6])
        for _ in range(n):
            self.keep.append(frozen.stall(self.s, how, self.rng))
        self.names.append("%s*%d" % (how, n))

    def fill(self, n=20000):
        c = self.s.bin(timeout=20)
        c.send(b"".join(bin_req("SetQ", b"key%06d" % i, b"\0" * 8, b"v") for i in range(n)))
        c.noop()
        c.reset()

    def flood(self):
        """A lot of requests received at once."""
        if "many" not in self.names:
            self.many()
        req = self.rng.choice([b"keys\r\n", b"get " + b" ".join(b"key%06d" % i for i in range(1000)) + b"\r\n",
                               bin_req("Keys"), b"set a 0 0 1 noreply\r\nx\r\n", b"stats\r\n", b"version\r\n"])
        port, req = self.rng.choice([(self.s.port, req)] * 5 + [(self.s.counter_port, counter_req(0x11))])
        c = yr.Conn(port, timeout=2)
        self.keep.append(c)
        try:
            c.send(req * (3000000 // len(req)))
        except (Timeout, ConnClosed):
            pass
        self.names.append("%s" % req[:8])

    def many(self):
        self.fill()
        c = self.s.counter(timeout=20)
        for i in range(3000):
            c.send(counter_req(2, struct.pack(">IIH", 1, 9, 9) + b"cnt%06d" % i))
        for i in range(3000):
            c.recv()
        self.keep.append(c)

    def slave_stalled(self):
        """A slave that does not read while updates and synchronisation go on."""
        frozen.big(self.s, 12, prefix=b"sl")
        for _ in range(self.rng.choice([1, 3])):
            f = yr.connect(self.s.repl_port, timeout=5, rcvbuf=20000)
            self.keep.append(f)
        c = self.s.text(timeout=5)
        self.keep.append(c)
        self.loop(lambda r: c.set(b"w%d" % r.randrange(5), b"W" * 300000))
        self.s.shm.set("TIME", self.s.now() + 5)

    def slave_joins(self):
        def f(r):
            x = yr.connect(self.s.repl_port, timeout=2)
            time.sleep(r.random() * .01)
            if r.random() < .5:
                rst(x)
            else:
                x.close()
            time.sleep(.002)
        self.loop(f)

    def gc(self):
        self.fill()
        self.loop(lambda r: (self.s.shm.set("TIME", self.s.now() + 3), time.sleep(.002)))

    def churn(self):
        def f(r):
            c = yr.Text(r.choice([self.s.port, self.s.counter_port]), timeout=2)
            c.send(r.choice([b"version\r\n", b"ge", b"quit\r\n", b"\x90\x01", b"set a 0 0 5\r\nabc"]))
            time.sleep(r.random() * .003)
            c.reset() if r.random() < .6 else c.close()
        for _ in range(3):
            self.loop(f)

    def locks(self):
        frozen.big(self.s, 1)
        for i in range(3):
            c = self.s.bin(timeout=5)
            c.cmd("Lock", b"big0" if i == 0 else b"k%d" % i)
            self.keep.append(c)
        if self.rng.random() < .5:
            self.keep[-1].reset()

    def delays(self):
        self.s.shm.set("P_DELAY", self.rng.choice([2000, 20000]))
        self.s.shm.set("DELAY_US", self.rng.choice([50, 500]))

    def short(self):
        self.s.shm.set("P_SHORT", 20000)
        self.s.shm.set("P_EINTR", 20000)

    def signals(self):
        def f(r):
            self.s.kill(r.choice([signal.SIGHUP, signal.SIGUSR1]))
            time.sleep(r.random() * .002)
        self.loop(f)

    def backlog(self):
        for _ in range(40):
            self.keep.append(yr.connect(self.s.port, timeout=5))

    def close(self):
        self.stop.set()
        for k in self.keep:
            try:
                k.close()
            except OSError:
                pass
        for t in self.ths:
            t.join(30)


ALL = ["rr", "ctr", "stalled", "flood", "many", "slave_stalled", "slave_joins", "gc", "churn", "locks", "delays", "short", "signals", "backlog"]
TERM = [signal.SIGTERM, signal.SIGINT, signal.SIGQUIT]


def moments(p, n):
    """A master with any combination of activities."""
    rng = p.rng
    for _ in range(n):
        kw = {}
        if rng.random() < .3:
            kw["log__file"] = '"/dev/null"'
        if rng.random() < .15:
            kw["rlimit_nofile"] = 60
            kw["log__file"] = '"/dev/null"'
        with server(p, **kw) as s:
            a = Acts(p, s)
            todo = rng.sample(ALL, rng.choice([1, 1, 2, 3, 4]))
            # those that need a working service come first
            todo.sort(key=lambda x: x in ("stalled", "flood", "slave_stalled", "backlog"))
            if "stalled" in todo and ("slave_stalled" in todo or "flood" in todo):
                todo = [x for x in todo if x not in ("slave_stalled", "flood")]
            if "slave_stalled" in todo and "flood" in todo:
                todo.remove("flood")
            try:
                for t in todo:
                    try:
                        getattr(a, t)()
                        a.names.append(t)
                    except (ConnClosed, Timeout, OSError):
                        # another activity keeps the server busy
                        p.count("activity_not_reached")
                if rng.random() < .8:
                    time.sleep(rng.random() * rng.choice([.005, .05, .4]))
                sigs = [rng.choice(TERM)]
                if rng.random() < .2:
                    sigs = rng.choices(TERM + [signal.SIGHUP, signal.SIGUSR1], k=4) + sigs
                end(p, s, "+".join(a.names), sigs)
                p.case(("moment", tuple(a.names), len(sigs), s.conf["workers"], s.conf["buckets"]))
                for t in a.names:
                    p.count("with_" + t if t in ALL else "with_other")
            finally:
                a.close()


def startup(p, n):
    """Right after the server entered master or slave mode."""
    rng = p.rng
    for i in range(n):
        s = server(p)
        try:
            s.stop()
            s.errf.close()
            os.truncate(os.path.join(s.wd, "stderr"), 0)
            role = rng.choice(["master", "slave"])
            if role == "slave":
                s.shm.set("VIP_ADDR", 0)
            s.start(wait=False)
            t = time.time() + BOUND
            while "mode" not in s.log() and "Failed to connect" not in s.log() and time.time() < t and s.alive():
                time.sleep(.0005)
            if not s.alive() and "Address already in use" in s.log():
                continue
            time.sleep(rng.choice([0, rng.random() * .02, rng.random() * .3]))
            end(p, s, "starting as %s" % role, [rng.choice(TERM)])
            p.case(("startup", role))
        finally:
            s.cleanup()


class Master:
    """A master made of a listening socket."""

    def __init__(self, port, vip, backlog=8):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind((vip, port))
        self.l.listen(backlog)
        self.l.settimeout(20)

    def close(self):
        self.l.close()


def slave(p, n):
    """A slave in any state."""
    rng = p.rng
    for _ in range(n):
        what = rng.choice(["refused", "silent", "idle", "stream", "partial", "dead", "promote", "promoted", "stalled_heartbeat", "real"])
        if what == "silent" and rng.random() < .5:
            what = "stream"
        port = yr.free_port()
        vip = repl.VIP
        ms, keep, stop = None, [], threading.Event()
        kw = dict(vip=vip, own_vip=False, repl_port=port, fast=rng.choice([1, 50]), start=False, slave_timeout=10)
        s = server(p, **kw)
        th = None
        try:
            if what == "real":
                m = server(p, vip=vip, repl_port=port, gc_interval=2)
                keep.append(m)
                frozen.big(m, 5)
                c = m.text()

                def writes():
                    try:
                        i = 0
                        while not stop.is_set():
                            c.set(b"w%d" % (i % 7), b"W" * 100000)
                            i += 1
                    except (ConnClosed, Timeout, OSError):
                        pass
                th = threading.Thread(target=writes, daemon=True)
                th.start()
            elif what != "refused":
                ms = Master(port, vip, 0 if what == "silent" else 8)
                if what == "silent":
                    # the queue is full: the connection is neither accepted nor refused
                    for _ in range(4):
                        x = socket.socket()
                        x.setblocking(False)
                        x.connect_ex((vip, port))
                        keep.append(x)
                    time.sleep(.05)
            s.start(wait=False)
            t = time.time() + 20
            want = "Failed to connect" if what == "refused" else "Slave start"
            if what != "silent":
                while want not in s.log() and time.time() < t and s.alive():
                    time.sleep(.002)
                if not s.alive() and "Address already in use" in s.log():
                    continue
            else:
                time.sleep(.3)
            if ms and what != "silent":
                c = ms.l.accept()[0]
                keep.append(c)
                item = bin_req("SetQ", b"key", struct.pack(">II", 0, 0), b"v" * 5000)
                if what == "stream":
                    def feed():
                        try:
                            while not stop.is_set():
                                c.sendall(item * 50)
                        except OSError:
                            pass
                    th = threading.Thread(target=feed, daemon=True)
                    th.start()
                elif what == "partial":
                    c.sendall(item[:rng.randrange(1, len(item))])
                elif what in ("dead", "promote", "promoted"):
                    if what == "promote" or what == "promoted":
                        s.shm.set("SLEEP_DIV", 1)
                    ms.close()
                    rst(c) if rng.random() < .5 else c.close()
                    if what == "promoted":
                        time.sleep(rng.random() * .3)
                        s.shm.set("VIP_ADDR", yr.ip2int(vip))
                elif what == "stalled_heartbeat":
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2000)
            time.sleep(rng.choice([0, rng.random() * .05, rng.random() * .5]))
            sigs = [rng.choice(TERM)]
            if rng.random() < .3:
                sigs = [signal.SIGHUP, signal.SIGUSR1] + sigs
            end(p, s, "slave, " + what, sigs)
            p.case(("slave", what, len(sigs)))
            p.count("slave_" + what)
            if what == "real":
                stop.set()
                end(p, keep[0], "master of a slave that ended")
        finally:
            stop.set()
            for k in keep:
                k.cleanup() if isinstance(k, yr.Server) else k.close()
            if ms:
                ms.close()
            if th:
                th.join(20)
            s.cleanup()


def frozen_(p, kind):
    """Locks of a vanished client are released while readers keep the buckets."""
    for st2 in (("get", "bget") if kind == "text" else ("dump",)):
        with server(p, workers=4, buckets=1, counter__buckets=1, sndbuf=60000, gc_interval=3600) as s:
            frozen.big(s, 1)
            c = s.counter()
            for i in range(2000):
                c.send(counter_req(2, struct.pack(">IIH", 1, 9, 9) + b"cnt%06d" % i))
            for i in range(2000):
                c.recv()
            a, b = frozen.holder_gone(p, s, kind, st2)
            t = time.time() + 10
            n = s.shm.get("N_TIME") + 4
            while s.shm.get("N_TIME") < n and time.time() < t:
                time.sleep(.01)
            p.count("housekeeping_goes_on", s.shm.get("N_TIME") >= n)
            end(p, s, "%s, lock holder gone and readers stalled" % st2)
            p.case(("frozen", kind, st2))
            for x in (a, b, c):
                x.close()


def others(p, _):
    """SIGHUP and SIGUSR1 neither end the server nor disturb service, even when the log cannot be opened."""
    rng = p.rng
    for _ in range(p.thorough and 20 or 4):
        d = yr.workdir("log")
        sub = os.path.join(d, "sub")
        os.mkdir(sub)
        try:
            lf = os.path.join(sub, "log")
            with server(p, log__file='"%s"' % lf, sndbuf=0) as s:
                t, b, c = s.text(), s.bin(), s.counter()
                stop = threading.Event()
                sent = [0]

                def storm():
                    import random
                    r = random.Random(p.seed)
                    while not stop.is_set():
                        s.kill(r.choice([signal.SIGHUP, signal.SIGUSR1]))
                        sent[0] += 1
                        time.sleep(r.random() * .002)
                th = threading.Thread(target=storm, daemon=True)
                th.start()
                state = "present"
                try:
                    for i in range(p.thorough and 600 or 200):
                        x = rng.random()
                        if x < .05:
                            if state == "present":
                                if rng.random() < .5:
                                    os.rename(sub, sub + ".away")
                                    state = "away"
                                else:
                                    try:
                                        os.rename(lf, lf + ".1")
                                        os.mkdir(lf)
                                        state = "dir"
                                    except OSError:
                                        # opened again in between
                                        state = "present"
                            elif state == "away":
                                os.rename(sub + ".away", sub)
                                state = "present"
                            else:
                                os.rmdir(lf)
                                state = "present"
                            p.count("log_" + state)
                        k = b"k%d" % i
                        v = b"v%d" % rng.randrange(10 ** 9) * rng.choice([1, 1000])
                        p.check(t.set(k, v) == b"STORED", "set failed while signals arrive", s.diag)
                        g = b.cmd("Get", k)
                        p.check(g.status == 0 and g.val == v, "get failed while signals arrive", s.diag)
                        r1, r2, r3 = c.acquire(b"r", 3, 5), c.get(b"r"), c.release(b"r", 3)
                        p.check(r1.status == 0 and r2 == 3 and r3.status == 0, "counter failed while signals arrive", s.diag)
                        if rng.random() < .1:
                            n = s.text()
                            p.check(n.get(k)[2] == v, "new connection is not served while signals arrive")
                            n.reset()
                        p.case(("others", state))
                finally:
                    stop.set()
                    th.join()
                if not s.alive():
                    raise ServerDied(s.diag())
                p.count("other_signals", sent[0])
                end(p, s, "log file %s" % state, [rng.choice(TERM)])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    # a slave goes on replicating
    with server(p, vip=repl.VIP, gc_interval=2) as m:
        s = repl.slave(m, tag=p.prop)
        try:
            repl.wait_joined(m, 1)
            c = m.text()
            for i in range(100):
                c.set(b"k%d" % i, b"v%d" % i)
                s.kill(rng.choice([signal.SIGHUP, signal.SIGUSR1]))
                m.kill(rng.choice([signal.SIGHUP, signal.SIGUSR1]))
                if not s.alive():
                    raise ServerDied(s.diag())
            repl.synced(m, [s])
            p.check(s.log().count("Slave start") == 1 and "Slave end" not in s.log(), "signals interrupted replication", s.diag)
            end(p, m, "master with a slave")
            m.proc.wait()
            repl.promote(s)
            t = s.text()
            for i in range(100):
                g = t.get(b"k%d" % i)
                p.check(g is not None and g[2] == b"v%d" % i, "an update is missing on a slave that got signals", s.diag)
            p.case("slave signals", 100)
            end(p, s, "promoted slave")
        finally:
            s.cleanup()


def long_work(p, kind):
    """Termination with much received work not yet done: it is given up."""
    rng = p.rng
    with server(p, workers=rng.choice([1, 2, 4]), buckets=1009, counter__buckets=101, gc_interval=3600) as s:
        n = 60000
        t = s.text(timeout=120)
        for i in range(0, n, 5000):
            t.send(b"".join(b"set key%06d 0 0 1 noreply\r\n1\r\n" % x for x in range(i, i + 5000)))
        t.cmd(b"version")
        if kind == "counter":
            c = s.counter(timeout=120)
            for i in range(0, 20000, 2000):
                c.send(b"".join(yr.counter_req(2, b"\0\0\0\1\0\0\0\5\0\x0akey%07d" % x) for x in range(i, i + 2000)))
                for _ in range(2000):
                    c.recv()
        req = {"keys": b"keys none\r\n", "Keys": yr.bin_req("Keys", b"none"), "sizes": b"keys key\r\n", "counter": yr.counter_req(0x11)}[kind]
        cl = []
        for _ in range(5):
            c = s.counter() if kind == "counter" else s.text()
            c.s.setblocking(False)
            d = req * (2500000 // len(req))
            try:
                while d:
                    d = d[c.s.send(d):]
            except BlockingIOError:
                pass
            cl.append(c)
        time.sleep(rng.choice([.1, .5, 1]))
        end(p, s, "a long pipeline of %s" % kind)
        p.case(("long work", kind))


def run(ck):
    k = 6 if ck.thorough else 1
    ck.jobs(frozen_, ["text", "counter"])
    ck.jobs(others, [0, 1] * k)
    ck.jobs(long_work, ["keys", "Keys", "sizes", "counter"] * k)
    ck.jobs(moments, [18] * (8 * k))
    ck.jobs(slave, [10] * (4 * k))
    ck.jobs(startup, [10] * (2 * k))


if __name__ == "__main__":
    chk.main(PROP, "one case = one termination (distinct by what was going on) or one round trip among other signals", run)

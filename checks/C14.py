"""C14: no client input or workload causes memory errors or undefined behaviour (AddressSanitizer, UBSan)."""
import os
import random
import signal
import socket
import struct
import subprocess
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import chk
import conc
import repl
import reuse
import yr
import C06
from gen import Driver, Gen
from model import Cmd, Model
from yr import OP, T0, bin_req, counter_req, ConnClosed, Timeout, Inconclusive, ServerDied

PROP = "C14"
HEAP, MAXD = 4096, 16384


def server(p, variant="asan", **kw):
    conf = dict(heap_data_limit=HEAP, max_data_size=MAXD, workers=p.rng.choice([1, 2, 5]), buckets=p.rng.choice([1, 7, 1009]),
                counter__buckets=p.rng.choice([1, 101]), gc_interval=2, secure_erase=p.rng.choice(["true", "false"]), log__threshold="debug" if p.rng.random() < .1 else "info")
    conf.update(kw)
    return yr.Server(B.build(variant), tag=p.prop, **conf)


def finish(p, *servers):
    """Servers end without a report of a sanitizer."""
    for s in servers:
        if not s.alive():
            raise ServerDied(s.diag())
        for n in ("P_DELAY", "P_SHORT", "P_EINTR", "P_RECVERR"):
            s.shm.set(n, 0)
        p.observe(s)
    for s in servers:
        s.kill(signal.SIGTERM)
    for s in servers:
        try:
            rc = s.proc.wait(60)
        except subprocess.TimeoutExpired:
            s.proc.kill()
            s.proc.wait()
            rc = None
            p.count("not_ended_by_sigterm")     # that is C17's subject
        if s.san() or rc not in (0, None):
            p.fail("the server ended with status %r" % rc, s.diag())


def alive(s, wait=0):
    """A dying server takes a moment to write its report."""
    end = time.time() + wait
    while True:
        if not s.alive():
            raise ServerDied(s.diag())
        if time.time() >= end:
            return
        time.sleep(.05)


class Probe:
    """Another client that must be served all the time."""

    def __init__(self, s):
        self.s, self.t, self.c = s, s.text(timeout=60), s.counter(timeout=60)
        self.n = 0

    def __call__(self, p, what):
        if not self.s.alive():
            raise ServerDied("after %s\n%s" % (what, self.s.diag()))
        self.n += 1
        try:
            v = b"v%d" % self.n
            for i in range(20):
                a, g = self.t.set(b"probe", v), self.t.get(b"probe")
                if a != b"STORED" or (g is not None and g[2] != v) or self.c.get(b"nothing") is not None:
                    p.fail("another client is not served properly after %s" % what, "%r %r" % (a, g))
                if g:
                    break
                time.sleep(.01 * i)     # flushed by what those clients sent
            else:
                p.fail("another client does not get what it stores, after %s" % what)
        except (ConnClosed, OSError, TypeError) as e:
            for _ in range(100):
                if not self.s.alive():
                    raise ServerDied("after %s\n%s" % (what, self.s.diag()))
                time.sleep(.05)
            p.fail("another client is not served after %s: %r" % (what, e), self.s.diag())


# -- the parsers, in blocks of exactly the size of the input -----------------------------

def parsers(p, n):
    try:
        exe = B.build("asan", target="parse", harness=["parse.cpp"], wraps=False)
    except B.BuildError as e:
        # the parsers have other interfaces now; the server is still tested as a whole
        p.count("parser_harness_not_built")
        p.sample("parser harness: %s" % str(e)[-300:])
        return
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=77")
    seed = p.rng.randrange(1 << 30)
    r = subprocess.run([exe, str(seed), str(n)], capture_output=True, text=True, env=env, errors="replace")
    if r.returncode != 0:
        p.fail("the parsers fail on generated input (seed %d)" % seed, (r.stdout[-1500:] + r.stderr[-5000:]))
    d = dict(x.split("=") for x in r.stdout.split("\n", 1)[0].split())
    for l in r.stdout.splitlines():
        if l.startswith("S "):
            p.sigs.add(hash(("parse", l)))
    p.evals += int(d["parses"])
    p.count("parses", int(d["parses"]))


# -- hostile bytes on all ports --------------------------------------------------------------

def blob(r, keys):
    """Requests of any kind, whole, damaged or cut."""
    out = []
    for _ in range(r.choice([1, 1, 3, 20])):
        x = r.random()
        if x < .25:
            b = C06.bad_text(r, keys).data
        elif x < .35:
            b = C06.good_text(r, keys).data
        elif x < .6:
            b = C06.bad_bin(r, keys).data
        elif x < .65:
            b = r.randbytes(r.choice([1, 24, 100, 3000]))
        else:
            op = r.choice(sorted(OP.values()))
            key = r.choice(keys + [b"", b"K" * 250])
            ex = b"".join(r.choice([b"\0" * 4, b"\xff" * 4, b"\0\0\0\1", r.randbytes(4)]) for _ in range(r.choice([0, 0, 1, 2, 5])))
            val = r.choice([b"", b"1", b"99", b"x" * 50, b"y" * HEAP, b"z" * (HEAP + 1), b"w" * MAXD, b"w" * (MAXD + 1)])
            b = bin_req(op, key, ex, val, r.choice([0, 0, 1, 2**64 - 1]))
        if r.random() < .3:
            b = bytearray(b)
            for _ in range(r.randrange(1, 4)):
                if b:
                    b[r.randrange(min(len(b), 60))] = r.randrange(256)
            b = bytes(b)
        if r.random() < .1:
            b = b[:r.randrange(len(b) + 1)]
        out.append(b)
    return b"".join(out)


def cblob(r):
    out = []
    for _ in range(r.choice([1, 2, 10])):
        name = r.choice([b"a", b"b", b"", b"n" * 300, r.randbytes(5)])
        num = r.choice([0, 1, 2, 100, 2**31, 2**32 - 1])
        op = r.choice([0, 1, 2, 3, 0x10, 0x11, r.randrange(256)])
        body = {1: b"", 2: struct.pack(">II", num, r.choice([num, 2**32 - 1])), 3: struct.pack(">I", num)}.get(op)
        body = b"" if body is None else body + struct.pack(">H", len(name) if r.random() < .9 else r.randrange(65536)) + name
        b = bytearray(counter_req(op, body))
        if r.random() < .3:
            b[r.choice([0, 4, 5, 6, 7, r.randrange(len(b))])] = r.randrange(256)
        out.append(bytes(b[:r.randrange(len(b) + 1)] if r.random() < .1 else b))
    return b"".join(out)


def hostile(p, n):
    r = p.rng
    keys = [b"a", b"b", b"key%d" % r.randrange(100), b"1", b"2"]
    with server(p, workers=3) as s:
        s.shm.set("SEED", r.randrange(1, 1 << 30))
        s.shm.set("P_SHORT", r.choice([0, 10000, 30000]))
        s.shm.set("P_RECVERR", r.choice([0, 0, 100]))
        probe = None
        while probe is None:
            probe = Probe(s)
        recverr = s.shm.get("P_RECVERR")
        log = []
        for i in range(n):
            kind = r.choice(["mc", "mc", "mc", "ctr", "repl"])
            port = {"mc": s.port, "ctr": s.counter_port, "repl": s.repl_port}[kind]
            conns = []
            try:
                for _ in range(r.choice([1, 1, 3, 7])):
                    c = yr.connect(port, 10, rcvbuf=r.choice([0, 0, 4096]))
                    c.setblocking(False)
                    conns.append(c)
                for _ in range(r.choice([1, 2, 6])):
                    for c in conns:
                        b = blob(r, keys) if kind == "mc" or r.random() < .1 else cblob(r) if kind == "ctr" else r.choice([b"\0", b"x" * 100, r.randbytes(50)])
                        try:
                            m = c.send(b)
                            log.append((kind, b[:m]))
                        except (BlockingIOError, ConnectionError):
                            pass
                        p.case((kind, b[:2], min(len(b), 300) // 30), 1)
                    if r.random() < .5:
                        for c in conns:
                            try:
                                while r.random() < .9 and c.recv(65536):
                                    pass
                            except (BlockingIOError, ConnectionError):
                                pass
            except OSError:
                pass
            for c in conns:
                if r.random() < .5:
                    try:
                        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    except OSError:
                        pass
                c.close()
            s.shm.set("P_RECVERR", 0)
            try:
                if recverr:
                    probe = Probe(s)
                probe(p, "hostile bytes (%s)" % kind)
            except chk.Violation as e:
                raise chk.Violation(e.msg, "%s\n%s" % (e.detail, "\n".join(repr(x)[:300] for x in log[-30:])))
            except ServerDied as e:
                raise ServerDied("%s\nlast input:\n%s" % (e, "\n".join(repr(x)[:300] for x in log[-15:])))
            s.shm.set("P_RECVERR", recverr)
            s.shm.set("TIME", s.shm.get("TIME") + r.choice([0, 0, 1, 3]))
            del log[:-40]
        p.count("hostile_rounds", n)
        s.shm.set("P_RECVERR", 0)
        s._ctl = None
        s.force_gc(2, timeout=120)
        probe = Probe(s)
        probe(p, "everything")
        finish(p, s)


# -- correct clients, everything at once ----------------------------------------------------------

def storm(p, n, variant="asan", **kw):
    """Concurrent histories with collections, evictions, dumps, resets, slaves that come and go, signals."""
    r = p.rng
    with server(p, vip=repl.VIP, slave_timeout=10**8, memory_limit="300K", workers=r.choice([2, 5]), repl_buffer_size=2, gc_interval=1,
                max_data_size="1M", buckets=r.choice([7, 1009]), variant=variant, **kw) as m:
        stop = threading.Event()
        errs = []

        def guard(f):
            def g():
                try:
                    f(random.Random(r.randrange(1 << 40)))
                except Exception as e:
                    if not stop.is_set():
                        errs.append(e)
            t = threading.Thread(target=g, daemon=True)
            t.start()
            return t

        def clock(q):
            while not stop.wait(.004):
                m.shm.set("TIME", m.shm.get("TIME") + 1)

        def slaves(q):
            while not stop.is_set():
                s = repl.slave(m, tag=p.prop, exe=B.build(variant), wait=False)
                s.shm.set("P_SHORT", q.choice([0, 5000]))
                try:
                    stop.wait(q.uniform(.5, 2.5))
                    if not s.alive():
                        raise ServerDied("a slave\n" + s.diag())
                    x = q.random()
                    if x < .3:
                        repl.freeze(s)
                        stop.wait(.5)
                        repl.thaw(s)
                        s.kill(signal.SIGTERM)
                    elif x < .6:
                        s.kill(signal.SIGTERM)
                    else:
                        s.kill()
                    try:
                        s.proc.wait(60)
                    except subprocess.TimeoutExpired:
                        s.kill()
                        s.proc.wait()
                    if s.san() or s.proc.returncode not in (0, -9):
                        raise ServerDied("a slave\n" + s.diag())
                    p.count("slaves")
                finally:
                    s.cleanup()

        def raw_slaves(q):
            while not stop.wait(.05):
                cs = [yr.connect(m.repl_port, 20) for _ in range(q.randrange(1, 7))]
                for c in cs:
                    try:
                        if q.random() < .5:
                            c.sendall(b"\0" * q.randrange(1, 50))
                        c.settimeout(q.choice([.01, .1]))
                        while q.random() < .8 and c.recv(q.choice([1, 100, 100000])):
                            pass
                    except OSError:
                        pass
                for c in cs:
                    if q.random() < .5:
                        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    c.close()
                p.count("raw_slaves", len(cs))

        def dumper(q):
            while not stop.wait(.01):
                t, b, c = m.text(timeout=60), m.bin(timeout=60), m.counter(timeout=60)
                t.keys(q.choice([b"", b"k"]))
                for sub in (b"", b"settings", b"items", b"sizes", b"ops"):
                    t.stats(sub)
                b.req("Keys", q.choice([b"", b"k"]))
                while b.recv().key:
                    pass
                b.req("Stat", q.choice([b"", b"ops"]))
                while b.recv().key:
                    pass
                c.stats()
                c.dump()
                for x in (t, b, c):
                    # (a connection closed in order keeps its descriptor for minutes)
                    x.reset() if q.random() < .9 else x.close()
                if q.random() < .3:
                    m.proc.send_signal(q.choice([signal.SIGUSR1, signal.SIGHUP]))

        def big(q):
            while not stop.wait(.01):
                b = m.bin(timeout=60)
                for _ in range(30):
                    k = b"big%d" % q.randrange(5)
                    v = b"B" * q.choice([1, 100, HEAP, HEAP + 1, 60000, 300000])
                    x = q.random()
                    if x < .4:
                        b.set(k, v, exp=q.choice([0, 2, 30]))
                    elif x < .5:
                        b.cmd(q.choice(["Append", "Prepend"]), k, b"", v[:50000])
                    elif x < .6:
                        b.cmd("LaG", k)
                        if q.random() < .7:
                            b.cmd("RaU", k, bytes(8), v)
                    elif x < .65:
                        b.cmd("Flush", b"", struct.pack(">I", q.choice([0, 1])))
                    elif x < .7:
                        b.cmd("Touch", k, struct.pack(">I", q.choice([0, 1, 5])))
                    elif x < .8:
                        b.cmd("Delete", k)
                    else:
                        b.cmd("GaT", k, struct.pack(">I", q.choice([0, 10])))
                # leave with a large reply under way
                b.send(bin_req("Get", b"big0") * 20)
                b.reset()

        def resets(q):
            while not stop.wait(.005):
                cs = [yr.connect(q.choice([m.port, m.counter_port]), 20) for _ in range(q.randrange(1, 30))]
                for c in cs:
                    try:
                        c.send(q.choice([b"get a\r\n", b"lock k0\r\n", b"quit\r\n", counter_req(2, struct.pack(">IIH", 1, 2**31, 1) + b"r"), b"set k0 0 0 5\r\nab"]))
                    except OSError:
                        pass
                for c in cs:
                    if q.random() < .95:
                        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    c.close()
        th = [guard(f) for f in (clock, slaves, raw_slaves, dumper, big, resets)]
        try:
            for i in range(n):
                conc.perturb(m, r)
                q = subprocess.run([str(x) for x in [conc.tool() if i % 3 else conc.ctool(), "port", m.port if i % 3 else m.counter_port] + (["profile", i % 5, "heap", HEAP] if i % 3 else []) +
                                    ["seed", r.randrange(1, 1 << 30), "conns", 6, "keys", 3, "ops", 300, "pipe", 3, "resets", 5]], capture_output=True, text=True)
                # whether those histories are right is decided elsewhere (they assume that nobody else writes)
                p.count("driver_runs")
                if errs:
                    break
                alive(m)
                p.case(("storm", m.shm.get("ORDER_HASH")))
        finally:
            stop.set()
            conc.noise_off(m)
            for t in th:
                t.join(90)
        alive(m, 5 if errs else 0)
        if errs:
            raise errs[0]
        Probe(m)(p, "the storm")
        finish(p, m)


def modelled(p, n):
    """Sequential random commands of all kinds with the reference model, under AddressSanitizer."""
    r = p.rng
    with server(p) as s:
        conc.perturb(s, r)
        m = Model(T0, MAXD, HEAP)
        d = Driver(p, s, m, nconn=3)
        g = Gen(r, [b"k%d" % i for i in range(6)], MAXD, HEAP, flush=True)
        for i in range(n):
            d.batch(r.randrange(3), [g.cmd(d) for _ in range(r.choice([1, 5, 20]))], split=r.choice([None, 2, 5]))
            if r.random() < .02:
                d.advance(r.choice([1, 2, 10]))
            if r.random() < .01:
                d.gc()
            if r.random() < .02:
                d.reconnect(r.randrange(3))
            p.case(None)
        conc.noise_off(s)
        d.close()
        finish(p, s)


# -- a slave and what its master sends --------------------------------------------------------------

def slave_stream(p, n):
    """A slave that receives correct streams in any segmentation, from masters that break off anywhere, then serves."""
    r = p.rng
    ls = socket.socket()
    ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    port = yr.free_port()
    ls.bind((repl.VIP, port))
    ls.listen(10)
    ls.settimeout(60)
    with yr.Server(B.build("asan"), tag=PROP, vip=repl.VIP, own_vip=False, repl_port=port, start=False, heap_data_limit=HEAP,
                   max_data_size="1M", secure_erase=r.choice(["true", "false"])) as s:
        s.start(wait=False)
        for i in range(n):
            try:
                c, _ = ls.accept()
            except socket.timeout:
                if not s.alive():
                    raise ServerDied(s.diag())
                raise Inconclusive("the slave does not connect\n" + s.diag())
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            s.shm.set("P_SHORT", r.choice([0, 20000, 60000]))
            expect = {}
            out = []
            for _ in range(r.choice([1, 30, 300])):
                k = r.choice([b"k%d" % r.randrange(40), b"K" * 250, b"\0", r.randbytes(3)])
                x = r.random()
                if x < .6:
                    v = bytes([r.randrange(256)]) * r.choice([0, 1, 20, 23, 24, 25, HEAP, HEAP + 1, 10000, r.randrange(2000)])
                    if r.random() < .01:
                        v = b"L" * 900000
                    fl = r.randrange(1 << 32)
                    # a length of zero occurs as well: the text protocol allows empty items
                    out.append(bin_req("SetQ", k, struct.pack(">II", fl, 0), v))
                    expect[k] = (fl, v)
                elif x < .75:
                    out.append(bin_req("DeleteQ", k))
                    expect.pop(k, None)
                elif x < .8:
                    out.append(bin_req("FlushQ"))
                    expect.clear()
                else:
                    out.append(bin_req("Touch", k, struct.pack(">I", 0)))
                if r.random() < .05:
                    out.append(b"")
            data = b"".join(out)
            whole = len(data)
            cut = len(data) if i == n - 1 or r.random() < .5 else r.randrange(len(data) + 1)
            data = data[:cut]
            pos = 0
            try:
                while pos < len(data):
                    z = r.choice([1, 3, 24, 1000, 100000, 3 << 20])
                    c.sendall(data[pos:pos + z])
                    pos += z
                    if r.random() < .02:
                        time.sleep(.001)
            except OSError:
                if not s.alive():
                    raise ServerDied(s.diag())
                p.fail("the slave closed its connection to the master", s.diag())
            p.case(("stream", len(out) > 50, cut == len(data)), len(out))
            last = i == n - 1
            if last:
                # received everything?
                end = time.time() + 60
                c.setblocking(False)
                while repl.queues(port) and time.time() < end:
                    try:
                        c.recv(1 << 16)         # heartbeats
                    except BlockingIOError:
                        time.sleep(.02)
                    except ConnectionError:
                        break
                s.intervals(3)
            if r.random() < .5:
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            if last:
                ls.close()
            c.close()
            if not s.alive():
                raise ServerDied(s.diag())
        s.shm.set("P_SHORT", 0)
        repl.promote(s, 120)
        Probe(s)(p, "becoming the master")
        if cut == whole:
            b = s.bin(timeout=60)
            for k, (fl, v) in sorted(expect.items())[:100]:
                x = b.cmd("Get", k)
                if x.status or x.val != v or x.extras != struct.pack(">I", fl):
                    p.fail("the slave does not have what its master sent", "key %r: expected flags %d, %d bytes; got status %d, extras %r, %d bytes\n%s" % (
                        k, fl, len(v), x.status, x.extras, len(x.val), s.diag()))
                p.count("objects_compared")
        finish(p, s)


def job(p, arg):
    arg[0](p, arg[1])


def run(ck):
    os.environ["YV_VARIANT"] = "asan"       # build("plain") in the workloads of other checks
    B.build("asan")
    conc.tool(), conc.ctool()
    args = []
    for k, v in sorted(reuse.catalogue(["C%02d" % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)]).items()):
        if k in (("C11", "evict"), ("C11", "churn"), ("C05", "matrix"), ("C02", "matrix"), ("C06", "prefix")) and not ck.thorough:
            continue
        ck.rng.shuffle(v)
        args += [(reuse.job, k + (x,)) for x in v[:ck.scale(1, 12)]]
    more = args
    args = [(storm, ck.scale(20, 300))] * ck.scale(3, 8)
    args += [(hostile, ck.scale(250, 5000))] * ck.scale(5, 16)
    args += [(modelled, ck.scale(600, 8000))] * ck.scale(3, 8)
    args += [(slave_stream, ck.scale(12, 100))] * ck.scale(2, 8)
    args += [(parsers, ck.scale(30000, 2000000))] * ck.scale(4, 8)
    ck.jobs(job, args + more)


if __name__ == "__main__":
    chk.main(PROP, "no report of AddressSanitizer or UBSan, no abnormal end and no unserved client while the server (all ports, both roles) "
             "gets generated hostile bytes, correct workloads and connection faults; the parsers additionally run on input in blocks of exactly "
             "its size, and in the server the part of a receive buffer after the received bytes is poisoned", run,
             assumptions=["failures of the temporary directory (full, not writable) are excluded", "undefined behaviour that neither sanitizer reports is not seen",
                          "streams to a slave come from a correct master"])

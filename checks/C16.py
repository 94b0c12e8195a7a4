"""C16: connections are accounted, limited and isolated from each other's failures."""
import os
import select
import signal
import socket
import struct
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import frozen
import yr
from yr import ConnClosed, Inconclusive, ServerDied, Timeout, bin_req, counter_req, rst

PROP = "C16"
HEAP = 4096
WAIT = 60


def server(p, **kw):
    conf = dict(heap_data_limit=HEAP, max_data_size="4M", workers=p.rng.choice([1, 2, 4]), buckets=p.rng.choice([7, 1009]),
                counter__buckets=101, gc_interval=3600, slave_timeout=10 ** 8)
    conf.update(kw)
    return yr.Server(B.build("plain"), tag=p.prop, **conf)


def sockets_of(s):
    """(sockets, all descriptors) of the server."""
    d = "/proc/%d/fd" % s.proc.pid
    n = k = 0
    for f in os.listdir(d):
        try:
            if os.readlink(os.path.join(d, f)).startswith("socket:"):
                n += 1
            k += 1
        except OSError:
            pass
    return n, k


class Cl:
    """One client connection whose service can be checked."""
    N = 0

    def __init__(self, s, kind):
        Cl.N += 1
        self.s, self.kind, self.n = s, kind, 0
        self.name = b"%s-%d" % (kind.encode(), Cl.N)
        self.c = {"text": s.text, "bin": s.bin, "counter": s.counter}[kind](timeout=WAIT)

    def use(self):
        """A round trip with a result no other request produces."""
        self.n += 1
        v = b"%s/%d" % (self.name, self.n)
        if self.kind == "text":
            r = self.c.set(self.name, v)
            g = self.c.get(self.name)
            if r != b"STORED" or g is None or isinstance(g, bytes) or g[2] != v:
                raise chk.Violation("wrong service of a connection: set %r, get %r" % (r, g), v)
        elif self.kind == "bin":
            r = self.c.set(self.name, v)
            g = self.c.cmd("Get", self.name)
            if r.status != 0 or g.status != 0 or g.val != v:
                raise chk.Violation("wrong service of a connection: set %r, get %r" % (r, g), v)
        else:
            n = self.n % 900 + 1
            r = self.c.acquire(self.name, n, 1000)
            g = self.c.get(self.name)
            r2 = self.c.release(self.name, n)
            g2 = self.c.get(self.name)
            if r.status or g != n or r2.status or g2 != 0:
                raise chk.Violation("wrong service of a counter connection", (r, g, r2, g2, n))

    def end(self, how, rng):
        """Ways in which the server frees the connection."""
        c = self.c
        try:
            if how == "quit":
                if self.kind == "text":
                    c.send(b"quit\r\n")
                else:
                    c.req(rng.choice(["Quit", "QuitQ"]))
                if not c.closed_by_peer(WAIT):
                    raise chk.Violation("a connection is still open %d s after quit" % WAIT)
            elif how == "partial":
                if self.kind == "text":
                    c.send(rng.choice([b"ge", b"set a 0 0 100\r\nabc", b"get " + b"k" * 100, b"set x 0 0 3\r\nabc\r"]))
                elif self.kind == "bin":
                    r = bin_req("Set", b"part", b"\0" * 8, b"v" * 100)
                    c.send(r[:rng.randrange(1, len(r))])
                else:
                    r = counter_req(2, struct.pack(">IIH", 1, 2, 5) + b"abcde")
                    c.send(r[:rng.randrange(1, len(r))])
                if rng.random() < .5:
                    time.sleep(rng.random() * .01)
            elif how == "unread":
                if self.kind == "text":
                    c.send(b"get %s\r\nstats\r\n" % self.name * 20)
                elif self.kind == "bin":
                    c.send(bin_req("Get", self.name) * 30)
                else:
                    c.send(counter_req(0x10) * 30)
                if rng.random() < .5:
                    time.sleep(rng.random() * .02)
            elif how == "halfclose":
                c.s.shutdown(socket.SHUT_WR)
                time.sleep(rng.random() * .02)
            elif how == "urgent":
                c.s.send(b"x", socket.MSG_OOB)
                time.sleep(rng.random() * .005)
        except (ConnClosed, OSError):
            pass
        c.reset()


HOWS = {"text": ["quit", "rst", "partial", "unread", "halfclose", "urgent"],
        "bin": ["quit", "rst", "partial", "unread", "halfclose"],
        "counter": ["rst", "partial", "unread", "halfclose"]}


def burst(s, kind, n, interleave):
    """Connect n times as fast as possible, then see which of them are served."""
    conns = []
    for _ in range(n):
        conns.append(Cl(s, kind))
        if interleave:
            try:
                conns[-1].c.send(b"")
            except ConnClosed:
                pass
    good, bad = [], 0
    for c in conns:
        try:
            c.use()
            good.append(c)
        except (ConnClosed, OSError):
            c.c.close()
            bad += 1
    return good, bad


def blocked(p, s, c):
    """Make the server block while it sends to this client."""
    k = b"big-" + c.name
    try:
        if c.kind == "text":
            c.c.set(k, b"B" * 60000)
            c.c.send(b"get %s\r\n" % k * 100)
        elif c.kind == "bin":
            c.c.set(k, b"B" * 60000)
            c.c.send(bin_req("Get", k) * 100)
        else:
            c.c.send(counter_req(0x10) * 20000)
    except (ConnClosed, Timeout, OSError):
        pass
    time.sleep(.02)


def limits(p, kind):
    """Random walk over connects and ends against the exact number of connections."""
    rng = p.rng
    port = "counter" if kind == "counter" else "mc"
    mx = rng.choice([0, 2, 3, 5, 8, 20])
    kw = {"counter__max_connections" if port == "counter" else "max_connections": mx}
    if rng.random() < .3:
        kw["max_connections" if port == "counter" else "counter__max_connections"] = 1 if port != "counter" else 4
    with server(p, workers=rng.choice([2, 4]), sndbuf=rng.choice([0, 0, 60000]), **kw) as s:
        mon = Cl(s, "counter" if port == "counter" else "text")

        def numbers():
            st = mon.c.stats()
            g = (lambda k: int(st[k])) if port == "counter" else (lambda k: int(st[k.encode()]))
            return g("curr_connections"), g("total_connections")

        def settle(want, what):
            end = time.time() + WAIT
            while True:
                cur, tot = numbers()
                if cur == want:
                    return cur, tot
                if time.time() > end:
                    p.fail("%d connections are reported %d s after %s; %d are open" % (cur, WAIT, what, want), s.diag())
                time.sleep(.002)
        total = settle(1, "start")[1]
        s.intervals(3)
        end = time.time() + WAIT
        base = sockets_of(s)[0]
        live = []
        for step in range(p.thorough and 1500 or 250):
            act = rng.random()
            if act < .4 or not live:
                n = rng.randrange(1, 60) if mx == 0 and rng.random() < .3 else rng.randrange(1, (mx or 8) + 4)
                k = kind if kind != "mixed" else rng.choice(["text", "bin"])
                good, bad = burst(s, k, n, rng.random() < .3)
                room = n if mx == 0 else min(n, mx - 1 - len(live))
                p.check(len(good) == room, "%d of %d new connections were served, with %d open and a maximum of %d; %d should be"
                        % (len(good), n, 1 + len(live), mx, room), s.diag)
                p.count("admitted", len(good))
                p.count("refused", bad)
                live += good
                total += len(good)
                p.case((kind, mx, "burst", n, len(live), bad))
            elif act < .85:
                n = rng.choice([1, 1, 2, len(live), rng.randrange(1, len(live) + 1)])
                rng.shuffle(live)
                for c in live[:n]:
                    how = rng.choice(HOWS[c.kind])
                    if rng.random() < .03:
                        how = "blocked"
                        blocked(p, s, c)
                    p.count("end_" + how)
                    c.end(how, rng)
                    p.case((kind, mx, "end", how, n))
                live = live[n:]
            else:
                for c in rng.sample(live, min(len(live), 10)):
                    c.use()
                    p.count("served")
            cur, tot = settle(1 + len(live), "step %d" % step)
            p.check(tot == total, "total_connections is %d after %d connections were accepted" % (tot, total), s.diag)
            if not s.alive():
                raise ServerDied(s.diag())
        for c in live:
            c.use()
        p.count("served", len(live))
        for c in live:
            c.end("rst", rng)
        settle(1, "all others left")
        end = time.time() + WAIT
        while sockets_of(s)[0] != base:
            if time.time() > end:
                p.fail("the server holds %d sockets, %d before the workload: descriptors of ended connections are not closed"
                       % (sockets_of(s)[0], base), s.diag())
            time.sleep(.02)
        p.observe(s)
        p.sample({"kind": kind, "max": mx, "total": total})


def slaves(p, _):
    """The replication port: at most 5 slaves, and a place is free again when one left."""
    rng = p.rng
    with server(p, gc_interval=2) as s:
        mon = Cl(s, "text")
        mon.use()
        live = []
        joined = 0
        for step in range(p.thorough and 60 or 20):
            if rng.random() < .5 or not live:
                n = rng.randrange(1, 9)
                new = [yr.connect(s.repl_port, timeout=WAIT) for _ in range(n)]
                room = min(n, 5 - len(live))
                end = time.time() + WAIT
                closed = set()
                while len(closed) < n - room and time.time() < end:
                    for f in select.select([x for x in new if x not in closed], [], [], .05)[0]:
                        try:
                            if f.recv(65536) == b"":
                                closed.add(f)
                        except OSError:
                            closed.add(f)
                joined += room
                while s.log().count("has joined") < joined:
                    if time.time() > end:
                        p.fail("%d of %d replication connections should be admitted with %d slaves connected" % (room, n, len(live)), s.diag())
                    time.sleep(.01)
                s.intervals(2)
                for f in new:
                    if f in closed:
                        continue
                    try:
                        while select.select([f], [], [], 0)[0]:
                            if f.recv(1 << 20) == b"":
                                closed.add(f)
                                break
                    except OSError:
                        closed.add(f)
                p.check(len(closed) == n - room, "%d of %d replication connections were refused with %d slaves connected"
                        % (len(closed), n, len(live)), s.diag)
                live += [f for f in new if f not in closed]
                for f in closed:
                    f.close()
                p.case(("slaves", n, len(live)))
                p.count("slaves_admitted", room)
                p.count("slaves_refused", len(closed))
            else:
                n = rng.randrange(1, len(live) + 1)
                rng.shuffle(live)
                for f in live[:n]:
                    if rng.random() < .3:
                        try:
                            f.send(b"\0" * rng.randrange(1, 5000))
                        except OSError:
                            pass
                    rst(f)
                live = live[n:]
                s.intervals(4)
                time.sleep(.02)
                s.intervals(2)
                p.count("slaves_left", n)
            mon.use()
            if rng.random() < .3:
                s.shm.set("TIME", s.now() + 5)
            if not s.alive():
                raise ServerDied(s.diag())
        for f in live:
            rst(f)
        p.observe(s)


def emfile(p, how):
    """Descriptors run out: those connected are served exactly, and the others as soon as there are descriptors."""
    rng = p.rng
    lim = rng.randrange(56, 90)
    with server(p, rlimit_nofile=lim, gc_interval=2, log__file='"/dev/null"', workers=rng.choice([1, 2, 4])) as s:
        old = [Cl(s, k) for k in ("text", "bin", "counter", "text", "counter")]
        for c in old:
            c.use()
        ctl = s.ctl()
        text = old[0].c
        s.intervals(3)

        def curr():
            return int(s.stats()[b"curr_connections"]), int(old[4].c.stats()["curr_connections"])

        def settle(want, what):
            end = time.time() + WAIT
            while curr() != want:
                if time.time() > end:
                    p.fail("connections reported: %r, open: %r, %d s after %s" % (curr(), want, WAIT, what), s.diag())
                time.sleep(.005)
        settle((4, 2), "start")
        files = 0
        stored = {}
        for rnd in range(p.thorough and 6 or 2):
            base = sockets_of(s)[1]
            if how == "files":
                # file-backed items take the descriptors
                i = 0
                while i < lim + 20:
                    k = b"file-%d" % i
                    v = b"%d." % i * (HEAP // 2 + i)
                    p.check(text.set(k, v) == b"STORED", "set of a large value failed without descriptors", s.diag)
                    stored[k] = v
                    i += 1
                p.count("large_values_without_descriptors", lim + 20 - (lim - base))
            # connections take the rest, and wait in the backlog
            kinds = [rng.choice(["text", "bin", "counter"]) for _ in range(lim - sockets_of(s)[1] + rng.randrange(5, 25))]
            new = [Cl(s, k) for k in kinds]
            for c in new:
                if c.kind == "text":
                    c.c.send(b"get no-such\r\n")
                elif c.kind == "bin":
                    c.c.send(bin_req("Get", b"no-such"))
                else:
                    c.c.send(counter_req(1, struct.pack(">H", 3) + b"abc"))
            end = time.time() + WAIT
            while sockets_of(s)[1] < lim:
                if time.time() > end:
                    raise Inconclusive("descriptors do not run out: %r of %d" % (sockets_of(s), lim))
                time.sleep(.01)
            time.sleep(.05)
            # service of the connected clients
            for i in range(p.thorough and 60 or 20):
                for c in old:
                    c.use()
                k = b"big-%d" % rng.randrange(6)
                v = stored.get(k)
                o = rng.randrange(6)
                nv = b"%d:" % rng.randrange(10 ** 6) * rng.choice([10, HEAP // 3, 5000, 50000])
                if o == 0 or v is None:
                    p.check(text.set(k, nv) == b"STORED", "set failed without descriptors", s.diag)
                    stored[k] = nv
                elif o == 1:
                    p.check(text.store(b"append", k, nv[:3000]) == b"STORED", "append failed without descriptors", s.diag)
                    stored[k] = v + nv[:3000]
                elif o == 2:
                    p.check(text.store(b"prepend", k, nv[:3000]) == b"STORED", "prepend failed without descriptors", s.diag)
                    stored[k] = nv[:3000] + v
                elif o == 3:
                    p.check(text.cmd(b"delete " + k) == b"DELETED", "delete failed without descriptors", s.diag)
                    del stored[k]
                elif o == 4:
                    r = old[1].c.cmd("GetQ", k)
                    p.check(r.status == 0 and r.val == v, "get without descriptors returns wrong data", lambda: (r, len(v)))
                else:
                    r = text.get(k)
                    p.check(r is not None and r[2] == v, "get without descriptors returns wrong data", lambda: (r and len(r[2]), len(v)))
                p.case(("emfile", how, o, len(v or b"") > HEAP, len(nv) > HEAP))
            keys = set(text.keys(b"big-"))
            p.check(keys == {k for k in stored if k.startswith(b"big-")}, "wrong keys without descriptors", lambda: keys)
            if rng.random() < .7:
                s.proc.send_signal(signal.SIGUSR1)
            if rng.random() < .7:
                s.force_gc()
            for c in old:
                c.use()
            # free descriptors: the waiting connections are served
            served = set()

            def poll(t):
                for f in select.select([c.c.s for c in new if c not in served], [], [], t)[0]:
                    c = [c for c in new if c.c.s is f][0]
                    if c.kind == "text":
                        p.check(c.c.line() == b"END\r\n", "wrong answer to a connection that waited for descriptors")
                    elif c.kind == "bin":
                        r = c.c.recv()
                        p.check(r.status == 1, "wrong answer to a connection that waited for descriptors", lambda: r)
                    else:
                        r = c.c.recv()
                        p.check(r.status == 1, "wrong answer to a connection that waited for descriptors", lambda: r)
                    served.add(c)
            end = time.time() + .5
            while time.time() < end:
                poll(.1)
            if how == "files":
                p.count("answered_at_limit", len(served))
            waiting = len(new) - len(served)
            p.count("waiting_for_descriptors", waiting)
            p.count("answered_at_limit_total", len(served))
            if how == "files" and (rng.random() < .8 or not served):
                for k in list(stored):
                    if k.startswith(b"file-"):
                        p.check(text.cmd(b"delete " + k) == b"DELETED", "delete failed without descriptors", s.diag)
                        del stored[k]
                s.force_gc()
            else:
                while any(c not in served for c in new):
                    done = [c for c in new if c in served]
                    for c in done[:rng.randrange(1, 8)]:
                        c.end(rng.choice(HOWS[c.kind]) if c.kind == "counter" or rng.random() < .5 else "quit", rng)
                        new.remove(c)
                    n = len(served)
                    end = time.time() + WAIT
                    while len(served) == n:
                        poll(.2)
                        if time.time() > end:
                            p.fail("connections are not accepted after descriptors became available (%d waiting)"
                                   % (len(new) - len([c for c in new if c in served])), s.diag())
            end = time.time() + WAIT
            while any(c not in served for c in new):
                poll(.2)
                if time.time() > end:
                    p.fail("connections are not served after descriptors became available (%d waiting)"
                           % len([c for c in new if c not in served]), s.diag())
            for c in new:
                c.use()
            for c in new:
                c.end(rng.choice(HOWS[c.kind]), rng)
            settle((4, 2), "running out of descriptors")
            p.count("served_after_wait", waiting)
        for k, v in stored.items():
            g = text.get(k)
            p.check(g is not None and g[2] == v, "data stored without descriptors is wrong", k)
        for k in list(stored):
            text.cmd(b"delete " + k)
        s.force_gc()
        for c in old:
            c.use()
        end = time.time() + WAIT
        while files_of(s):
            if time.time() > end:
                p.fail("descriptors of deleted items are not closed: %r" % files_of(s), s.diag())
            time.sleep(.02)
        p.observe(s)


def files_of(s):
    """Temporary files the server holds open."""
    d = "/proc/%d/fd" % s.proc.pid
    out = []
    for f in os.listdir(d):
        try:
            l = os.readlink(os.path.join(d, f))
        except OSError:
            continue
        if l.startswith(os.path.join(s.wd, "tmp")):
            out.append(l)
    return out


def storm(p, fault):
    """Parallel connects and ends with injected failures; a monitor connection is never disturbed."""
    rng = p.rng
    mx = rng.choice([0, 6, 12])
    with server(p, max_connections=mx, counter__max_connections=mx, workers=rng.choice([1, 2, 4]), log__file='"/dev/null"') as s:
        mons = [Cl(s, "text"), Cl(s, "bin"), Cl(s, "counter")]
        for m in mons:
            m.use()
        ctl = s.ctl()
        ctl.cmd(b"version")
        if "accept" in fault:
            s.shm.set("P_ACCEPTERR", rng.choice([1000, 10000, 30000]))
        if "delay" in fault:
            s.shm.set("P_DELAY", 3000)
            s.shm.set("DELAY_US", 300)
        if "short" in fault:
            s.shm.set("P_SHORT", 20000)
            s.shm.set("P_EINTR", 20000)
        if "recv" in fault:
            # every connection may fail at any time, including those of the monitors
            s.shm.set("P_RECVERR", 300)
        lock = threading.Lock()
        inside = {"mc": 3, "counter": 1}
        peak = {"mc": 0, "counter": 0}
        err = []
        cnt = {"served": 0, "refused": 0, "lost": 0}

        def client(i):
            import random
            r = random.Random("%s/%d" % (p.seed, i))
            for _ in range(p.thorough and 1500 or 300):
                if err:
                    return
                kind = r.choice(["text", "bin", "counter"])
                port = "counter" if kind == "counter" else "mc"
                entered = False
                try:
                    c = Cl(s, kind)
                except OSError as e:
                    err.append("connect failed: %s" % e)
                    return
                try:
                    c.use()
                    with lock:
                        inside[port] += 1
                        peak[port] = max(peak[port], inside[port])
                        entered = True
                        cnt["served"] += 1
                    for _ in range(r.randrange(4)):
                        c.use()
                except (ConnClosed, OSError):
                    with lock:
                        cnt["lost" if entered else "refused"] += 1
                    if entered and "recv" not in fault:
                        err.append("an open connection was closed by the server")
                except Timeout:
                    err.append("a connection was neither served nor closed within %d s" % WAIT)
                except chk.Violation as e:
                    err.append(e.msg)
                if entered:
                    with lock:
                        inside[port] -= 1
                c.end(r.choice(HOWS[kind]), r)
        ths = [threading.Thread(target=client, args=(i,)) for i in range(10)]
        for t in ths:
            t.start()
        n = 0
        try:
            while any(t.is_alive() for t in ths):
                for i, m in enumerate(mons):
                    try:
                        m.use()
                    except (ConnClosed, OSError) as e:
                        if not s.alive():
                            raise ServerDied(s.diag())
                        if "recv" not in fault:
                            p.fail("a connection was closed because others failed", s.diag())
                        try:
                            m.c.reset()
                            mons[i] = Cl(s, m.kind)
                        except OSError:
                            pass
                    n += 1
                if "recv" not in fault:
                    v = int(ctl.stats()[b"curr_connections"])
                    p.check(mx == 0 or v <= mx, "%d connections are reported; the maximum is %d" % (v, mx))
                    p.check(v >= 3, "%d connections are reported while more are open" % v)
        finally:
            if not s.alive():
                raise ServerDied(s.diag())
            if p.thorough:
                pass
            for t in ths:
                t.join(600)
        if err:
            if not s.alive():
                raise ServerDied(s.diag())
            p.fail(err[0], s.diag())
        for k in ("mc", "counter"):
            p.check(mx == 0 or "recv" in fault or peak[k] <= mx, "%d connections were open and served at once; the maximum is %d" % (peak[k], mx))
        for w in ("P_ACCEPTERR", "P_DELAY", "P_SHORT", "P_EINTR", "P_RECVERR"):
            s.shm.set(w, 0)
        for m in mons:
            m.end("rst", rng)
        try:
            ctl.reset()
        except OSError:
            pass
        s._ctl = None
        # everything is free again
        end = time.time() + WAIT
        while True:
            m = c2 = None
            try:
                m, c2 = Cl(s, "text"), Cl(s, "counter")
                a = int(m.c.stats()[b"curr_connections"])
                b = int(c2.c.stats()["curr_connections"])
                if (a, b) == (1, 1):
                    break
                what = "connections reported: %r; open: (1, 1)" % ((a, b),)
            except (ConnClosed, OSError) as e:
                what = "connections are refused (%s)" % e
            for x in (m, c2):
                if x:
                    x.c.reset()
            if time.time() > end:
                p.fail("%d s after all other clients left: %s" % (WAIT, what), s.diag())
            time.sleep(.05)
        for kind, first in (("bin", m), ("counter", c2)):
            good, bad = burst(s, kind, (mx or 20) + 3, False)
            want = mx - 1 if mx else 23
            p.check(len(good) == want, "after a storm of connections %d of %d new ones are served; %d should be"
                    % (len(good), (mx or 20) + 3, want), s.diag)
            first.use()
            for c in good:
                c.c.reset()
        for k, v in cnt.items():
            p.count("storm_" + k, v)
        p.count("monitor_round_trips", n)
        p.case((fault, mx, tuple(peak.values())), cnt["served"] + n)
        p.sample({"fault": fault, "max": mx, "peak": peak, "counts": cnt})
        p.observe(s)


def isolated(p, kind):
    """A client vanishes while it holds locks and others do not read: everybody else is served."""
    for st2 in (("get", "bget") if kind == "text" else ("dump",)):
        # the item with the lock and those of the monitors are in different buckets for all but unlucky seeds of the hash
        with server(p, workers=4, heap_data_limit="1M", buckets=1009, counter__buckets=1009, sndbuf=60000) as s:
            frozen.big(s, 1)
            c = s.counter()
            for i in range(3000):
                c.send(counter_req(2, struct.pack(">IIH", 1, 9, 9) + b"cnt%06d" % i))
            for i in range(3000):
                c.recv()
            mon = s.text(timeout=WAIT)
            mon.cmd(b"version")
            a, b = frozen.holder_gone(p, s, kind, st2)
            for _ in range(20):
                p.check(mon.cmd(b"version").startswith(b"VERSION"), "wrong answer")
                n = s.text(timeout=WAIT)
                p.check(n.cmd(b"version").startswith(b"VERSION"), "wrong answer")
                n.reset()
            end = time.time() + WAIT
            while int(mon.stats()[b"curr_connections"]) > 3:
                if time.time() > end:
                    p.fail("connections are not freed while others do not read", s.diag())
                time.sleep(.01)
            s.intervals(5, WAIT)
            a.reset()
            b.reset()
            # afterwards everything is as before, and the lock is free
            end = time.time() + WAIT
            m = s.bin(timeout=WAIT)
            while kind == "text" and m.cmd("Lock", b"big0").status != 0:
                if time.time() > end:
                    p.fail("the lock of a vanished client is not released", s.diag())
                time.sleep(.05)
            while kind != "text" and s.counter().get(b"res0") not in (0, None):
                if time.time() > end:
                    p.fail("the resources of a vanished client are not released", s.diag())
                time.sleep(.05)
            p.case(("isolated", kind, st2))
            p.observe(s)


def oversize(p, _):
    """A request that never ends is cut off; the connection's resources are freed."""
    with server(p) as s:
        mon = Cl(s, "text")
        mon.use()
        for kind in ("text", "bin", "counter"):
            c = Cl(s, kind)
            c.use()
            head = {"text": b"set over 0 0 %d\r\n" % (1 << 30), "bin": struct.pack(">BBHBBHIIQ", 0x80, 1, 4, 8, 0, 0, 1 << 30, 0, 0),
                    "counter": struct.pack(">BBBBI", 0x90, 2, 0, 0, 1 << 30) + b"\0" * 4}[kind]
            closed = False
            try:
                c.c.send(head)
                for _ in range(100):
                    c.c.send(b"o" * (1 << 20))
                mon.use()
                closed = c.c.closed_by_peer(WAIT)
            except ConnClosed:
                closed = True
            mon.use()
            p.count("oversized_cut" if closed else "oversized_kept")
            c.c.reset()
            p.case(("oversize", kind, closed))
        end = time.time() + WAIT
        while int(mon.c.stats()[b"curr_connections"]) != 1:
            if time.time() > end:
                p.fail("connections remain after oversized requests", s.diag())
            time.sleep(.01)
        p.observe(s)


def run(ck):
    k = 4 if ck.thorough else 1
    ck.jobs(limits, ["text", "mixed", "counter", "bin", "mixed", "counter"] * k)
    ck.jobs(storm, ["accept", "accept delay", "short delay", "recv accept", "accept", "recv short"] * k, procs=4)
    ck.jobs(emfile, ["conns", "files", "conns", "files"] * k)
    ck.jobs(slaves, [0, 1] * k)
    ck.jobs(isolated, ["text", "counter"])
    ck.jobs(oversize, [0])


if __name__ == "__main__":
    chk.main(PROP, "one case = one burst, ending, operation without descriptors or storm; distinct by kind, limit, way of ending and "
             "resulting number of connections", run)

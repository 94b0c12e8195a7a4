"""C10: counter resources are never over-allocated, lost or leaked."""
import os
import socket
import struct
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import yr
from yr import T0, counter_req, Inconclusive

PROP = "C10"
M32 = 1 << 32
OK, NOTFOUND, INVALID, NA, NOTACQ = 0, 1, 4, 0x21, 0x22


def history(p, n):
    r = p.rng
    clock = r.choice([0, 0, 1, 3])
    with yr.Server(B.build("plain"), tag=PROP, workers=r.choice([2, 4, 8]), counter__stat_interval=10 if clock else 10**9,
                   counter__buckets=r.choice([7, 211])) as s:
        for i in range(n):
            conc.perturb(s, r)
            conc.drive(p, s, "counter", r.randrange(1, 1 << 30), keys=r.choice([1, 2, 4]), ops=r.choice([300, 600]),
                       resets=r.choice([0, 2, 8]), clock=clock, big=r.choice([0, 0, 1]))
        conc.noise_off(s)
        p.observe(s)


class CModel:
    """Counters, what each connection holds, and the maximum within the current interval."""

    def __init__(self, now, interval):
        self.now, self.iv = now, interval
        self.c = {}         # name -> [consumption, max, interval of the last change]
        self.held = {}      # conn -> {name: n}

    def cur(self):
        return self.now // self.iv

    def optional(self, k):
        x = self.c[k]
        return x[0] == 0 and x[2] < self.cur()

    def change(self, k, d):
        x = self.c[k]
        before = x[0]
        x[0] += d
        x[1] = max(x[0], before if x[2] < self.cur() else x[1])
        x[2] = self.cur()

    def max(self, k):
        x = self.c[k]
        return x[0] if x[2] < self.cur() else x[1]

    def acquire(self, conn, k, n, mx):
        """Set of allowed statuses; applies the effect."""
        if n == 0 or mx < n or not k:
            return {INVALID}
        if k in self.c and not self.optional(k):
            if self.c[k][0] + n > mx:
                return {NA}
            self.change(k, n)
        else:
            self.c[k] = [n, n, self.cur()]
        h = self.held.setdefault(conn, {})
        h[k] = h.get(k, 0) + n
        return {OK}

    def release(self, conn, k, n):
        if not k:
            return {INVALID}
        if k not in self.c:
            return {NOTFOUND}
        if self.optional(k):
            return {NOTFOUND, NOTACQ} if n else {NOTFOUND, NOTACQ, OK}
        h = self.held.get(conn, {}).get(k, 0)
        if n > h:
            return {NOTACQ}
        if n == 0 and h == 0:
            return {OK, NOTACQ}
        self.change(k, -n)
        self.held[conn][k] = h - n
        return {OK}

    def gone(self, conn):
        for k, n in self.held.pop(conn, {}).items():
            if n:
                self.change(k, -n)


def sequential(p, arg):
    n, interval = arg
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, workers=r.choice([1, 3]), counter__stat_interval=interval, counter__buckets=r.choice([3, 101])) as s:
        m = CModel(T0, interval)
        names = [b"a", b"b", b"\0\xff\r\n", b"x" * 300, b"L" * 65525, b"c"]
        conns = [s.counter() for _ in range(4)]
        ids = list(range(4))
        nid = 4
        log = []

        def compare(where):
            got = conns[0].dump()
            d = {}
            for k, c, mx in got:
                if k in d:
                    p.fail("a dump lists %r twice" % k[:40], "\n".join(log[-60:]))
                d[k] = (c, mx)
            for k in set(d) | set(m.c):
                if k not in m.c:
                    p.fail("a dump lists %r which was never acquired" % k[:40], "\n".join(log[-60:]))
                want = (m.c[k][0], m.max(k))
                if k not in d:
                    if not m.optional(k):
                        p.fail("a dump does not list %r, %r" % (k[:40], want), "\n".join(log[-60:]))
                elif d[k] != want:
                    p.fail("%s: dump of %r is %r, expected consumption, maximum = %r" % (where, k[:40], d[k], want), "\n".join(log[-60:]))
            p.case(("dump", where, len(d)))

        for step in range(n):
            x = r.random()
            ci = r.randrange(len(conns))
            if x < .08:
                dt = r.choice([1, interval - m.now % interval, interval - m.now % interval - 1, interval, interval + 1, 3 * interval])
                if dt > 0:
                    m.now += dt
                    s.set_time(m.now)
                    log.append("clock +%d (%d of %d)" % (dt, m.now % interval, interval))
                    p.case(("clock", m.now % interval == 0, dt >= interval))
                compare("after the clock moved")
            elif x < .12:
                how = r.choice(["reset", "close", "shutdown"])
                c = conns[ci]
                log.append("conn%d %s holding %r" % (ids[ci], how, {k[:10]: v for k, v in m.held.get(ids[ci], {}).items()}))
                if r.random() < .3:    # an unfinished request does not count
                    c.send(counter_req(2, struct.pack(">IIH", 1, M32 - 1, 1) + b"a")[:-r.randrange(1, 12)])
                if how == "reset":
                    c.reset()
                elif how == "close":
                    c.close()
                else:
                    c.s.shutdown(socket.SHUT_WR)
                m.gone(ids[ci])
                conns[ci] = s.counter()
                ids[ci] = nid
                nid += 1
                end = time.time() + 30
                while True:
                    bad = [k for k in m.c if (conns[ci].get(k) or 0) != m.c[k][0]]
                    if not bad:
                        break
                    if time.time() > end:
                        p.fail("consumption of %r is %r, 30 s after a connection ended (%s); expected %d" % (
                            bad[0][:40], conns[ci].get(bad[0]), how, m.c[bad[0]][0]), "\n".join(log[-60:]))
                    time.sleep(0.001)
                # exactly once
                time.sleep(0.003)
                for k in m.c:
                    g = conns[ci].get(k)
                    if (g or 0) != m.c[k][0]:
                        p.fail("what a connection held was returned more than once: %r is %r" % (k[:40], g), "\n".join(log[-60:]))
                p.case(("disconnect", how))
                c.close()
                compare("after a disconnection")
            elif x < .15:
                # collection: counters that have not been used since the last boundary disappear, others stay
                g = int(conns[ci].stats()["gc_count"])
                end = time.time() + 60
                # two passes, so that one began after the boundary
                while int(conns[ci].stats()["gc_count"]) < g + 2:
                    m.now += interval - m.now % interval + r.choice([0, 1])
                    s.set_time(m.now)
                    log.append("boundary, t=%d" % m.now)
                    g1, e1 = int(conns[ci].stats()["gc_count"]), time.time() + .3
                    while int(conns[ci].stats()["gc_count"]) == g1 and time.time() < e1:
                        time.sleep(0.002)
                    if time.time() > end:
                        raise Inconclusive("no counter collection at a boundary")
                for k in [k for k in m.c if m.optional(k)]:
                    if conns[ci].get(k) is not None:
                        p.fail("an unused counter survives the collection", "\n".join(log[-60:]))
                    del m.c[k]
                    p.case(("collected",))
                compare("after a collection")
            else:
                k = r.choice(names)
                cmds = []
                for _ in range(r.choice([1, 1, 1, 3, 8])):
                    y = r.random()
                    h = m.held.get(ids[ci], {}).get(k, 0)
                    c0 = m.c[k][0] if k in m.c else 0
                    if y < .5:
                        nn = r.choice([0, 1, 1, 2, 3, 5, 1000, M32 - 1, M32 - 2, 1 << 31, r.randrange(M32)])
                        mx = min(M32 - 1, r.choice([nn, nn + 1, c0 + nn, max(0, c0 + nn - 1), c0, 10, 5, M32 - 1, 0]))
                        if not (0 <= c0 + nn < M32):
                            mx = r.choice([mx, M32 - 1])
                        cmds.append((2, k, nn, mx))
                    elif y < .85:
                        nn = r.choice([0, 1, h, h, max(0, h - 1), h + 1, h // 2, M32 - 1, c0])
                        cmds.append((3, k, min(nn, M32 - 1), 0))
                    else:
                        cmds.append((1, k, 0, 0))
                data = b""
                for j, (op, k, nn, mx) in enumerate(cmds):
                    b = {1: b"", 2: struct.pack(">II", nn, mx), 3: struct.pack(">I", nn)}[op] + struct.pack(">H", len(k)) + k
                    data += counter_req(op, b, struct.pack(">I", step * 16 + j))
                conns[ci].send(data)
                for j, (op, k, nn, mx) in enumerate(cmds):
                    rs = conns[ci].recv()
                    before = m.c[k][0] if k in m.c else None
                    txt = "t=%d conn%d op%d %r n=%d max=%d -> status %x (consumption before: %s, held %d)" % (
                        m.now, ids[ci], op, k[:12], nn, mx, rs.status, before, m.held.get(ids[ci], {}).get(k, 0))
                    log.append(txt)
                    if rs.op != op or rs.opaque != struct.pack(">I", step * 16 + j):
                        p.fail("response with another opcode or opaque: %r" % rs, "\n".join(log[-60:]))
                    if op == 1:
                        if k not in m.c:
                            want = {NOTFOUND}
                        elif m.optional(k):
                            want = {NOTFOUND, OK}
                        else:
                            want = {OK}
                    elif op == 2:
                        want = m.acquire(ids[ci], k, nn, mx)
                    else:
                        want = m.release(ids[ci], k, nn)
                    if rs.status not in want:
                        p.fail("%s; allowed: %r" % (txt, want), "\n".join(log[-60:]))
                    if rs.status == OK and op == 1 and struct.unpack(">I", rs.body)[0] != m.c[k][0]:
                        p.fail("get reports %r, consumption is %d" % (rs.body, m.c[k][0]), "\n".join(log[-60:]))
                    if rs.status == OK and op == 2 and struct.unpack(">I", rs.body)[0] != nn:
                        p.fail("acquire reports %r" % rs.body, "\n".join(log[-60:]))
                    if rs.status == OK and op == 3 and rs.body:
                        p.fail("release has a body")
                    p.case((op, rs.status, len(k), before is None, min(nn, 6), mx - nn if mx - nn < 3 else 3))
                if r.random() < .1:
                    compare("walk")
        p.count("sequential_steps", n)
        p.observe(s)


def crowd(p, n):
    """Many connections that hold resources and go away together; the maximum is never passed."""
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, workers=r.choice([2, 8])) as s:
        for i in range(n):
            conc.perturb(s, r)
            N, mx = 40, r.choice([1, 7, 25])
            cs = [s.counter() for _ in range(N)]
            for c in cs:
                c.send(counter_req(2, struct.pack(">IIH", 1, mx, 2) + b"cr") * 2)
            got = 0
            mine = []
            for c in cs:
                k = [c.recv().status for _ in range(2)]
                if set(k) - {OK, NA}:
                    p.fail("acquire: %r" % k)
                mine.append(k.count(OK))
                got += k.count(OK)
            if got != min(mx, 2 * N):
                p.fail("%d requests for one of %d resources each: %d were granted" % (2 * N, mx, got))
            w = s.counter()
            if w.get(b"cr") != got:
                p.fail("consumption is %r, %d held" % (w.get(b"cr"), got))
            # half of them go away, the others try to release and acquire meanwhile
            left = 0
            for j, c in enumerate(cs):
                if j % 2:
                    [c.reset, c.close][r.randrange(2)]()
                else:
                    left += mine[j]
            end = time.time() + 30
            while w.get(b"cr") != left:
                if w.get(b"cr") < left or time.time() > end:
                    p.fail("consumption is %r after half of the connections ended, %d held" % (w.get(b"cr"), left))
                time.sleep(0.001)
            for c in cs[::2]:
                c.reset()
            while (w.get(b"cr") or 0) != 0:
                if time.time() > end:
                    p.fail("resources of ended connections are not returned")
                time.sleep(0.001)
            w.close()
            p.case(("crowd", mx), 2 * N)
        p.observe(s)


def run(ck):
    B.build("plain")
    conc.ctool()
    ck.jobs(history, [ck.scale(5, 60)] * ck.scale(12, 48))
    ck.jobs(sequential, [(ck.scale(800, 15000), iv) for iv in (10, 13, 3600, 86400)] * ck.scale(2, 8))
    ck.jobs(crowd, [ck.scale(8, 120)] * 4)


if __name__ == "__main__":
    chk.main(PROP, "recorded counter histories of several connections with disconnections, linearizable per counter with what each "
             "connection holds in the state; sequential walks with exact consumption, interval maximum and collection under a virtual "
             "clock; crowds that acquire and leave; distinct by command, outcome and boundary relation, and by interleaving", run,
             assumptions=["return after a disconnect may take up to 30 s before it is called missing",
                          "release of 0 by a connection that holds nothing may be answered either way"])

"""Command generators and the sequential differential driver."""
import socket
import struct
import time

from model import Cmd, Model, Ver, T30
from yr import OP, Bin, ConnClosed, bin_req
from yr import Text as Conn_text

BIG = 1 << 64


class Client(Bin):
    """A connection of a known identity that may speak both protocols."""
    def __init__(self, port, ident, **kw):
        Bin.__init__(self, port, **kw)
        self.ident = ident


class Driver:
    """Runs batches of commands on connections and compares every reply with the model."""

    def __init__(self, part, server, model, nconn=3, chunk=None):
        self.p, self.s, self.m = part, server, model
        self.conns = [Client(server.port, i, timeout=60) for i in range(nconn)]
        self.next_id = nconn
        self.hist = []
        self.opaque = 0
        self.stale = {}     # key -> versions that were reported (old and current)

    def close(self):
        for c in self.conns:
            c.close()

    def note(self, ident, cmds):
        self.hist.append((ident, self.m.now, cmds))
        if len(self.hist) > 400:
            del self.hist[:200]

    def dump(self, n=60):
        out = []
        for ident, now, cmds in self.hist[-n:]:
            if isinstance(cmds, str):
                out.append("[t=%d] %s" % (now, cmds))
            else:
                for c in cmds:
                    out.append("[t=%d] conn%d %r" % (now, ident, c))
        return "\n".join(out[-200:])

    def batch(self, ci, cmds, split=None):
        """Send the commands in one write (or split at random points), then compare all replies."""
        conn = self.conns[ci]
        for c in cmds:
            if c.proto == "b":
                self.opaque = (self.opaque + 1) & 0xffffffff
                c.opaque = self.opaque
        # a barrier makes silence observable
        if cmds and cmds[-1].quiet():
            last = cmds[-1]
            cmds = cmds + [Cmd("t", b"version") if last.proto == "t" else Cmd("b", "Noop", opaque=0xabcd0001)]
        data = b"".join(c.encode() for c in cmds)
        self.note(conn.ident, cmds)
        if split:
            if split >= len(data):
                cuts = list(range(1, min(len(data), 3000)))
            else:
                cuts = sorted({self.p.rng.randrange(1, len(data)) for _ in range(split)})
            a = 0
            for b in cuts + [len(data)]:
                conn.send(data[a:b])
                a = b
        else:
            conn.send(data)
        for c in cmds:
            els = self.m.apply(conn.ident, c)
            try:
                x = self.m.expect(conn, els, c.key)
            except ConnClosed as e:
                x = "the connection was closed (%s)" % e
            if x:
                self.p.fail("reply to %r on conn%d differs from the specification: %s" % (c, conn.ident, x), self.dump())
            self.p.case()
        for c in cmds:
            for k in (c.keys or [c.key]):
                it = self.m.items.get(k)
                if it is not None and it.ver.num is not None:
                    s = self.stale.setdefault(k, [])
                    if not s or s[-1] is not it.ver:
                        s.append(it.ver)
                        if len(s) > 6:
                            del s[0]

    def reconnect(self, ci, how="reset"):
        c = self.conns[ci]
        self.note(c.ident, "conn%d %s" % (c.ident, how))
        if how == "reset":
            c.reset()
        elif how in ("quit", "quitb"):
            c.send(b"quit\r\n" if how == "quit" else bin_req("Quit"))
            if not c.closed_by_peer(30):
                self.p.fail("quit does not close the connection", self.dump())
            c.close()
        elif how == "shutdown":
            c.s.shutdown(socket.SHUT_WR)
        else:
            c.close()
        held = [k for k, it in self.m.items.items() if it.lock == c.ident]
        self.m.disconnect(c.ident)
        if held:
            # the release is asynchronous; it must come
            probe = Conn_text(self.s.port, timeout=60)
            end = time.time() + 30
            for k in held:
                while True:
                    x = probe.cmd(b"lock " + k)
                    if x != b"LOCKED":
                        break
                    if time.time() > end:
                        self.p.fail("the lock of %r outlived its connection (%s) by 30 s" % (k, how), self.dump())
                    time.sleep(0.001)
                live = self.m.live(k) is not None
                if x != (b"OK" if live else b"NOT_FOUND"):
                    self.p.fail("lock of a released object: %r" % x, self.dump())
                if live and probe.cmd(b"unlock " + k) != b"OK":
                    self.p.fail("the owner cannot unlock", self.dump())
            probe.close()
        if how == "shutdown":
            c.close()
        self.conns[ci] = Client(self.s.port, self.next_id, timeout=60)
        self.next_id += 1

    def advance(self, dt):
        self.m.now += dt
        self.s.set_time(self.m.now)
        if self.m.flush is not None and self.m.flush <= self.m.now:
            # a flush in the future takes effect in the housekeeping of that second
            self.s.intervals(2)
            self.m.tick()
        self.note(0, "clock advanced by %d" % dt)

    def gc(self):
        """A collection pass with the clock at its present value, as far as the model is concerned."""
        before = self.m.now
        self.s.force_gc()
        self.m.now = self.s.now()
        # the pass that was forced began at the latest now; items that expired are removed,
        # which is not observable except through statistics
        self.m.gc()
        self.note(0, "collection (clock %d -> %d)" % (before, self.m.now))


class Gen:
    """Random commands over a small set of keys."""

    def __init__(self, rng, keys, max_data, heap, locks=True, flush=False, lockheavy=False):
        self.r, self.keys, self.max_data, self.heap = rng, keys, max_data, heap
        self.locks, self.flush, self.lockheavy = locks, flush, lockheavy
        self.n = 0

    def value(self):
        r = self.r
        x = r.random()
        self.n += 1
        if x < .30:
            return b"%d" % r.choice([0, 1, 9, 10, 99, 100, 12345, 2**32 - 1, 2**32, 2**63, BIG - 2, BIG - 1, r.randrange(BIG)])
        if x < .70:
            return b"v%d-" % self.n + b"x" * r.randrange(0, 30)
        if x < .74:
            return bytes(r.randrange(256) for _ in range(r.randrange(1, 40)))
        if x < .77:
            return b"\r\nget a\r\n" + b"z%d" % self.n
        if x < .96:
            base = r.choice([self.heap - 2, self.heap - 1, self.heap, self.heap + 1, self.heap + 2, self.heap // 2, r.randrange(1, self.heap * 2)])
            return (b"V%d." % self.n * (base // 4 + 1))[:base]
        base = r.choice([self.max_data - 1, self.max_data, self.max_data + 1, self.max_data - self.heap])
        return (b"W%d." % self.n * (base // 4 + 1))[:base]

    def num(self):
        return self.r.choice([0, 1, 1, 2, 9, 10, 1000, 2**32, 2**63, BIG - 1, self.r.randrange(BIG)])

    def texp(self, now):
        r = self.r
        return r.choice([0, 0, 0, 0, 1, 2, 3, 5, 10, T30, T30 + 1, now - 1, now, now + 1, now + 3, now + 100])

    def flags(self):
        return self.r.choice([0, 0, 1, 7, 0xffff, 2**31, 2**32 - 1])

    def ver(self, drv, key):
        """A version to condition on: current (if known), stale, or arbitrary."""
        s = drv.stale.get(key, [])
        x = self.r.random()
        it = drv.m.items.get(key)
        if x < .6 and it is not None and it.ver.num is not None:
            return it.ver
        if x < .9 and s:
            return self.r.choice(s)
        return self.r.choice([2**62, 2**63, BIG - 1])

    def cmd(self, drv):
        r = self.r
        key = r.choice(self.keys)
        if r.random() < .01:
            key = key + b"L" * (251 - len(key))
        now = drv.m.now
        if self.lockheavy and r.random() < .45:
            e = r.choice([None, None, 0, 1, 3, 100, 0xffffffff])
            q = "Q" if r.random() < .2 else ""
            return r.choice([lambda: Cmd("t", b"lock", key), lambda: Cmd("t", b"unlock", key), lambda: Cmd("b", "Lock" + q, key),
                             lambda: Cmd("b", "Unlock" + q, key), lambda: Cmd("b", r.choice(["LaG", "LaGK"]) + q, key, exp=e),
                             lambda: Cmd("b", "RaU" + q, key, self.value(), self.flags(), e or 0, cas=self.ver(drv, key) if r.random() < .3 else None),
                             lambda: Cmd("t", b"unlock_all") if r.random() < .3 else Cmd("b", "UnlockAll" + q)])()
        if r.random() < .5:
            nr = r.random() < .2
            x = r.random()
            if x < .28:
                return Cmd("t", r.choice([b"set", b"set", b"add", b"replace", b"append", b"prepend"]), key, self.value(),
                           self.flags(), self.texp(now), noreply=nr)
            if x < .36:
                return Cmd("t", b"cas", key, self.value(), self.flags(), self.texp(now), cas=self.ver(drv, key), noreply=nr)
            if x < .50:
                return Cmd("t", r.choice([b"incr", b"decr"]), key, num=self.num(), noreply=nr)
            if x < .58:
                return Cmd("t", b"touch", key, exp=self.texp(now), noreply=nr)
            if x < .66:
                return Cmd("t", b"delete", key, noreply=nr)
            if x < .80 or not self.locks:
                ks = [r.choice(self.keys) for _ in range(r.choice([1, 1, 1, 2, 5, len(self.keys)]))]
                return Cmd("t", r.choice([b"get", b"gets"]), keys=ks)
            if x < .86:
                return Cmd("t", b"lock", key)
            if x < .92:
                return Cmd("t", b"unlock", key)
            if x < .94:
                return Cmd("t", b"unlock_all")
            if x < .96:
                return Cmd("t", b"keys", r.choice([b"", key[:1], key, b"zz"]))
            if self.flush and x < .965:
                return Cmd("t", b"flush_all", exp=r.choice([None, 0, 1, 5, now + 7, T30]), noreply=nr)
            return Cmd("t", b"gets", keys=[key])
        q = "Q" if r.random() < .25 else ""
        cas = self.ver(drv, key) if r.random() < .3 else None
        x = r.random()
        e = r.choice([0, 0, 0, 1, 2, 3, 5, 10, T30, T30 + 1, now - 1, now, now + 1, now + 3, now + 100, 0xffffffff])
        if x < .26:
            return Cmd("b", r.choice(["Set", "Set", "Add", "Replace", "Append", "Prepend"]) + q, key, self.value(),
                       self.flags(), e, cas=cas)
        if x < .42:
            return Cmd("b", r.choice(["Increment", "Decrement"]) + q, key, num=self.num(), initial=self.num(), exp=e, cas=cas)
        if x < .50:
            return Cmd("b", "Touch", key, exp=e)
        if x < .57:
            return Cmd("b", "Delete" + q, key, cas=cas)
        if x < .77 or not self.locks:
            return Cmd("b", r.choice(["Get", "GetK", "GaT", "GaTK"]) + q, key, exp=r.choice([None, None, e]))
        if x < .82:
            return Cmd("b", r.choice(["LaG", "LaGK"]) + q, key, exp=r.choice([None, None, e]))
        if x < .87:
            return Cmd("b", "Lock" + q, key)
        if x < .92:
            return Cmd("b", "Unlock" + q, key)
        if x < .96:
            return Cmd("b", "RaU" + q, key, self.value(), self.flags(), e, cas=cas)
        if x < .97:
            return Cmd("b", "UnlockAll" + q)
        if x < .985:
            return Cmd("b", "Keys", r.choice([b"", key[:1], key]))
        if self.flush and x < .99:
            return Cmd("b", "Flush" + q, exp=r.choice([None, 0, 1, 5, now + 7, T30]))
        return Cmd("b", "GetK", key, exp=None)

"""Reference model of the memcache protocols (text and binary), written from the
protocol documents (memcached protocol.txt / BinaryProtocolRevamped, docs/diffs.md,
docs/locking.md, docs/keys.md), executed one command at a time under a virtual clock."""
import re
import struct

from yr import OP, NAME, bin_req

T30 = 60 * 60 * 24 * 30
M64 = 1 << 64
NUM = re.compile(rb"[ \t\n\v\f\r]*([+-]?)([0-9]+)")


class Ver:
    """A version (CAS unique value) of an item; its number is learned from replies."""
    __slots__ = ("num",)

    def __init__(self):
        self.num = None


class Item:
    __slots__ = ("val", "flags", "exp", "ver", "lock", "flushed")

    def __init__(self, val, flags, exp, ver):
        self.val, self.flags, self.exp, self.ver, self.lock, self.flushed = val, flags, exp, ver, None, False


QUIET = {OP[n] for n in ("GetQ", "GetKQ", "SetQ", "AddQ", "ReplaceQ", "DeleteQ", "IncrementQ",
                         "DecrementQ", "QuitQ", "FlushQ", "AppendQ", "PrependQ", "GaTQ", "GaTKQ",
                         "LockQ", "UnlockQ", "UnlockAllQ", "LaGQ", "LaGKQ", "RaUQ")}
GETS = {OP[n] for n in ("Get", "GetQ", "GetK", "GetKQ", "GaT", "GaTQ", "GaTK", "GaTKQ", "LaG", "LaGQ",
                        "LaGK", "LaGKQ")}
WITHKEY = {OP[n] for n in ("GetK", "GetKQ", "GaTK", "GaTKQ", "LaGK", "LaGKQ")}
LAGS = {OP[n] for n in ("LaG", "LaGQ", "LaGK", "LaGKQ")}

OK, NOTFOUND, EXISTS, TOOLARGE, INVALID, NOTSTORED, NONNUM = 0, 1, 2, 3, 4, 5, 6
LOCKED, NOTLOCKED = 0x10, 0x11
GONE = (NOTFOUND, NOTLOCKED)    # an expired item may or may not have been collected yet


class Cmd:
    """One request. proto 't' or 'b'; op is a text verb or a binary opcode."""
    __slots__ = ("proto", "op", "key", "keys", "val", "flags", "exp", "cas", "noreply", "num",
                 "initial", "opaque")

    def __init__(self, proto, op, key=b"", val=b"", flags=0, exp=0, cas=None, noreply=False, num=0,
                 initial=0, keys=None, opaque=0):
        self.proto, self.op, self.key, self.val, self.flags = proto, op, key, val, flags
        if proto == "b" and isinstance(op, str):
            self.op = OP[op]
        self.exp, self.cas, self.noreply, self.num, self.initial = exp, cas, noreply, num, initial
        self.keys, self.opaque = keys, opaque

    def __repr__(self):
        name = self.op.decode() if self.proto == "t" else NAME.get(self.op, "%02x" % self.op)
        d = []
        if self.keys is not None:
            d.append("keys=%r" % self.keys)
        else:
            d.append("key=%r" % (self.key if len(self.key) < 40 else self.key[:20] + b"..%d" % len(self.key)))
        if self.val:
            d.append("val=%r" % (self.val if len(self.val) < 40 else self.val[:16] + b"..%d" % len(self.val)))
        for n in ("flags", "exp", "num", "initial"):
            v = getattr(self, n)
            if v not in (0, None):
                d.append("%s=%s" % (n, v))
        if self.exp is None:
            d.append("noextras")
        if self.cas is not None:
            d.append("cas=%s" % self.casnum())
        if self.noreply:
            d.append("noreply")
        return "%s:%s(%s)" % (self.proto, name, " ".join(d))

    def casnum(self):
        if self.cas is None:
            return 0
        if isinstance(self.cas, Ver):
            return self.cas.num or 0
        return self.cas

    def quiet(self):
        return self.noreply if self.proto == "t" else self.op in QUIET

    def encode(self):
        if self.proto == "t":
            o, nr = self.op, b" noreply" if self.noreply else b""
            if o in (b"set", b"add", b"replace", b"append", b"prepend"):
                return b"%s %s %d %d %d%s\r\n%s\r\n" % (o, self.key, self.flags, self.exp, len(self.val), nr, self.val)
            if o == b"cas":
                return b"cas %s %d %d %d %d%s\r\n%s\r\n" % (self.key, self.flags, self.exp, len(self.val), self.casnum(), nr, self.val)
            if o in (b"incr", b"decr"):
                return b"%s %s %d%s\r\n" % (o, self.key, self.num, nr)
            if o == b"touch":
                return b"touch %s %d%s\r\n" % (self.key, self.exp, nr)
            if o == b"delete":
                return b"delete %s%s\r\n" % (self.key, nr)
            if o in (b"get", b"gets"):
                return b"%s %s\r\n" % (o, b" ".join(self.keys))
            if o in (b"lock", b"unlock"):
                return b"%s %s\r\n" % (o, self.key)
            if o == b"keys":
                return b"keys %s\r\n" % self.key if self.key else b"keys\r\n"
            if o == b"flush_all":
                return b"flush_all%s%s\r\n" % (b"" if self.exp is None else b" %d" % self.exp, nr)
            return o + b"\r\n"
        o, ex = NAME[self.op], b""
        base = o[:-1] if self.op in QUIET else o
        if self.op in GETS:
            ex = b"" if self.exp is None else struct.pack(">I", self.exp)
        elif base in ("Set", "Add", "Replace", "RaU"):
            ex = struct.pack(">II", self.flags, self.exp)
        elif base in ("Increment", "Decrement"):
            ex = struct.pack(">QQI", self.num, self.initial, self.exp)
        elif base == "Touch":
            ex = struct.pack(">I", self.exp)
        elif base == "Flush":
            ex = b"" if self.exp is None else struct.pack(">I", self.exp)
        return bin_req(self.op, self.key, ex, self.val, self.casnum(), self.opaque)


class Model:
    def __init__(self, now, max_data=1 << 20, heap=1 << 18):
        self.now, self.max_data, self.heap = now, max_data, heap
        self.items = {}
        self.flush = None
        self.seen = {}      # key -> set of version numbers reported so far
        self.hits = self.misses = 0

    # -- helpers --
    def expired(self, it):
        if it.lock is not None:
            return False
        if it.flushed:
            return True
        return it.exp != 0 and it.exp <= self.now

    def live(self, key):
        it = self.items.get(key)
        if it is None or self.expired(it):
            return None
        return it

    def texp(self, t):
        return 0 if t == 0 else (t if t > T30 else self.now + t)

    def bexp(self, t):
        """Absolute time; 'none' for the special value."""
        if t is None or t == 0xffffffff:
            return "none"
        return self.texp(t)

    @staticmethod
    def stored_exp(e):
        return 1 if e == "none" else e     # a time in the past: expires at once

    def store(self, key, val, flags, exp):
        it = self.items.get(key)
        if it is None:
            it = self.items[key] = Item(val, flags, exp, Ver())
        else:
            it.val, it.flags, it.exp, it.ver, it.flushed = val, flags, exp, Ver(), False
        return it

    def drop(self, key):
        self.items.pop(key, None)

    def disconnect(self, conn):
        for it in self.items.values():
            if it.lock == conn:
                it.lock = None

    def gc(self):
        """What a whole collection pass removes (memory within the limit)."""
        self.tick()
        for k in [k for k, it in self.items.items() if self.expired(it)]:
            del self.items[k]

    def flush_at(self, t):
        """A later flush replaces a pending one. Locked items are hit once they are unlocked."""
        self.flush = t
        self.tick()

    def tick(self):
        if self.flush is not None and self.flush <= self.now:
            self.flush = None
            for it in self.items.values():
                it.flushed = True

    def numeric(self, v):
        """Value as a number, None if it is not one. Leading digits count, as in C's strtoull.
        Values above the heap limit are kept in files and are never numbers."""
        if len(v) > self.heap:
            return None
        m = NUM.match(v)
        if not m or int(m.group(2)) >= M64:
            return None
        return int(m.group(2)) if m.group(1) != b"-" else -int(m.group(2)) % M64

    # -- execution: returns the expected reply elements --
    # ("raw", bytes) | ("value", key, flags, val, Ver or None) |
    # ("bin", op, opaque, status, extras, key, val, cas) with cas None (not checked), 0 or a Ver
    # ("keys", set) | ("bkeys", op, opaque, set)
    def apply(self, conn, c):
        return self.text(conn, c) if c.proto == "t" else self.binary(conn, c)

    def text(self, conn, c):
        o, k = c.op, c.key

        def r(b, always=False):
            return [] if c.noreply and not always else [("raw", b + b"\r\n")]
        if o in (b"get", b"gets"):
            out = []
            for key in c.keys:
                it = self.live(key)
                if it is None:
                    self.misses += 1
                    continue
                self.hits += 1
                out.append(("value", key, it.flags, it.val, it.ver if o == b"gets" else None))
            out.append(("raw", b"END\r\n"))
            return out
        if o == b"keys":
            return [("keys", {x for x, it in self.items.items() if x.startswith(k) and not self.expired(it)})]
        if o == b"flush_all":
            self.flush_at(self.now if c.exp is None else (c.exp if c.exp > T30 else self.now + c.exp))
            return r(b"OK")
        if o == b"unlock_all":
            self.disconnect(conn)
            return r(b"OK")
        if o == b"version":
            return [("version",)]
        if o in (b"set", b"add", b"replace", b"cas"):
            if o != b"cas" and len(k) > 250:
                return r(b"ERROR", True)
            if len(c.val) > self.max_data:
                return r(b"ERROR", True)
        it = self.items.get(k)
        lv = self.live(k)
        other = it is not None and it.lock is not None and it.lock != conn
        if o in (b"set", b"add", b"replace", b"cas", b"append", b"prepend", b"incr", b"decr", b"delete") and other:
            return r(b"LOCKED")
        if o in (b"set", b"add", b"replace"):
            if (o == b"add" and lv) or (o == b"replace" and not lv):
                return r(b"NOT_STORED")
            self.store(k, c.val, c.flags, self.texp(c.exp))
            return r(b"STORED")
        if o == b"cas":
            if not lv:
                return r(b"NOT_FOUND")
            if lv.ver is not c.cas:
                return r(b"EXISTS")
            self.store(k, c.val, c.flags, self.texp(c.exp))
            return r(b"STORED")
        if o in (b"append", b"prepend"):
            if not lv:
                return r(b"NOT_STORED")
            if len(lv.val) + len(c.val) > self.max_data:
                return r(b"ERROR", True)
            lv.val = lv.val + c.val if o == b"append" else c.val + lv.val
            lv.ver = Ver()
            return r(b"STORED")
        if o in (b"incr", b"decr"):
            if not lv:
                return r(b"NOT_FOUND")
            n = self.numeric(lv.val)
            if n is None:
                return r(b"CLIENT_ERROR cannot increment or decrement non-numeric value")
            n = (n + c.num) % M64 if o == b"incr" else max(0, n - c.num)
            lv.val, lv.ver = b"%d" % n, Ver()
            return r(lv.val)
        if o == b"touch":
            if not lv:
                return r(b"NOT_FOUND")
            lv.exp = self.texp(c.exp)
            return r(b"TOUCHED")
        if o == b"delete":
            if not lv:
                self.drop(k)
                return r(b"NOT_FOUND")
            self.drop(k)
            return r(b"DELETED")
        if o == b"lock":
            if not lv:
                return r(b"NOT_FOUND")
            if lv.lock is not None:
                return r(b"LOCKED")
            lv.lock = conn
            return r(b"OK")
        if o == b"unlock":
            if it is None or it.lock != conn:
                return r(b"CLIENT_ERROR object is not locked or not found")
            it.lock = None
            return r(b"OK")
        raise ValueError(o)

    def binary(self, conn, c):
        op, k = c.op, c.key
        q = op in QUIET
        base = NAME[op][:-1] if q else NAME[op]

        def r(status=0, extras=b"", key=b"", val=b"", cas=None):
            return [("bin", op, c.opaque, status, extras, key, val, cas)]

        def done(cas=0, val=b""):
            return [] if q else r(0, b"", b"", val, cas)
        if base == "Noop":
            return r(cas=0)
        if base == "Version":
            return [("bver", op, c.opaque)]
        if base == "Keys":
            return [("bkeys", op, c.opaque, {x for x, it in self.items.items() if x.startswith(k) and not self.expired(it)})]
        if base == "UnlockAll":
            self.disconnect(conn)
            return done()
        if base == "Flush":
            self.flush_at(self.now if c.exp is None else self.texp(c.exp))
            return done()
        if len(k) > 250:
            return r(INVALID)
        it = self.items.get(k)
        lv = self.live(k)
        other = it is not None and it.lock is not None and it.lock != conn
        cas = c.casnum()
        if op in GETS:
            if not lv:
                self.misses += 1
                return [] if q and op not in LAGS else r(NOTFOUND)
            self.hits += 1
            if op in LAGS:
                if lv.lock is not None:
                    return r(LOCKED)
                lv.lock = conn
            e = self.bexp(c.exp)
            if e != "none":
                lv.exp = e
            return r(0, struct.pack(">I", lv.flags), k if op in WITHKEY else b"", lv.val, lv.ver)
        if base in ("Set", "Add", "Replace", "RaU"):
            if not c.val:
                return r(INVALID)
            if len(c.val) > self.max_data:
                return r(TOOLARGE)
        if base in ("Append", "Prepend") and not c.val:
            return r(INVALID)
        if base == "RaU":
            if it is None:
                return r(NOTFOUND)
            if it.lock != conn:
                return r(NOTLOCKED if lv else GONE)
            if cas and it.ver is not c.cas:
                return r(EXISTS)
            it = self.store(k, c.val, c.flags, self.stored_exp(self.bexp(c.exp)))
            it.lock = None
            return done(it.ver)
        if base in ("Set", "Add", "Replace", "Append", "Prepend", "Delete", "Increment", "Decrement") and other:
            return r(LOCKED)
        if base in ("Set", "Add", "Replace"):
            if lv is None and (cas or base == "Replace"):
                return r(NOTFOUND)
            if lv is not None and base == "Add":
                return r(EXISTS)
            if cas and lv.ver is not c.cas:
                return r(EXISTS)
            it = self.store(k, c.val, c.flags, self.stored_exp(self.bexp(c.exp)))
            return done(it.ver)
        if base in ("Append", "Prepend"):
            if lv is None:
                return r(NOTFOUND)
            if cas and lv.ver is not c.cas:
                return r(EXISTS)
            if len(lv.val) + len(c.val) > self.max_data:
                return r(TOOLARGE)
            lv.val = lv.val + c.val if base == "Append" else c.val + lv.val
            lv.ver = Ver()
            return done(lv.ver)
        if base == "Delete":
            if lv is None:
                self.drop(k)
                return [] if q else r(NOTFOUND)
            if cas and lv.ver is not c.cas:
                return r(EXISTS)
            self.drop(k)
            return done()
        if base in ("Increment", "Decrement"):
            if lv is None:
                e = self.bexp(c.exp)
                if e == "none":
                    return r(NOTFOUND)
                it = self.store(k, b"%d" % c.initial, 0, e)
                return done(it.ver, struct.pack(">Q", c.initial))
            if cas and lv.ver is not c.cas:
                return r(EXISTS)
            n = self.numeric(lv.val)
            if n is None:
                return r(NONNUM)
            n = (n + c.num) % M64 if base == "Increment" else max(0, n - c.num)
            lv.val, lv.ver = b"%d" % n, Ver()
            return done(lv.ver, struct.pack(">Q", n))
        if base == "Touch":
            if lv is None:
                return r(NOTFOUND)
            lv.exp = self.stored_exp(self.bexp(c.exp))
            return r(cas=lv.ver)
        if base == "Lock":
            if lv is None:
                return r(NOTFOUND)
            if lv.lock is not None:
                return r(LOCKED)
            lv.lock = conn
            return done()
        if base == "Unlock":
            if it is None:
                return r(NOTFOUND)
            if it.lock != conn:
                return r(NOTLOCKED if lv else GONE)
            it.lock = None
            return done()
        raise ValueError(base)

    # -- comparison --
    def learn(self, key, ver, num):
        """Returns an error text or None."""
        if ver.num is not None:
            return None if ver.num == num else "version of %r is %d but was reported as %d before" % (key, num, ver.num)
        s = self.seen.setdefault(key, set())
        if num == 0 or num in s:
            return "version %d of %r is not fresh" % (num, key)
        s.add(num)
        ver.num = num
        return None

    def expect(self, conn, els, key_of):
        """Read and compare the reply elements of one command from a client connection.
        Returns None or a description of the difference."""
        for e in els:
            kind = e[0]
            if kind == "raw":
                n = len(e[1])
                # read a whole line, so that a different reply is shown completely
                l = conn.line()
                if l != e[1]:
                    return "expected %r, got %r" % (e[1], l)
            elif kind == "version":
                l = conn.line()
                if not l.startswith(b"VERSION "):
                    return "expected VERSION, got %r" % l
            elif kind == "value":
                _, key, flags, val, ver = e
                l = conn.line()
                want = b"VALUE %s %d %d" % (key, flags, len(val))
                p = l[:-2]
                if ver is None:
                    if l != want + b"\r\n":
                        return "expected %r, got %r" % (want, l)
                else:
                    if not l.startswith(want + b" ") or not p[len(want) + 1:].isdigit():
                        return "expected %r <cas>, got %r" % (want, l)
                    x = self.learn(key, ver, int(p[len(want) + 1:]))
                    if x:
                        return x
                d = conn.take(len(val) + 2)
                if d != val + b"\r\n":
                    return "value of %r differs: expected %r, got %r" % (key, short(val), short(d))
            elif kind == "keys":
                got = []
                while True:
                    l = conn.line()
                    if l == b"END\r\n":
                        break
                    if not l.startswith(b"VALUE "):
                        return "keys: unexpected %r" % l
                    got.append(l[6:-2])
                if sorted(got) != sorted(e[1]):
                    return "keys: missing %r, extra %r, dup %d" % (e[1] - set(got), set(got) - e[1], len(got) - len(set(got)))
            elif kind in ("bin", "bver", "bkeys"):
                r = conn.recv()
                if r.magic != 0x81 or r.op != e[1] or r.opaque != e[2]:
                    return "expected response of op %02x opaque %d, got %r" % (e[1], e[2], r)
                if kind == "bver":
                    if r.status != 0:
                        return "version: %r" % r
                    continue
                if kind == "bkeys":
                    got = []
                    while r.key:
                        got.append(r.key)
                        r = conn.recv()
                        if r.op != e[1] or r.status != 0 or r.opaque != e[2]:
                            return "keys: unexpected %r" % r
                    if sorted(got) != sorted(e[3]):
                        return "keys: missing %r, extra %r, dup %d" % (e[3] - set(got), set(got) - e[3], len(got) - len(set(got)))
                    continue
                _, op, opaque, status, extras, key, val, cas = e
                if r.status not in (status if isinstance(status, tuple) else (status,)):
                    return "expected status %s, got %r" % (status, r)
                if status != 0:
                    if r.extras or r.key:
                        return "error response with extras or key: %r" % r
                    continue
                if r.extras != extras or r.key != key or r.val != val:
                    return "expected extras %r key %r value %r, got extras %r key %r value %r" % (
                        extras, key, short(val), r.extras, r.key, short(r.val))
                if isinstance(cas, Ver):
                    x = self.learn(key_of, cas, r.cas)
                    if x:
                        return x
            else:
                raise ValueError(kind)
        return None


def short(b):
    return b if len(b) <= 60 else b[:30] + b"..(%d).." % len(b) + b[-20:]

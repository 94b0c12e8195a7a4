"""C06: framing is independent of segmentation; every request is answered exactly once, in order."""
import os
import random
import socket
import struct
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import yr
from gen import Client, Driver, Gen
from model import Cmd, Model, T30, INVALID, TOOLARGE, QUIET
from yr import OP, NAME, T0, bin_req, counter_req, ConnClosed, Timeout, Inconclusive

PROP = "C06"
HEAP, MAXD = 4096, 16384
UNKNOWN = 0x81
ERR = [("raw", b"ERROR\r\n")]


class Raw:
    """A malformed request with the reply it must get."""
    keys, key, cas, noreply, op = None, b"", None, False, "raw"

    def __init__(self, proto, data, els, name):
        self.proto, self.data, self.els, self.name = proto, data, els, name
        self.opaque = 0

    def quiet(self):
        return not self.els

    def encode(self):
        if self.proto == "b":
            return self.data[:12] + struct.pack(">I", self.opaque) + self.data[16:]
        return self.data

    def __repr__(self):
        return "raw(%s %r)" % (self.name, self.data if len(self.data) < 80 else self.data[:50] + b"..%d" % len(self.data))


class RModel(Model):
    def apply(self, conn, c):
        if isinstance(c, Raw):
            if c.proto == "b":
                return [("bin", e[1], c.opaque) + e[3:] for e in c.els]
            return c.els
        return Model.apply(self, conn, c)


def bad_text(r, keys, every=False):
    """Malformed text requests; every one is answered by exactly one ERROR and consumes exactly itself."""
    k = r.choice(keys)
    v = b"x" * r.choice([0, 1, 5, 100])
    n = len(v)
    L = b"K" * r.choice([251, 252, 300, 5000])
    d = v + b"\r\n"
    out = [
        (b"\n", "empty lf"), (b"\r\n", "empty"), (b"   \r\n", "blank"), (b"get " + k + b"\n", "no cr"),
        (b"bogus\r\n", "verb"), (b"GET " + k + b"\r\n", "upper case"), (b"gett " + k + b"\r\n", "long verb"), (b"ge " + k + b"\r\n", "short verb"),
        (b"get\r\n", "get without key"), (b"gets  \r\n", "gets without key"), (b"set " + k + b"\r\n", "no numbers"),
        (b"set " + k + b" 0\r\n", "one number"), (b"set " + k + b" 0 0\r\n", "two numbers"), (b"set " + k + b" a 0 3\r\n", "flags"),
        (b"set " + k + b" 0 b 3\r\n", "exptime"), (b"set " + k + b" 0 0 c\r\n", "bytes"), (b"set " + k + b" -1 0 3\r\n", "minus flags"),
        (b"set " + k + b" 0 0 -1\r\n", "minus bytes"), (b"set " + k + b" 4294967296 0 3\r\n", "flags overflow"),
        (b"set " + k + b" 0 0 4294967296\r\n", "bytes overflow"), (b"set " + k + b" 0 0 18446744073709551616\r\n", "bytes overflow 64"),
        (b"set " + k + b" 99999999999999999999 0 3\r\n", "flags overflow 64"), (b"set " + k + b" 0 0 3x\r\n", "bytes tail"),
        (b"set " + k + b" 0x10 0 3\r\n", "hex"), (b"set " + k + b" 0 0 3 norepl\r\n", "no reply word"),
        (b"set " + k + b" 0 0 3 noreplyy\r\n", "long no reply word"), (b"set " + k + b" 0 0 3 noreply x\r\n", "garbage after noreply"),
        (b"set " + L + b" 0 0 %d\r\n" % n + d, "long key"), (b"add " + L + b" 0 0 %d\r\n" % n + d, "long key add"),
        (b"set " + L + b" 0 0 %d noreply\r\n" % n + d, "long key noreply"),
        (b"set " + k + b" 0 0 %d\r\n" % n + v + b"\rX", "bad trailer"), (b"set " + k + b" 0 0 %d\r\n" % n + v + b"XX", "no trailer"),
        (b"append " + k + b" 0 0 %d\r\n" % n + v + b"\n\r", "swapped trailer"), (b"cas " + k + b" 0 0 %d\r\n" % n, "cas without version"),
        (b"cas " + k + b" 0 0 %d x\r\n" % n, "cas with a word"), (b"cas " + k + b" 0 0 %d 18446744073709551616\r\n" % n, "cas overflow"),
        (b"set " + k + b" 0 0 %d\r\n" % (MAXD + 1) + b"y" * (MAXD + 1) + b"\r\n", "too large"),
        (b"replace " + k + b" 0 0 %d noreply\r\n" % (MAXD + 1) + b"y" * (MAXD + 1) + b"\r\n", "too large noreply"),
        (b"incr " + k + b"\r\n", "incr without number"), (b"incr " + k + b" x\r\n", "incr word"), (b"incr " + k + b" -1\r\n", "incr minus"),
        (b"decr " + k + b" 18446744073709551616\r\n", "decr overflow"), (b"decr " + k + b" 1 2\r\n", "decr garbage"),
        (b"incr " + k + b" 1 noreplay\r\n", "incr bad noreply"), (b"touch " + k + b"\r\n", "touch without time"), (b"touch " + k + b" x\r\n", "touch word"),
        (b"touch " + k + b" 1 2\r\n", "touch garbage"), (b"touch\r\n", "touch alone"), (b"delete\r\n", "delete alone"),
        (b"delete " + k + b" 1 2\r\n", "delete garbage"), (b"lock\r\n", "lock alone"), (b"lock " + k + b" x\r\n", "lock garbage"), (b"unlock\r\n", "unlock alone"),
        (b"flush_all x\r\n", "flush word"), (b"flush_all 1 2\r\n", "flush garbage"), (b"verbosity\r\n", "verbosity alone"),
        (b"stats bogus\r\n", "stats unknown"), (b"\x81\0\0\r\n", "response magic"), (b"\xff\xfe\r\n", "high bytes"), (b"\0\r\n", "nul"),
        (b"set \r\n", "set alone"), (b"x" * r.choice([2048, 70000]) + b"\r\n", "long line"), (b"quit_\r\n", "quit_"), (b" \n", "sp lf"),
    ]
    if every:
        return [Raw("t", data, ERR, name) for data, name in out]
    data, name = r.choice(out)
    return Raw("t", data, ERR, name)


def good_text(r, keys):
    """Well-formed requests in unusual spelling."""
    k = r.choice(keys)
    return r.choice([
        Raw("t", b"slabs automove 1\r\n", [("raw", b"OK\r\n")], "slabs"), Raw("t", b"slabs reassign 1 2\r\n", [("raw", b"OK\r\n")], "slabs"),
        Raw("t", b"verbosity warning\r\n", [("raw", b"OK\r\n")], "verbosity"), Raw("t", b"verbosity warning noreply\r\n", [], "verbosity noreply"),
        Raw("t", b"  get   zz   yy  \r\n", [("raw", b"END\r\n")], "spaces"), Raw("t", b"get zz" + b" q" * 1000 + b"\r\n", [("raw", b"END\r\n")], "many keys"),
        Raw("t", b"get " + b"G" * 300 + b"\r\n", [("raw", b"END\r\n")], "get long key"), Raw("t", b"keys zz\r\n", [("raw", b"END\r\n")], "keys nothing"),
        Raw("t", b"delete nothing noreply\r\n", [], "delete noreply"), Raw("t", b"incr nothing 5 noreply\r\n", [], "incr noreply"),
        Raw("t", b"touch nothing 5 noreply\r\n", [], "touch noreply"), Raw("t", b"replace nothing  1  2  3  noreply \r\nabc\r\n", [], "replace spaces noreply"),
        Raw("t", b"unlock nothing\r\n", [("raw", b"CLIENT_ERROR object is not locked or not found\r\n")], "unlock nothing"),
        Raw("t", b"cas nothing 0 0 3 77\r\nabc\r\n", [("raw", b"NOT_FOUND\r\n")], "cas nothing"),
        Raw("t", b"append nothing 0 0 8\r\nset a 0 \r\n", [("raw", b"NOT_STORED\r\n")], "command in data"),
    ])


def hdr(op, klen, elen, total, body=b"", cas=0, magic=0x80):
    return struct.pack(">BBHBBHIIQ", magic, op, klen, elen, r_dtype(op), 0, total, 0, cas) + body


def r_dtype(op):
    return 0


def bad_bin(r, keys):
    k = r.choice(keys)
    op = OP[r.choice(sorted(OP))]
    base = NAME[op][:-1] if op in QUIET else NAME[op]

    def inv(data, name, status=INVALID, o=op):
        return Raw("b", data, [("bin", o, 0, status, b"", b"", b"", None)], "%s %s" % (NAME.get(o, "%02x" % o), name))
    x = r.random()
    if x < .2:
        o = r.choice([0x1b, 0x1f, 0x20, 0x21, 0x22, 0x25, 0x3f, 0x4c, 0x4f, 0x51, 0x52, 0x7f, 0x80, 0xfe, 0xff, r.randrange(0x51, 0x100)])
        body = b"z" * r.choice([0, 0, 3, 40, 3000])
        kl = r.choice([0, min(len(body), 3)])
        return inv(hdr(o, kl, 0, len(body), body, r.choice([0, 5])), "unknown", UNKNOWN, o)
    if x < .35:     # lengths that do not fit
        o = r.choice(sorted(OP.values()))
        body = b"q" * r.choice([0, 1, 5])
        kl, el = r.choice([(len(body) + 1, 0), (0, len(body) + 1), (250, 255), (len(body), 1)])
        return inv(hdr(o, kl, el, len(body), body), "lengths beyond the body", o=o)
    if x < .45:
        o = r.choice(sorted(OP.values()))
        kl = r.choice([251, 252, 1000, 65535])
        return inv(hdr(o, kl, 0, kl, b"K" * kl), "long key", o=o)
    if base in ("Noop", "Version", "Quit", "UnlockAll", "Keys", "Stat", "Flush"):
        if base == "Flush":
            return r.choice([inv(bin_req(op, b"k"), "key"), inv(bin_req(op, b"", b"12"), "extras"), inv(bin_req(op, b"", b"", b"v"), "value")])
        if base in ("Keys", "Stat"):
            return r.choice([inv(bin_req(op, b"k", b"1234"), "extras"), inv(bin_req(op, b"k", b"", b"v"), "value")])
        return bad_bin(r, keys)
    if base in ("Set", "Add", "Replace", "RaU"):
        return r.choice([inv(bin_req(op, k, b"\0" * 4, b"v"), "extras 4"), inv(bin_req(op, k, b"", b"v"), "no extras"), inv(bin_req(op, b"", b"\0" * 8, b"v"), "no key"),
                         inv(bin_req(op, k, b"\0" * 8), "no value"), inv(bin_req(op, k, b"\0" * 12, b"v"), "extras 12"),
                         inv(bin_req(op, k, b"\0" * 8, b"z" * (MAXD + 1)), "too large", TOOLARGE) if base != "RaU" and base != "Replace" else inv(bin_req(op, k), "nothing")])
    if base in ("Append", "Prepend"):
        return r.choice([inv(bin_req(op, k, b"\0" * 8, b"v"), "extras"), inv(bin_req(op, b"", b"", b"v"), "no key"), inv(bin_req(op, k), "no value")])
    if base in ("Increment", "Decrement"):
        return r.choice([inv(bin_req(op, k), "no extras"), inv(bin_req(op, k, b"\0" * 19), "extras 19"), inv(bin_req(op, k, b"\0" * 20, b"v"), "value"), inv(bin_req(op, b"", b"\0" * 20), "no key")])
    if base == "Touch":
        return r.choice([inv(bin_req(op, k), "no extras"), inv(bin_req(op, k, b"\0" * 8), "extras 8"), inv(bin_req(op, b"", b"\0" * 4), "no key"), inv(bin_req(op, k, b"\0" * 4, b"v"), "value")])
    if base in ("Delete", "Lock", "Unlock"):
        return r.choice([inv(bin_req(op, k, b"\0" * 4), "extras"), inv(bin_req(op, b""), "no key"), inv(bin_req(op, k, b"", b"v"), "value")])
    return r.choice([inv(bin_req(op, k, b"\0" * 8), "extras 8"), inv(bin_req(op, b""), "no key"), inv(bin_req(op, k, b"", b"v"), "value"), inv(bin_req(op, k, b"\0" * 2), "extras 2")])


def request(r, g, d, keys):
    x = r.random()
    if x < .13:
        return bad_text(r, keys)
    if x < .18:
        return good_text(r, keys)
    if x < .32:
        return bad_bin(r, keys)
    return g.cmd(d)


def paced(conn, data, cuts, pause):
    a = 0
    for b in cuts + [len(data)]:
        conn.send(data[a:b])
        a = b
        if pause:
            time.sleep(pause)


def streams(p, n):
    """Random streams of well-formed and malformed requests of both protocols, cut in every way, on several
    connections that each own their keys, at the same time."""
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=MAXD, gc_interval=3600,
                   workers=r.choice([1, 2, 4]), log__threshold="warning") as s:
        errs = []

        def client(i, seed):
            q = random.Random(seed)
            sub = chk.Part(p.prop, seed, p.tier)
            try:
                m = RModel(T0, MAXD, HEAP)
                d = Driver(sub, s, m, nconn=2)
                keys = [b"%c%d" % (65 + i, j) for j in range(3)]
                g = Gen(q, keys, MAXD, HEAP)
                done = 0
                while done < n:
                    if q.random() < .02:
                        d.reconnect(q.randrange(2), q.choice(["reset", "close", "quit", "quitb"]))
                    cmds = []
                    for _ in range(q.choice([1, 2, 5, 20, 60])):
                        c = request(q, g, d, keys)
                        # key lists show the keys of others
                        if not isinstance(c, Raw) and (c.op == b"keys" or c.op == OP["Keys"]) and not c.key.startswith(keys[0][:1]):
                            continue
                        cmds.append(c)
                    if not cmds:
                        continue
                    if q.random() < .02:
                        d.batch(0, cmds, split=10**9)
                    else:
                        d.batch(q.randrange(2), cmds, split=q.choice([0, 0, 1, 3, 10, 40]))
                    done += len(cmds)
                    for c in cmds:
                        if isinstance(c, Raw):
                            sub.case(c.name, 0)
                        else:
                            sub.case((c.proto, str(c.op), c.quiet()), 0)
                d.close()
            except Exception as e:
                errs.append(e)
            finally:
                subs.append(sub)
        subs = []
        for rnd in range(2 if not p.thorough else 6):
            conc.perturb(s, r)
            # reads of the server end anywhere
            s.shm.set("P_SHORT", r.choice([0, 5000, 20000, 40000]))
            s.shm.set("DELAY_US", r.choice([0, 20, 100]))
            ths = [threading.Thread(target=client, args=(rnd * 4 + i, r.randrange(1 << 30))) for i in range(4)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            if errs:
                raise errs[0]
        for sub in subs:
            p.merge(sub)
        p.count("streams", len(subs))
        conc.noise_off(s)
        p.observe(s)


def prefix(p, arg):
    """A request has no effect and gets no reply until its last byte has arrived; dropped prefixes never have one."""
    part, parts = arg
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=MAXD, gc_interval=3600, workers=2) as s:
        m = RModel(T0, MAXD, HEAP)
        d = Driver(p, s, m, nconn=2)
        V, W = b"17", b"x1234"
        reqs = []
        k = b"k"
        E8 = dict(flags=5, exp=0)
        for op in (b"set", b"add", b"replace", b"append", b"prepend"):
            reqs.append(Cmd("t", op, k, W, 5))
            reqs.append(Cmd("t", op, k, W, 5, noreply=True))
        reqs += [Cmd("t", b"set", k, b"\r\nget k\r\n"), Cmd("t", b"incr", k, num=12), Cmd("t", b"decr", k, num=12, noreply=True), Cmd("t", b"touch", k, exp=99),
                 Cmd("t", b"delete", k), Cmd("t", b"delete", k, noreply=True), Cmd("t", b"lock", k), Cmd("t", b"unlock_all"), Cmd("t", b"get", keys=[k, k, b"zz"]),
                 Cmd("t", b"flush_all", exp=None), Cmd("t", b"flush_all", exp=None, noreply=True), Cmd("t", b"version")]
        for op in ("Set", "SetQ", "Add", "Replace", "ReplaceQ", "Append", "AppendQ", "Prepend"):
            reqs.append(Cmd("b", op, k, W, 5))
        reqs += [Cmd("b", "Delete", k), Cmd("b", "DeleteQ", k), Cmd("b", "Increment", k, num=3, initial=8), Cmd("b", "DecrementQ", k, num=3, initial=8),
                 Cmd("b", "Touch", k, exp=99), Cmd("b", "GaT", k, exp=99), Cmd("b", "GetQ", k, exp=None), Cmd("b", "Lock", k), Cmd("b", "LaGK", k, exp=None), Cmd("b", "Flush", exp=None),
                 Cmd("b", "Noop"), Cmd("b", "Version")]
        jobs = [(q, c) for q in reqs for c in range(1, len(q.encode()))]
        for j, (req, cut) in enumerate(jobs):
            if j % parts != part:
                continue
            d.batch(0, [Cmd("t", b"set", k, V, 1)])
            drop = r.random() < .4
            data = req.encode()
            c = d.conns[1]
            rb = s.shm.get("N_RECV_BYTES")
            c.send(data[:cut])
            end = time.time() + 20
            while s.shm.get("N_RECV_BYTES") < rb + cut:
                if time.time() > end:
                    raise Inconclusive("the server did not read the prefix")
                time.sleep(0.0002)
            # the state is unchanged
            d.batch(0, [Cmd("t", b"gets", keys=[k]), Cmd("b", "GetK", k, exp=None)])
            if c.pending(0):
                p.fail("a reply to an incomplete request: %r after %d of %d bytes: %r" % (req, cut, len(data), c.pending(0)))
            if drop:
                how = r.choice(["reset", "close", "shutdown"])
                if how == "shutdown":
                    c.s.shutdown(socket.SHUT_WR)
                d.reconnect(1, how)
                d.batch(0, [Cmd("t", b"gets", keys=[k]), Cmd("t", b"lock", k), Cmd("t", b"unlock", k)])
                p.case(("dropped", repr(req), cut, how))
            else:
                req2 = [req]
                if req.quiet():
                    req2.append(Cmd("t", b"version") if req.proto == "t" else Cmd("b", "Noop"))
                c.send(data[cut:] + b"".join(x.encode() for x in req2[1:]))
                for x in req2:
                    y = m.expect(c, m.apply(c.ident, x), x.key)
                    if y:
                        p.fail("reply to %r sent in two parts (cut at %d): %s" % (req, cut, y))
                d.batch(1, [Cmd("t", b"gets", keys=[k]), Cmd("t", b"unlock_all")])
                p.case(("completed", repr(req), cut))
        d.close()
        p.observe(s)


def tails(p, arg):
    """Every cut of malformed requests: the boundary to the next request stays where it is."""
    part, parts = arg
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=MAXD, gc_interval=3600, workers=2) as s:
        m = RModel(T0, MAXD, HEAP)
        d = Driver(p, s, m, nconn=2)
        k = b"k"
        reqs = []
        for op in (b"set", b"add", b"replace", b"append", b"prepend", b"cas"):
            for nr in (b"", b" noreply"):
                for v in (b"", b"v", b"\r", b"\n", b"vw", b"\r\n", b"value"):
                    for t in (b"xy", b"\rx", b"x\n", b"\n\n", b"\r\r", b"\n\r"):
                        reqs.append(Raw("t", op + b" k 0 0 %d" % len(v) + (b" 1" if op == b"cas" else b"") + nr + b"\r\n" + v + t, ERR, "storage trailer"))
        reqs = [(q, c) for q in reqs for c in range(q.data.index(b"\n"), len(q.data))]
        seen = set()
        more = bad_text(random.Random(5), [k], True)
        for _ in range(600):
            q = bad_bin(r, [k])
            if (q.name, len(q.data)) not in seen:
                seen.add((q.name, len(q.data)))
                more.append(q)
        for q in more:
            n = len(q.data)
            reqs += [(q, c) for c in (range(1, n) if n < 100 else sorted({1, 2, 23, 24, 25} | set(range(n - 6, n))))]
        d.batch(0, [Cmd("t", b"set", k, b"17", 1)])
        for j, (req, cut) in enumerate(reqs):
            if j % parts != part:
                continue
            data = req.encode()
            c = d.conns[1]
            rb = s.shm.get("N_RECV_BYTES")
            c.send(data[:cut])
            end = time.time() + 20
            while s.shm.get("N_RECV_BYTES") < rb + cut:
                if time.time() > end:
                    raise Inconclusive("the server did not read the prefix")
                time.sleep(0.0001)
            if j % 16 == 0:
                time.sleep(0.0005)
            req2 = [req, Cmd("t", b"gets", keys=[k]) if req.proto == "t" else Cmd("b", "GetK", k, exp=None)]
            c.send(data[cut:] + req2[1].encode())
            for x in req2:
                y = m.expect(c, m.apply(c.ident, x), x.key)
                if y:
                    p.fail("reply to %r sent in two parts (cut at %d of %d): %s" % (req, cut, len(data), y))
            p.case(("tail", repr(req), cut))
        if d.conns[1].pending(0.01):
            p.fail("more replies than requests")
        d.batch(0, [Cmd("t", b"gets", keys=[k])])
        d.close()
        p.observe(s)


def counters(p, n):
    """Counter requests, well-formed and not, in all kinds of cuts."""
    r = p.rng
    OKS, NF, INV, NA, NACQ, UNK = 0, 1, 4, 0x21, 0x22, 0x81
    with yr.Server(B.build("plain"), tag=PROP, workers=r.choice([1, 2]), log__threshold="warning") as s:
        conc.perturb(s, r)
        s.shm.set("P_SHORT", r.choice([0, 5000, 30000, 60000]))
        errs = []

        def client(i, seed):
            q = random.Random(seed)
            sub = chk.Part(p.prop, seed, p.tier)
            subs.append(sub)
            try:
                c = s.counter()
                st = {}
                opq, done = 0, 0
                names = [b"%d.%s" % (i, x) for x in (b"a", b"\x90\x02", b"n" * 500, b"\0")]
                log = []
                while done < n:
                    data, want = b"", []
                    for _ in range(q.choice([1, 2, 8, 40])):
                        opq += 1
                        o = struct.pack(">I", opq)
                        nm = q.choice(names)
                        ln = struct.pack(">H", len(nm))
                        x = q.random()
                        flags = q.choice([0, 0, 0xff])
                        mag = 0x90
                        tail = b"" if q.random() < .8 else b"T" * q.randrange(1, 50)     # ignored
                        if x < .3:
                            a = q.choice([1, 2, 5])
                            mx = q.choice([5, 50, 1000])
                            op, body = 2, struct.pack(">II", a, mx) + ln + nm + tail
                            if nm in st and st[nm] + a > mx:
                                w = (NA, None)
                            else:
                                st[nm] = st.get(nm, 0) + a
                                w = (OKS, struct.pack(">I", a))
                        elif x < .5:
                            a = q.choice([1, 2, 5])
                            op, body = 3, struct.pack(">I", a) + ln + nm + tail
                            if nm not in st:
                                w = (NF, None)
                            elif st[nm] < a:
                                w = (NACQ, None)
                            else:
                                st[nm] -= a
                                w = (OKS, b"")
                        elif x < .65:
                            op, body = 1, ln + nm + tail
                            w = (OKS, struct.pack(">I", st[nm])) if nm in st else (NF, None)
                        elif x < .7:
                            op, body, w = 0, b"" if q.random() < .7 else b"junk", (OKS, b"")
                        else:
                            # malformed
                            y = q.randrange(7)
                            if y == 0:
                                op, body, w = q.choice([4, 5, 0xf, 0x12, 0x7f, 0x80, 0xff]), b"z" * q.choice([0, 1, 100]), (UNK, None)
                            elif y == 1:
                                op, body, w = q.choice([(1, b""), (1, b"\0"), (2, b"\0" * 9), (3, b"\0" * 5), (2, b""), (3, b"")]) + ((INV, None),)
                            elif y == 2:
                                op = q.choice([1, 2, 3])
                                pre = {1: b"", 2: struct.pack(">II", 1, 5), 3: struct.pack(">I", 1)}[op]
                                body, w = pre + struct.pack(">H", len(nm) + q.choice([1, 2, 1000])) + nm, (INV, None)
                            elif y == 3:
                                op = q.choice([1, 2, 3])
                                pre = {1: b"", 2: struct.pack(">II", 1, 5), 3: struct.pack(">I", 1)}[op]
                                body, w = pre + b"\0\0" + nm, (INV, None)
                            elif y == 4:
                                op, body, w = 2, struct.pack(">II", *q.choice([(0, 5), (6, 5), (1, 0), (0xffffffff, 0xfffffffe)])) + ln + nm, (INV, None)
                            else:
                                mag = q.choice([0, 0x80, 0x91, 0x8f, 0xff, 0x0a])
                                op, body, w = q.choice([0, 1, 2, 3, 0x10, 0x11, 0x55]), q.choice([b"", ln + nm, struct.pack(">II", 1, 5) + ln + nm]), (INV, None)
                        data += counter_req(op, body, o, mag, flags)
                        want.append((op, o, w, nm[:10], body[:20]))
                        sub.case(("counter", op, w[0], mag == 0x90, bool(tail)))
                    cuts = sorted({q.randrange(1, len(data)) for _ in range(q.choice([0, 0, 1, 5, 50]))})
                    if q.random() < .03 and len(data) < 3000:
                        cuts = list(range(1, len(data)))
                    paced(c, data, cuts, 0)
                    for op, o, w, nm, body in want:
                        rs = c.recv()
                        txt = "op %02x opaque %r %r body %r: %r" % (op, o, nm, body, rs)
                        if rs.op != op or rs.opaque != o:
                            raise chk.Violation("response out of order or with another opcode or opaque", txt)
                        if rs.status != w[0]:
                            raise chk.Violation("status %x, expected %x" % (rs.status, w[0]), txt)
                        if w[1] is not None and rs.body != w[1]:
                            raise chk.Violation("body %r, expected %r" % (rs.body, w[1]), txt)
                    done += len(want)
                for nm, v in st.items():
                    if c.get(nm) != v:
                        raise chk.Violation("consumption of %r is %r, expected %d" % (nm[:20], c.get(nm), v))
                c.close()
            except Exception as e:
                errs.append(e)
        subs = []
        ths = [threading.Thread(target=client, args=(i, r.randrange(1 << 30))) for i in range(4)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        for sub in subs:
            p.merge(sub)
        conc.noise_off(s)
        p.observe(s)


def hostile(p, n):
    """Garbage, oversized and abandoned requests end at most their own connection; others see nothing of them."""
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=MAXD, gc_interval=3600, workers=r.choice([1, 3]),
                   log__threshold="warning") as s:
        m = RModel(T0, MAXD, HEAP)
        d = Driver(p, s, m, nconn=2)
        keys = [b"good%d" % j for j in range(3)]
        g = Gen(r, keys, MAXD, HEAP)
        cc = s.counter()
        held = 0
        # a state that nobody else may change
        fixed = {b"fix%d" % j: b"value%d" % j * 50 for j in range(20)}
        for k, v in fixed.items():
            d.batch(0, [Cmd("t", b"set", k, v, 7)])

        def others(tag):
            d.batch(0, [g.cmd(d) for _ in range(4)], split=2)
            d.batch(1, [Cmd("t", b"gets", keys=sorted(fixed))])
            nonlocal held
            if cc.acquire(b"good", 1, 10**9).status != 0:
                p.fail("a counter acquisition fails (%s)" % tag)
            held += 1
            if cc.get(b"good") != held:
                p.fail("a counter was changed by another connection's garbage (%s)" % tag)
        others("before")
        kinds = ["random", "random-bin", "random-counter", "trunc", "trunc-counter", "nolf", "bin4g", "bin31m", "counter4g", "text31m", "mutant", "mutant", "mutant-counter", "abandon"]
        for i in range(n):
            kind = r.choice(kinds)
            ctr = kind.endswith("counter") or kind == "counter4g"
            c = yr.Conn(s.counter_port if ctr else s.port, timeout=60)
            must_close = False
            try:
                if kind == "random":
                    # no line of it is a valid command: verbs are made of other letters
                    c.send(b"".join(bytes(r.choice(b"xyzwqj \t\0\xfe\r") for _ in range(r.randrange(200))) + r.choice([b"\n", b"\r\n"]) for _ in range(50)))
                elif kind == "random-bin":
                    for _ in range(20):
                        ln = r.randrange(100)
                        c.send(struct.pack(">BBHBBHII", 0x80, r.choice([0x1b, 0x51, 0x99, 0xff, 0x1f]), r.randrange(65536), r.randrange(256), r.randrange(256), r.randrange(65536), ln, 7) + bytes(8) + b"g" * ln)
                elif kind == "random-counter":
                    for _ in range(20):
                        ln = r.randrange(100)
                        c.send(struct.pack(">BBBBI", r.choice([0x90, 0, 0x80]), r.choice([4, 9, 0x20, 0xff]), r.randrange(256), r.randrange(256), ln) + b"opqu" + bytes(r.randrange(256) for _ in range(ln)))
                elif kind == "trunc":
                    x = r.choice([Cmd("t", b"set", b"fix0", b"broken"), Cmd("b", "Set", b"fix0", b"broken"), Cmd("b", "Delete", b"fix0"), Cmd("t", b"delete", b"fix0"), Cmd("t", b"flush_all", exp=None)]).encode()
                    c.send(x[:r.randrange(1, len(x))])
                elif kind == "trunc-counter":
                    x = counter_req(2, struct.pack(">IIH", 1, 10**9, 4) + b"good")
                    c.send(x[:r.randrange(1, len(x))])
                elif kind == "nolf":
                    c.send(b"set fix1 0 0 5 " + b" " * 5000)
                elif kind == "bin4g":
                    c.send(struct.pack(">BBHBBHIIQ", 0x80, 1, 4, 8, 0, 0, 0xffffffff, 7, 0) + b"\0" * 8 + b"fix2")
                    for _ in range(33):
                        c.send(b"D" * (1 << 20))
                    must_close = True
                elif kind == "bin31m":
                    # complete, but larger than any item may be
                    n2 = r.choice([MAXD + 1, 1 << 20, 5 << 20])
                    c.send(struct.pack(">BBHBBHIIQ", 0x80, 1, 4, 8, 0, 0, n2 + 12, 7, 0) + b"\0" * 8 + b"fix2" + b"D" * n2 + bin_req("Noop", opaque=5))
                    b = yr.Bin.__new__(yr.Bin)
                    b.s, b.buf = c.s, b""
                    r1, r2 = b.recv(), b.recv()
                    if r1.status != TOOLARGE or r2.op != OP["Noop"] or r2.opaque != 5:
                        p.fail("a value that is too large: %r, then %r" % (r1, r2))
                elif kind == "counter4g":
                    c.send(struct.pack(">BBBBI", 0x90, 2, 0, 0, 0xffffffff) + b"opqu" + struct.pack(">IIH", 1, 10**9, 4) + b"good")
                    for _ in range(33):
                        c.send(b"D" * (1 << 20))
                    must_close = True
                elif kind == "text31m":
                    c.send(r.choice([b"set fix3 0 0 4294967295\r\n", b"get "]))
                    for _ in range(33):
                        c.send(b"D" * (1 << 20))
                    must_close = True
                elif kind in ("mutant", "mutant-counter"):
                    # damage to the header of a request that names an untouched key; the value of no item may change
                    if kind == "mutant":
                        x = bytearray(bin_req(r.choice(["Get", "GetK", "Touch", "Noop", "Version"]), b"nokey", b"", b""))
                        for _ in range(r.randrange(1, 4)):
                            x[r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 23])] = r.randrange(256)
                    else:
                        x = bytearray(counter_req(1, struct.pack(">H", 5) + b"nokey"))
                        for _ in range(r.randrange(1, 3)):
                            x[r.choice([0, 2, 3, 4, 5, 6, 7, 12, 13])] = r.randrange(256)
                    c.send(bytes(x))
                elif kind == "abandon":
                    c.send(b"get " + b" ".join(sorted(fixed)) + b"\r\n" + b"get fix0\r\n" * 2000)
                others(kind)
                if must_close:
                    if not c.closed_by_peer(60):
                        p.fail("an endless request (%s) does not end its connection" % kind)
                    if r.random() < .5:
                        others(kind)
            except ConnClosed:
                if kind in ("random", "random-bin", "random-counter", "trunc", "trunc-counter", "nolf", "abandon", "bin31m"):
                    p.fail("the connection was closed after %s" % kind)
            if r.random() < .5:
                c.reset()
            else:
                c.close()
            others(kind)
            p.case(("hostile", kind))
        ks = s.text()
        got = set(ks.keys())
        want = {k for k, it in m.items.items() if m.live(k)}
        if got != want:
            p.fail("keys that nobody stored, or lost ones: extra %r missing %r" % (sorted(got - want)[:5], sorted(want - got)[:5]))
        d.close()
        p.count("hostile_connections", n)


def pipeline(p, n):
    """Thousands of requests in one go, sent while the replies are read: one reply each, in order."""
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, workers=r.choice([1, 4]), heap_data_limit=HEAP) as s:
        conc.perturb(s, r)
        for i in range(n):
            t, b = s.text(timeout=60), s.bin(timeout=60)
            N = r.choice([500, 3000])
            # quiet gets that miss are silent, those that hit are answered; every 7th request is not quiet
            b.set(b"hit", b"H" * r.choice([1, 100, 3000]))
            data, want = [], []
            for j in range(N):
                x = r.random()
                if j == N - 1 or x < .15:
                    data.append(bin_req("Noop", opaque=j))
                    want.append((OP["Noop"], j, 0))
                elif x < .3:
                    data.append(bin_req("GetQ", b"hit", opaque=j))
                    want.append((OP["GetQ"], j, 0))
                elif x < .5:
                    data.append(bin_req(r.choice(["GetQ", "GetKQ", "GaTQ", "GaTKQ", "DeleteQ"]), b"miss", opaque=j))
                elif x < .6:
                    data.append(bin_req("SetQ", b"s%d" % (j % 50), bytes(8), b"v%d" % j, opaque=j))
                elif x < .7:
                    data.append(bin_req("AddQ", b"hit", bytes(8), b"v", opaque=j))
                    want.append((OP["AddQ"], j, 2))
                elif x < .8:
                    data.append(bin_req("Delete", b"miss", opaque=j))
                    want.append((OP["Delete"], j, 1))
                elif x < .85:
                    data.append(bin_req("UnlockQ", b"hit", opaque=j))
                    want.append((OP["UnlockQ"], j, 0x11))
                else:
                    data.append(bin_req(0x60, b"k", opaque=j))
                    want.append((0x60, j, UNKNOWN))
            blob = b"".join(data)
            th = threading.Thread(target=lambda: b.s.sendall(blob))
            th.start()
            for j, w in enumerate(want):
                rs = b.recv()
                if (rs.op, rs.opaque, rs.status) != w:
                    p.fail("reply %d of a pipeline of %d: expected op, opaque, status %r, got %r" % (j, N, w, rs))
            th.join()
            # the same for text with numbered keys
            blob = b"".join(b"set p%d 0 0 %d%s\r\n%s\r\nget p%d\r\n" % (j % 40, len(b"%d" % j), b" noreply" if j % 3 else b"", b"%d" % j, j % 40) for j in range(N))
            th = threading.Thread(target=lambda: t.s.sendall(blob))
            th.start()
            for j in range(N):
                if j % 3 == 0 and t.line() != b"STORED\r\n":
                    p.fail("pipelined set: no STORED")
                l = t.read_values()
                if isinstance(l, bytes) or len(l) != 1 or l[0][2] != b"%d" % j:
                    p.fail("pipelined get %d: %r" % (j, l))
            th.join()
            if t.pending(0.01) or b.pending(0):
                p.fail("more replies than requests")
            p.case(("pipeline", N), N * 2)
            t.close()
            b.close()
        conc.noise_off(s)
        p.observe(s)


def run(ck):
    B.build("plain")
    ck.jobs(streams, [ck.scale(2000, 15000)] * ck.scale(8, 32))
    ck.jobs(prefix, [(i, 8) for i in range(8)])
    ck.jobs(tails, [(i, 8) for i in range(8)])
    ck.jobs(counters, [ck.scale(5000, 40000)] * 6)
    ck.jobs(hostile, [ck.scale(100, 400)] * 6)
    ck.jobs(pipeline, [ck.scale(4, 60)] * 4)


if __name__ == "__main__":
    chk.main(PROP, "streams of well-formed and malformed requests of the three protocols in random cuts (client side and injected short reads), "
             "judged by the reference model; every cut of every kind of request, well-formed or not, with dropped and completed remainders; hostile connections "
             "next to monitored ones; long pipelines; distinct by request kind, malformation and cut", run)

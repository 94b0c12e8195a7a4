"""States in which threads of the server wait for slow clients."""
import struct
import time

from yr import Bin, ConnClosed, Counter, Text, Timeout, bin_req, counter_req


def big(s, n=3, size=900000, prefix=b"big"):
    c = s.text(timeout=60)
    for i in range(n):
        c.set(b"%s%d" % (prefix, i), b"B" * size)
    c.reset()


def stall(s, how, rng=None, key=b"big0"):
    """A client that sends requests and does not read: a worker waits while it answers. Returns the connection."""
    kw = dict(rcvbuf=4096 if rng is None else rng.choice([4096, 20000]), timeout=3)
    try:
        if how == "stats":                # without the lock of a bucket
            c = Text(s.port, **kw)
            c.send(b"stats\r\n" * 3000)
        elif how == "get":                # with the lock of a bucket
            c = Text(s.port, **kw)
            c.send(b"get %s %s %s %s\r\n" % (key, key, key, key) * 50)
        elif how == "bget":
            c = Bin(s.port, **kw)
            c.send(bin_req("Get", key) * 200)
        elif how == "keys":
            c = Text(s.port, **kw)
            c.send(b"keys\r\n" * 3000)
        elif how == "dump":
            c = Counter(s.counter_port, **kw)
            c.send(counter_req(0x11) * 3000)
        elif how == "cstats":
            c = Counter(s.counter_port, **kw)
            c.send(counter_req(0x10) * 5000)
        else:
            raise KeyError(how)
    except (ConnClosed, Timeout):
        pass
    return c


def drained(c, timeout=20):
    """Read until nothing comes any longer."""
    c.s.settimeout(.7)
    n = 0
    end = time.time() + timeout
    try:
        while time.time() < end:
            d = c.s.recv(1 << 20)
            if not d:
                break
            n += len(d)
    except OSError:
        pass
    return n


def holder_gone(p, s, kind, stall2):
    """The locks of a reset connection are to be released while a stalled reader keeps their bucket."""
    s.intervals(20)
    time.sleep(.1)
    if kind == "counter":
        h = s.counter()
        h.acquire(b"res0", 1, 5)
    else:
        h = s.bin()
        h.cmd("Lock", b"big0")
    first = stall(s, "stats" if kind != "counter" else "cstats")
    time.sleep(.1)
    h.reset()
    s.intervals(5)
    time.sleep(.05)
    second = stall(s, stall2)
    time.sleep(.15)
    n = drained(first)
    p.count("drained_bytes", n)
    return first, second

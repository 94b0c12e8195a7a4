"""Masters and slaves on one host: joining, draining and promotion."""
import os
import signal
import time

import build as B
import yr
from yr import Inconclusive, ServerDied

VIP = "127.0.0.2"


def slave(m, tag="s", exe=None, wait=True, **kw):
    """A slave of the server m, with the same limits."""
    conf = dict(vip=m.vip, own_vip=False, repl_port=m.repl_port, fast=m.fast, vtime=m.shm.get("TIME"))
    for k in ("heap_data_limit", "max_data_size", "slave_timeout", "secure_erase", "memory_limit", "gc_interval", "repl_buffer_size"):
        if k in m.conf:
            conf[k] = m.conf[k]
    conf.update(kw)
    s = yr.Server(exe or B.build("plain"), tag=tag, start=False, **conf)
    # the repl_port is shared, the others are not
    s.start(wait=False)
    if wait:
        s.wait_log("Slave start")
    return s


def slaves_of(m):
    return int(m.stats()[b"slaves"])


def wait_joined(m, n, timeout=60):
    end = time.time() + timeout
    while slaves_of(m) != n:
        if time.time() > end:
            raise Inconclusive("%d slaves instead of %d\n%s" % (slaves_of(m), n, m.diag()))
        if not m.alive():
            raise ServerDied(m.diag())
        time.sleep(.005)


def queues(port):
    """Bytes that are queued in the kernel for connections of this TCP port (either side)."""
    t = 0
    for f in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            with open(f) as fp:
                next(fp)
                for l in fp:
                    x = l.split()
                    if x[3] != "01":
                        continue
                    if port in (int(x[1].rsplit(":", 1)[1], 16), int(x[2].rsplit(":", 1)[1], 16)):
                        a, b = x[4].split(":")
                        t += int(a, 16) + int(b, 16)
        except OSError:
            pass
    return t


def drain(m, slaves, timeout=120):
    """Wait until nothing is under way from the master to its slaves: the reactors of all of them turn while no byte moves."""
    end = time.time() + timeout
    calm = 0
    last = None
    while calm < 3:
        if time.time() > end:
            raise Inconclusive("replication does not come to rest\n" + m.diag())
        e = [x.shm.get("N_EPOLL") for x in [m] + slaves]
        t = time.time() + .12
        while time.time() < t or any(x.shm.get("N_EPOLL") < y + 12 for x, y in zip([m] + slaves, e)):
            if time.time() > end:
                raise Inconclusive("a reactor stands still\n" + m.diag())
            for x in [m] + slaves:
                if not x.alive():
                    raise ServerDied(x.diag())
            time.sleep(.005)
        now = [x.shm.get("N_RECV_BYTES") for x in slaves]
        # heartbeats are single bytes
        calm = calm + 1 if now == last and queues(m.repl_port) < 50 else 0
        last = now


def synced(m, slaves, gc=True):
    """Initial synchronisation of all slaves is over and updates have drained."""
    wait_joined(m, len(slaves))
    m.intervals(4)
    if gc:
        m.force_gc(2)
    drain(m, slaves)


def promote(s, timeout=60):
    """The master is gone: give the address to this slave."""
    s.shm.set("TIME", max(s.shm.get("TIME"), 1))
    s.shm.set("SLEEP_DIV", 1)
    s.shm.set("VIP_ADDR", yr.ip2int(s.vip))
    s.wait_master(timeout)


def freeze(s):
    s.proc.send_signal(signal.SIGSTOP)


def thaw(s):
    s.proc.send_signal(signal.SIGCONT)


def contents(s, prefix=b""):
    """{key: (flags, value)} of a server."""
    c = s.text(timeout=60)
    ks = c.keys(prefix)
    out = {}
    for k in ks:
        if k in out:
            return ks, None
        g = c.get(k)
        if g is not None:
            out[k] = (g[1], g[2])
    c.close()
    return ks, out

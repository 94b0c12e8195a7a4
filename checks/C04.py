"""C04: locks exclude others, die with their connection, and belong to nobody else."""
import os
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import yr
from gen import Driver, Gen
from model import Cmd, Model, T30
from yr import T0

PROP = "C04"
HEAP, MAXD = 4096, 16384


def history(p, n):
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=conc.HEAP, workers=r.choice([2, 4, 8]), gc_interval=1) as s:
        for i in range(n):
            conc.perturb(s, r)
            conc.drive(p, s, 2, r.randrange(1, 1 << 30), keys=r.choice([1, 2, 4]), ops=r.choice([300, 700]), resets=r.choice([0, 2, 6]), clock=r.choice([0, 3]))
            c = s.text()
            for k in c.keys():
                c.send(b"delete %s\r\n" % k)
                c.line()
            c.close()
        conc.noise_off(s)
        p.observe(s)


def walk(p, n):
    """Sequential lock-heavy walks with connections that come and go; descriptors are reused at once."""
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, heap_data_limit=HEAP, max_data_size=MAXD, gc_interval=3600,
                   workers=r.choice([1, 3])) as s:
        d = Driver(p, s, Model(T0, MAXD, HEAP), nconn=4)
        g = Gen(r, [b"a", b"b", b"c%d" % r.randrange(1000)], MAXD, HEAP, lockheavy=True)
        done = 0
        while done < n:
            x = r.random()
            if x < .05:
                ci = r.randrange(len(d.conns))
                held = sum(1 for it in d.m.items.values() if it.lock == d.conns[ci].ident)
                how = r.choice(["reset", "close", "quit", "quitb", "shutdown"])
                d.reconnect(ci, how)
                p.case(("disconnect", how, held), 1)
                p.count("disconnects_with_%s_locks" % ("no" if not held else "some"))
            elif x < .07:
                d.advance(r.choice([1, 5, 100, T30]) if d.m.now < 2**32 - 10**8 else 1)
            elif x < .075:
                d.gc()
            else:
                ci = r.randrange(len(d.conns))
                k = r.choice([1, 1, 2, 6])
                cmds = [g.cmd(d) for _ in range(k)]
                owner = {key: it.lock for key, it in d.m.items.items()}
                me = d.conns[ci].ident
                d.batch(ci, cmds)
                done += k
                for c in cmds:
                    o = owner.get(c.key, -1)
                    p.case((str(c.op), "absent" if o == -1 else "free" if o is None else "mine" if o == me else "other", c.quiet()), 0)
        d.close()
        p.observe(s)


def reuse(p, n):
    """A lock whose owner has just disconnected, and a newcomer that gets its descriptor."""
    r = p.rng
    with yr.Server(B.build("plain"), tag=PROP, workers=2) as s:
        w = s.text()
        for i in range(n):
            conc.perturb(s, r)
            k = b"r%d" % (i % 5)
            w.store(b"set", k, b"1")
            a = s.text()
            if a.cmd(b"lock " + k) != b"OK":
                p.fail("lock of a free object failed")
            extra = [s.text() for _ in range(r.choice([0, 0, 3]))]
            how = r.choice(["reset", "quit", "close"])
            if how == "quit":
                a.send(b"quit\r\n")
                if not a.closed_by_peer(30):
                    p.fail("quit does not close the connection")
            if how == "reset":
                a.reset()
            else:
                a.close()
            new = [s.text() for _ in range(3)]
            # a newcomer never owns the lock
            for j, c in enumerate(new):
                x = c.cmd(b"unlock " + k)
                if x != b"CLIENT_ERROR object is not locked or not found":
                    p.fail("a connection that never locked %r could unlock it: %r" % (k, x), how)
                p.case(("reuse", how, j, len(extra)))
            end = time.time() + 30
            while True:
                x = new[0].cmd(b"lock " + k)
                if x == b"OK":
                    break
                if x != b"LOCKED":
                    p.fail("lock: %r" % x)
                if time.time() > end:
                    p.fail("the lock of %r outlived its connection (%s) by 30 s" % (k, how))
                time.sleep(0.001)
            # the release belonged to the former owner only: the new lock stays
            time.sleep(0.01)
            for c in new[1:]:
                x = c.store(b"set", k, b"2")
                if x != b"LOCKED":
                    p.fail("an object locked by another connection was written: %r" % x, how)
            if new[0].cmd(b"unlock " + k) != b"OK":
                p.fail("the owner cannot unlock")
            for c in new + extra:
                c.reset()
        p.count("reuse_rounds", n)


def survive(p, n):
    """Locked objects outlive expiration, flush_all and eviction, until they are unlocked."""
    r = p.rng
    for i in range(n):
        with yr.Server(B.build("plain"), tag=PROP, memory_limit="100K" if r.random() < .5 else "100M", gc_interval=10) as s:
            a, b = s.text(), s.text()
            keys = [b"k%d" % j for j in range(20)]
            for k in keys:
                a.store(b"set", k, b"v" + k, exp=5)
            for k in keys[:10]:
                if a.cmd(b"lock " + k) != b"OK":
                    p.fail("cannot lock")
            if r.random() < .5:
                b.cmd(b"flush_all")
            for j in range(300):
                b.store(b"set", b"fill%d" % j, b"x" * 1000)
            s.advance(10)
            s.force_gc(3)
            for k in keys[:10]:
                x = b.get(k)
                if not isinstance(x, tuple) or x[2] != b"v" + k:
                    p.fail("a locked object disappeared: %r -> %r" % (k, x))
                if b.cmd(b"delete " + k) != b"LOCKED":
                    p.fail("a locked object could be deleted by another connection")
                p.case(("survives", "locked"))
            for k in keys[10:]:
                if b.get(k) is not None:
                    p.fail("an expired object is visible")
            for k in keys[:10]:
                if a.cmd(b"unlock " + k) != b"OK":
                    p.fail("the owner cannot unlock a locked object that has expired")
            for k in keys[:10]:
                if b.get(k) is not None:
                    p.fail("an expired object is visible after it was unlocked")
                p.case(("survives", "unlocked"))


def run(ck):
    B.build("plain")
    conc.tool()
    ck.jobs(history, [ck.scale(5, 60)] * ck.scale(8, 48))
    ck.jobs(walk, [ck.scale(2500, 40000)] * ck.scale(8, 48))
    ck.jobs(reuse, [ck.scale(60, 1500)] * 4 )
    ck.jobs(survive, [ck.scale(2, 20)] * 4)


if __name__ == "__main__":
    chk.main(PROP, "histories with locks checked for linearizability with lock owners in the state, sequential walks with disconnects "
             "against the reference model, descriptor-reuse scenarios, locks under expiration, flush and eviction; distinct by command, "
             "owner relation and way of disconnecting, and by interleaving", run,
             assumptions=["release after a disconnect may take up to 30 s before it is called missing"])

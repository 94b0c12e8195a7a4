"""C09: roles follow the virtual address: takeover, demotion and slave handling on several real nodes."""
import os
import random
import signal
import socket
import struct
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import repl
import yr
from yr import T0, ConnClosed, Timeout, Inconclusive

PROP = "C09"


def master(**kw):
    conf = dict(vip=repl.VIP, slave_timeout=10**8, heap_data_limit=4096, gc_interval=10, log__threshold="info")
    conf.update(kw)
    return yr.Server(B.build("plain"), tag=PROP, **conf)


def refuses(p, s, what):
    """A node that is not the master gives no client an answer on any port."""
    for port, req in ((s.port, b"version\r\nset intruder 0 0 1\r\nx\r\n"), (s.port, yr.bin_req("Noop")),
                      (s.counter_port, struct.pack(">BBBBII", 0x90, 0, 0, 0, 0, 1))):
        try:
            c = yr.Conn(port, timeout=20)
        except OSError:
            p.case()
            continue
        try:
            c.send(req)
            d = c.s.recv(100)
            if d:
                p.fail("a node that is not the master (%s) answers clients: %r" % (what, d))
        except socket.timeout:
            p.fail("a node that is not the master (%s) keeps client connections open" % what)
        except (ConnectionError, ConnClosed):
            pass
        finally:
            c.close()
        p.case()


def until(f, what, timeout=60, alive=()):
    end = time.time() + timeout
    while not f():
        for s in alive:
            if not s.alive():
                raise yr.ServerDied(s.diag())
        if time.time() > end:
            return False
        time.sleep(.003)
    return True


# -- a cluster under random events ------------------------------------------------

def cluster(p, n):
    """Writes through the master while nodes crash, lose the address, come back and stall."""
    r = p.rng
    nodes = []
    m = master()
    nodes.append(m)
    try:
        for _ in range(r.choice([1, 2, 3])):
            nodes.append(repl.slave(m, tag=PROP + "n"))
        ver, floor, serial = {}, {}, [0]     # key -> (serial or None) now and at the last moment of rest

        def work(k):
            c = m.text(timeout=60)
            for _ in range(k):
                serial[0] += 1
                key = b"k%d" % r.randrange(40)
                x = r.random()
                if x < .75:
                    z = r.choice([0, 10, 3000, 5000])
                    v = b"%d:%s:" % (serial[0], key) + b"d" * z
                    if c.set(key, v, serial[0] & 0xffff) != b"STORED":
                        p.fail("set failed on the master")
                    ver[key] = serial[0]
                elif x < .95:
                    x = c.cmd(b"delete " + key)
                    if x != (b"DELETED" if ver.get(key) else b"NOT_FOUND"):
                        p.fail("delete of %s on the master: %r" % (key, x))
                    ver[key] = None
                else:
                    got = c.get(key)
                    if (got is None) != (not ver.get(key)) or got and int(got[2].split(b":")[0]) != ver[key]:
                        p.fail("%s: wrong value on the master: %r" % (key, got and got[2][:50]))
            c.close()

        def read(s):
            ks, c = repl.contents(s)
            out = {}
            for k, (f, v) in c.items():
                a = v.split(b":")
                if a[1] != k or f != int(a[0]) & 0xffff:
                    p.fail("%r holds a value that was never stored there: %r flags %d" % (k, v[:60], f))
                out[k] = int(a[0])
            return out

        def settle():
            live = [x for x in nodes if x is not m]
            for x in live:
                repl.thaw(x)
            end = time.time() + 60
            while repl.slaves_of(m) != len(live):
                if time.time() > end:
                    p.fail("%d slaves are running, but %d are connected 60 s after the master was there" % (len(live), repl.slaves_of(m)),
                           "\n".join(x.log()[-1500:] for x in live) + m.log()[-2000:])
                time.sleep(.01)
            repl.synced(m, live)
            floor.clear()
            floor.update(ver)
            caught[:] = live

        caught = []
        settle()
        for rnd in range(n):
            work(r.choice([5, 50]))
            rest = r.random() < .6
            if rest:
                settle()
                if r.random() < .3:
                    for x in nodes:
                        if x is not m:
                            refuses(p, x, "slave")
            live = [x for x in nodes if x is not m]
            x = r.random()
            if x < .55 and live:
                # the master goes: crash, or loss of the address
                old = m
                heir = r.choice(live)
                if not rest:
                    # only a slave that was caught up once has to have the data of that time
                    able = [y for y in live if y in caught]
                    if not able:
                        continue
                    heir = r.choice(able)
                how = r.choice(["kill", "kill", "vip", "term"])
                if how == "kill":
                    old.kill()
                elif how == "term":
                    old.kill(signal.SIGTERM)
                else:
                    old.shm.set("VIP_ADDR", 0)
                    old.shm.set("TIME", old.now() + int(old.conf["gc_interval"]) + 2)
                try:
                    end = time.time() + 60
                    while old.proc.poll() is None and time.time() < end:
                        # collection has to be due again if one was under way
                        if how == "vip":
                            old.shm.set("TIME", old.now() + int(old.conf["gc_interval"]) + 2)
                        time.sleep(.05)
                    if old.proc.poll() is None:
                        p.fail("a master that %s is still running after 60 s" % ("lost the address" if how == "vip" else "got " + how), old.log()[-2000:])
                    if how == "vip" and old.proc.returncode < 0:
                        p.fail("the master crashed (%d) when it lost the address" % old.proc.returncode, old.diag())
                finally:
                    pass
                t = old.now()
                nodes.remove(old)
                time.sleep(r.choice([0, .02, .1, .4]))
                if r.random() < .3:
                    for y in nodes:
                        repl.thaw(y)
                        refuses(p, y, "no master")
                for y in nodes:
                    y.shm.set("TIME", t)
                repl.thaw(heir)
                heir.shm.set("VIP_ADDR", yr.ip2int(repl.VIP))
                try:
                    heir.wait_master(60)
                except Inconclusive:
                    p.fail("a slave with the address did not become master within 60 s of the loss of the old one (%s)" % how, heir.log()[-3000:])
                m = heir
                got = read(m)
                if rest:
                    want = {k: v for k, v in ver.items() if v}
                    if got != want:
                        bad = [k for k in set(got) | set(want) if got.get(k) != want.get(k)]
                        p.fail("after takeover (%s) of a caught-up slave the data differ, e.g. %s" % (
                            how, [(k, want.get(k), got.get(k)) for k in bad[:4]]), m.log()[-2000:])
                else:
                    for k, v in got.items():
                        if v < (floor.get(k) or 0) or v > serial[0]:
                            p.fail("after takeover %s is older than at the last moment of rest: %d < %s" % (k, v, floor[k]))
                    for k, v in floor.items():
                        if v and ver.get(k) == v and got.get(k) != v:
                            p.fail("after takeover %s, replicated long ago and untouched since, is %s instead of %d" % (k, got.get(k), v))
                ver = dict(got)
                floor = dict(got)
                caught = []
                p.case(("takeover", how, rest, len(nodes), min(len(got), 40)), len(got) + 1)
                p.count("takeovers_" + how)
                if r.random() < .8:
                    # it comes back as a slave
                    old.wd and old.cleanup()
                    nodes.append(repl.slave(m, tag=PROP + "n", wait=False))
                else:
                    old.cleanup()
            elif x < .65 and live:
                y = r.choice(live)
                nodes.remove(y)
                y.cleanup()
                p.count("slave_crashes")
            elif x < .8 and live:
                repl.freeze(r.choice(live))
                p.count("slave_stalls")
                work(20)
            elif len(nodes) < 5:
                nodes.append(repl.slave(m, tag=PROP + "n", wait=False))
            if len(nodes) == 1:
                nodes.append(repl.slave(m, tag=PROP + "n", wait=False))
        settle()
        for x in nodes:
            if x is not m:
                refuses(p, x, "slave")
        p.observe(m)
    finally:
        for x in nodes:
            x.cleanup()
        m.cleanup()


def rejoin(p, n):
    """A slave whose master is replaced by another forgets the old data."""
    r = p.rng
    for _ in range(n):
        a = master()
        b = s = None
        try:
            c = a.text(timeout=60)
            for i in range(50):
                c.set(b"old%d" % i, b"A" * r.choice([1, 5000]))
                c.set(b"both%d" % i, b"A" * r.choice([1, 5000]), 1)
            s = repl.slave(a, tag=PROP + "s")
            repl.synced(a, [s])
            # the address is at a node elsewhere
            how = r.choice(["kill", "term", "recverr"])
            if how == "recverr":
                # only the connection breaks
                s.shm.set("SEED", r.randrange(1, 1 << 30))
                s.shm.set("P_RECVERR", 65535)
                until(lambda: c.set(b"kick", b"1") and s.log().count("Slave end") > 0, "", 30, [s])
                s.shm.set("P_RECVERR", 0)
                for i in range(50):
                    c.cmd(b"delete old%d" % i)
                    c.set(b"both%d" % i, b"B", 2)
                    c.set(b"new%d" % i, b"B", 2)
                b = a
            else:
                a.kill(signal.SIGKILL if how == "kill" else signal.SIGTERM)
                a.proc.wait(60)
                if r.random() < .5:
                    time.sleep(.5)
                b = master(repl_port=a.repl_port)
                c = b.text(timeout=60)
                for i in range(50):
                    c.set(b"both%d" % i, b"B", 2)
                    c.set(b"new%d" % i, b"B", 2)
            if not until(lambda: repl.slaves_of(b) == 1 and s.log().count("Slave start") > 1, "", 60, [s, b]):
                p.fail("the slave does not rejoin within 60 s (%s)" % how, s.log()[-2000:])
            repl.synced(b, [s])
            refuses(p, s, "slave")
            want = repl.contents(b)[1]
            b.kill()
            b.proc.wait()
            s.shm.set("TIME", b.now())
            repl.promote(s)
            got = repl.contents(s)[1]
            if set(got) != set(want):
                p.fail("after rejoining (%s) the slave has other items than its new master: %r" % (how, sorted(set(got) ^ set(want))[:5]))
            if got != want:
                p.fail("after rejoining (%s) the values on the slave differ" % how)
            p.case(("rejoin", how), len(want))
        finally:
            for x in (a, b, s):
                if x:
                    x.cleanup()


def heartbeats(p, n):
    """A slave that is silent for the configured time is dropped, not before; one that beats is kept."""
    r = p.rng
    to = r.choice([3, 10, 60])
    with master(slave_timeout=to, gc_interval=10**7, repl_buffer_size=1) as m:
        ss = [repl.slave(m, tag=PROP + "s") for _ in range(2)]
        try:
            repl.wait_joined(m, 2)
            for rnd in range(n):
                if len(ss) < 2:
                    ss.append(repl.slave(m, tag=PROP + "s"))
                    repl.wait_joined(m, 2)

                def beat(who):
                    """Heartbeats sent after the present clock was taken over have arrived."""
                    b = [x.shm.get("N_SEND_BYTES") for x in who]
                    end = time.time() + 60
                    while any(x.shm.get("N_SEND_BYTES") < y + 3 for x, y in zip(who, b)):
                        if time.time() > end:
                            p.fail("a slave sends no heartbeats")
                        time.sleep(.003)
                    m.intervals(3)
                # all beat: nobody is dropped however long it takes
                for _ in range(r.choice([3, 8])):
                    beat(ss)
                    m.advance(to - 1)
                    m.intervals(2)
                    if repl.slaves_of(m) != 2:
                        p.fail("a slave was dropped %d s after its heartbeat, slave_timeout is %d" % (to - 1, to), m.log()[-1500:])
                    p.case(("kept", to))
                v, o = (ss if r.random() < .5 else ss[::-1])
                beat(ss)
                repl.freeze(v)
                t0 = m.now()
                e = m.shm.get("N_EPOLL")
                until(lambda: m.shm.get("N_EPOLL") > e + 10, "")
                # the last heartbeat arrived at t0 or before
                m.set_time(t0 + to - 1)
                m.intervals(2)
                early = repl.slaves_of(m)
                if early != 2:
                    p.fail("a slave was dropped %d s after its last heartbeat, slave_timeout is %d" % (to - 1, to), m.log()[-1500:])
                beat([o])
                m.set_time(t0 + to + 1)
                if not until(lambda: repl.slaves_of(m) == 1, "", 30, [m]):
                    p.fail("a slave silent for %d s is not dropped, slave_timeout is %d" % (to + 1, to), m.log()[-1500:])
                p.case(("dropped", to))
                # it comes back when it goes on
                if r.random() < .5:
                    repl.thaw(v)
                    if not until(lambda: repl.slaves_of(m) == 2, "", 60, [m, v]):
                        p.fail("a slave that was dropped does not join again", v.log()[-1500:])
                else:
                    ss.remove(v)
                    v.cleanup()
                    if repl.slaves_of(m) != 1:
                        p.fail("the other slave was dropped, too")
            p.observe(m)
        finally:
            for x in ss:
                x.cleanup()


def blocked(p, arg):
    """Dead, slow and flapping slaves: clients wait until the slave is given up at the longest."""
    n, first = arg
    r = p.rng
    for rnd in range(n):
        ss = []
        with master(slave_timeout=20, gc_interval=r.choice([5, 10**7]), repl_buffer_size=1, workers=r.choice([2, 4]), max_data_size="10M", heap_data_limit="4M") as m:
            try:
                kind = ["dead", "sync", "flap", "slow", "dead"][(first + rnd) % 5]
                c0 = m.text(timeout=120)
                c0.cmd(b"version")
                base = len(os.listdir("/proc/%d/fd" % m.proc.pid))
                if kind == "sync":
                    for i in range(60):
                        c0.set(b"i%d" % i, b"i" * 300000)
                for _ in range(r.choice([1, 3])):
                    ss.append(repl.slave(m, tag=PROP + "s", wait=kind != "sync"))
                if kind != "sync":
                    repl.wait_joined(m, len(ss))
                    m.intervals(4)
                done = [0] * 4
                errs = []
                N = 40

                def client(i):
                    try:
                        c = m.text(timeout=120)
                        for j in range(N):
                            if c.set(b"%d-%d" % (i, j), b"%d:" % j * 60000, j) != b"STORED":
                                raise chk.Violation("set failed while a slave is %s" % kind)
                            done[i] += 1
                        c.close()
                    except Exception as e:
                        errs.append(e)
                ths = [threading.Thread(target=client, args=(i,)) for i in range(4)]
                if kind in ("dead", "sync"):
                    for x in ss:
                        if kind == "dead" or r.random() < .8:
                            repl.freeze(x)
                    if kind == "sync":
                        repl.freeze(ss[0])
                for t in ths:
                    t.start()
                end = time.time() + 120
                if kind in ("dead", "sync"):
                    # they get stuck
                    last, since = None, time.time()
                    while time.time() - since < .5 and time.time() < end:
                        x = sum(done)
                        if x != last:
                            last, since = x, time.time()
                        time.sleep(.01)
                    p.count("stuck_at", sum(done))
                    p.count("stuck", int(sum(done) < 4 * N))
                    for _ in range(5):
                        m.shm.set("TIME", m.now() + 6)
                        m.intervals(3)
                    # all slaves were silent for more than the timeout, or were given up before
                elif kind == "slow":
                    while any(t.is_alive() for t in ths) and time.time() < end:
                        for x in ss:
                            repl.freeze(x)
                        time.sleep(.05)
                        for x in ss:
                            repl.thaw(x)
                        time.sleep(.02)
                else:
                    while any(t.is_alive() for t in ths) and time.time() < end:
                        i = r.randrange(len(ss))
                        if r.random() < .5:
                            repl.freeze(ss[i])
                            time.sleep(.02)
                        ss[i].cleanup()
                        ss[i] = repl.slave(m, tag=PROP + "s", wait=False)
                        time.sleep(.05)
                for t in ths:
                    t.join(max(0, end - time.time()))
                if any(t.is_alive() for t in ths):
                    if not m.alive():
                        raise yr.ServerDied(m.diag())
                    p.fail("clients are still blocked 120 s (and the timeout) after the slaves became %s: %s" % (kind, done), m.log()[-3000:])
                if errs:
                    raise errs[0]
                for i in range(4):
                    for j in r.sample(range(N), 8):
                        g = c0.get(b"%d-%d" % (i, j))
                        if g is None or g[2] != b"%d:" % j * 60000 or g[1] != j:
                            p.fail("an item is wrong after a slave was %s" % kind)
                for x in ss:
                    x.cleanup()
                ss = []
                m.shm.set("TIME", m.now() + 30)
                repl.wait_joined(m, 0)

                def fds():
                    m.shm.set("TIME", m.now() + 12)
                    m.intervals(3)
                    # the connection of stats is one more
                    return len(os.listdir("/proc/%d/fd" % m.proc.pid)) <= base + 1 + 4
                if not until(fds, "", 30, [m]):
                    p.fail("descriptors are not released after slaves left (%s): %d, %d before" % (kind, len(os.listdir("/proc/%d/fd" % m.proc.pid)), base), "\n".join(os.popen("ls -l /proc/%d/fd; ss -tnp | grep pid=%d" % (m.proc.pid, m.proc.pid)))+m.log())
                p.case(("blocked", kind, min(4 * N, sum(done))), 4 * N)
                p.count("blocked_" + kind)
                p.observe(m)
            finally:
                for x in ss:
                    x.cleanup()


def addresses(p, n):
    """Loss and gain of the address in other situations."""
    r = p.rng
    for _ in range(n):
        # 1. no master anywhere: the node serves nobody until it gets the address
        s = yr.Server(B.build("plain"), tag=PROP, vip=repl.VIP, own_vip=False, start=False)
        try:
            s.start(wait=False)
            s.wait_log("Failed to connect to the master")
            refuses(p, s, "alone")
            time.sleep(r.choice([0, .1, .4]))
            s.shm.set("VIP_ADDR", yr.ip2int(repl.VIP))
            s.wait_master(60)
            c = s.text()
            if c.set(b"a", b"b") != b"STORED":
                p.fail("the new master does not store")
            p.case("alone")
            # 2. it loses the address: it must end, within a collection interval, with clients connected and busy
            stop = threading.Event()

            def load():
                try:
                    x = s.text(timeout=10)
                    while not stop.is_set():
                        x.set(b"l", b"x" * 1000)
                except Exception:
                    pass
            th = threading.Thread(target=load)
            if r.random() < .5:
                th.start()
            s.intervals(2)
            s.shm.set("VIP_ADDR", 0 if r.random() < .5 else yr.ip2int("127.0.0.9"))
            until(lambda: s.shm.set("TIME", s.now() + int(s.conf["gc_interval"]) + 2) or time.sleep(.02) or not s.alive(), "", 60)
            stop.set()
            if s.alive():
                p.fail("a master without the address is still running")
            if s.proc.returncode < 0:
                p.fail("the master crashed when it lost the address: %d" % s.proc.returncode, s.diag())
            try:
                c.cmd(b"version")
                p.fail("answered after the end")
            except (ConnClosed, OSError):
                pass
            if th.ident:
                th.join()
            p.case("lost")
        finally:
            s.cleanup()
        # 2b. the same while collection waits for a slave that hangs: after the slave's timeout at the latest
        s = master(slave_timeout=20, gc_interval=5, repl_buffer_size=1, heap_data_limit="4M", max_data_size="4M")
        x = None
        try:
            c = s.text(timeout=60)
            for i in range(40):
                c.set(b"i%d" % i, b"i" * 400000)
            x = repl.slave(s, tag=PROP + "s")
            repl.freeze(x)
            time.sleep(.3)
            s.shm.set("VIP_ADDR", 0)
            until(lambda: s.shm.set("TIME", s.now() + 6) or time.sleep(.05) or not s.alive(), "", 60)
            if s.alive():
                p.fail("a master without the address whose slave hangs is still running", s.log()[-2000:])
            if s.proc.returncode < 0:
                p.fail("the master crashed when it lost the address: %d" % s.proc.returncode, s.diag())
            p.case("lost while synchronising")
        finally:
            s.cleanup()
            if x:
                x.cleanup()
        # 3. the address moves to a slave whose master is still connected (it hangs)
        fake = socket.socket()
        fake.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        port = yr.free_port()
        fake.bind(("127.0.0.2", port))
        fake.listen(5)
        s = yr.Server(B.build("plain"), tag=PROP, vip=repl.VIP, own_vip=False, start=False, repl_port=port)
        try:
            s.start(wait=False)
            fake.settimeout(60)
            cn, _ = fake.accept()
            fake.close()
            for i in range(20):
                cn.sendall(yr.bin_req("SetQ", b"f%d" % i, struct.pack(">II", i, 0), b"v%d" % i))
            b = s.shm.get("N_RECV_BYTES")
            s.wait_log("Slave start")
            until(lambda: s.shm.get("N_RECV_BYTES") >= 20 * 24 + 200, "", 20)
            refuses(p, s, "slave")
            cn.settimeout(30)
            if not cn.recv(1):
                p.fail("no heartbeat")
            s.shm.set("VIP_ADDR", yr.ip2int(repl.VIP))
            s.wait_master(60)
            got = repl.contents(s)[1]
            if got != {b"f%d" % i: (i, b"v%d" % i) for i in range(20)}:
                p.fail("data differ after a takeover from a master that hangs: %r" % sorted(got)[:5])
            cn.settimeout(30)
            try:
                while cn.recv(4096):
                    pass
            except ConnectionError:
                pass
            except socket.timeout:
                p.fail("the new master keeps the connection to the old one")
            cn.close()
            p.case("hung master")
        finally:
            s.cleanup()
            fake.close()


def limit(p, n):
    """Five slaves at most; the next one gets in when one leaves."""
    r = p.rng
    with master(workers=2) as m:
        ss = []
        try:
            c = m.text(timeout=60)
            for i in range(100):
                c.set(b"k%d" % i, b"v%d" % i)
            for i in range(7):
                ss.append(repl.slave(m, tag=PROP + "s", wait=False))
            repl.wait_joined(m, 5)
            m.intervals(20)
            if repl.slaves_of(m) != 5:
                p.fail("%d slaves" % repl.slaves_of(m))
            for _ in range(n):
                x = ss.pop(r.randrange(len(ss)))
                x.cleanup()
                end = time.time() + 60
                m.intervals(5)
                if not until(lambda: repl.slaves_of(m) == min(5, len(ss)), "", 60, [m]):
                    p.fail("%d slaves are running but %d are connected" % (len(ss), repl.slaves_of(m)))
                if c.set(b"x", b"y") != b"STORED":
                    p.fail("set failed")
                ss.append(repl.slave(m, tag=PROP + "s", wait=False))
                p.case("limit")
            p.observe(m)
        finally:
            for x in ss:
                x.cleanup()


def run(ck):
    B.build("plain")
    ck.jobs(blocked, [(ck.scale(2, 8), i) for i in range(ck.scale(10, 32))])
    ck.jobs(cluster, [ck.scale(14, 100)] * ck.scale(10, 40))
    ck.jobs(rejoin, [ck.scale(2, 10)] * ck.scale(4, 16))
    ck.jobs(heartbeats, [ck.scale(3, 12)] * ck.scale(4, 16))
    ck.jobs(addresses, [ck.scale(2, 10)] * ck.scale(4, 16))
    ck.jobs(limit, [ck.scale(3, 10)] * ck.scale(2, 8))


if __name__ == "__main__":
    chk.main(PROP, "clusters of 2-5 real nodes whose address moves on crashes, terminations and loss of the address; the history of acknowledged "
             "writes judges every takeover; heartbeat timeouts by the virtual clock; clients that work while slaves hang, crawl or flap; "
             "distinct by event, circumstances and number of items", run)

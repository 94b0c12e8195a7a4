"""C15: no data races and no lock-order inversions (ThreadSanitizer)."""
import os
import random
import signal
import struct
import subprocess
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["YV_VARIANT"] = "tsan"       # build("plain") of this process and its jobs
import build as B
import chk
import conc
import repl
import reuse
import yr
import C14
from yr import bin_req, counter_req, ConnClosed, Timeout, Inconclusive, ServerDied

PROP = "C15"


def storm(p, n):
    C14.storm(p, n, variant="tsan")


def judge(p, s, what):
    if s.san():
        p.fail("ThreadSanitizer reports %s" % what, s.diag())


def lifecycle(p, n):
    """Servers that start, become slaves and masters, and end, in the middle of everything."""
    r = p.rng
    for i in range(n):
        log = None
        with C14.server(p, variant="tsan", vip=repl.VIP, slave_timeout=10**8, repl_buffer_size=2, max_data_size="1M", gc_interval=1,
                        memory_limit="200K", start=False, log__threshold=r.choice(["info", "debug"])) as m:
            log = os.path.join(m.wd, "log")
            m.conf["log.file"] = log
            m.start()
            conc.perturb(m, r)
            sl = [repl.slave(m, tag=PROP, exe=B.build("tsan"), wait=False) for _ in range(r.choice([0, 1, 2]))]
            stop = threading.Event()
            left = [0]

            def client(seed):
                q = random.Random(seed)
                while not stop.is_set():
                    try:
                        c = yr.connect(q.choice([m.port, m.counter_port]), 5, rcvbuf=q.choice([0, 4096]))
                        c.settimeout(.05)
                        for _ in range(q.choice([1, 20])):
                            c.sendall(q.choice([
                                bin_req("Set", b"k%d" % q.randrange(9), bytes(8), b"v" * q.choice([1, 5000, 200000])),
                                bin_req("Get", b"k%d" % q.randrange(9)) * q.choice([1, 30]),
                                bin_req("LaG", b"k%d" % q.randrange(9)), bin_req("Stat"), bin_req("Keys"),
                                bin_req("Flush", b"", struct.pack(">I", 0)) if q.random() < .1 else bin_req("Noop"),
                                bin_req("Delete", b"k1"), bin_req("Quit") if q.random() < .1 else bin_req("Version"),
                                b"\x90" if q.random() < .05 else bin_req("Noop")]))
                            if q.random() < .5:
                                c.recv(100000)
                    except OSError:
                        pass
                    finally:
                        left[0] += 1
                        if q.random() < .8:
                            try:
                                c.setsockopt(1, 13, struct.pack("ii", 1, 0))
                            except OSError:
                                pass
                        c.close()

            def clock():
                while not stop.wait(.003):
                    m.shm.set("TIME", m.shm.get("TIME") + 1)
                    if random.random() < .05:
                        m.kill(random.choice([signal.SIGHUP, signal.SIGUSR1]))
                        if random.random() < .3:
                            try:
                                os.rename(log, log + ".1")
                            except OSError:
                                pass
            th = [threading.Thread(target=client, args=(r.randrange(1 << 40),), daemon=True) for _ in range(8)]
            th.append(threading.Thread(target=clock, daemon=True))
            for t in th:
                t.start()
            try:
                time.sleep(r.choice([.1, .4, 1.5]))
                how = r.choice(["term", "term", "lost", "kill"])
                if how == "term":
                    m.kill(signal.SIGTERM)
                elif how == "lost":
                    m.shm.set("VIP_ADDR", 0)        # the master ends by itself
                else:
                    m.kill()
                try:
                    m.proc.wait(30)
                except subprocess.TimeoutExpired:
                    p.count("not_ended")            # not judged here
                    m.kill()
                    m.proc.wait()
                stop.set()
                for t in th:
                    t.join(30)
                judge(p, m, "in a server that is ending (%s)" % how)
                p.case(("end", how, len(sl), m.shm.get("ORDER_HASH")))
                p.count("clients", left[0])
                p.observe(m)
                for j, s in enumerate(sl):
                    if j == 0 and s.alive() and r.random() < .7:
                        try:
                            repl.promote(s, 60)
                            p.count("promotions")
                            c = s.bin(timeout=20)
                            c.cmd("Keys")
                        except (Inconclusive, ConnClosed, Timeout, ServerDied, OSError):
                            p.count("not_promoted")
                    s.kill(signal.SIGTERM)
                    try:
                        s.proc.wait(30)
                    except subprocess.TimeoutExpired:
                        p.count("not_ended")
                        s.kill()
                        s.proc.wait()
                    judge(p, s, "in a slave")
            finally:
                stop.set()
                for s in sl:
                    s.cleanup()


def job(p, arg):
    arg[0](p, arg[1])


# workloads of other checks that are mostly about one client at a time get fewer repetitions
def run(ck):
    B.build("plain")
    conc.tool(), conc.ctool()
    cat = reuse.catalogue(["C%02d" % i for i in (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12)])
    args = []
    for k, v in sorted(cat.items()):
        if k in (("C11", "evict"), ("C11", "churn"), ("C05", "matrix"), ("C02", "matrix"), ("C06", "prefix")) and not ck.thorough:
            continue                            # one client, slow
        ck.rng.shuffle(v)
        args += [(reuse.job, k + (x,)) for x in v[:ck.scale(1, 12)]]
    args = [(storm, ck.scale(6, 100))] * ck.scale(4, 16) + [(lifecycle, ck.scale(4, 60))] * ck.scale(8, 32) + args
    ck.jobs(job, args)
    if ck.counts.get("workloads", 0) < 20:
        raise Inconclusive("the workloads did not run")


if __name__ == "__main__":
    chk.main(PROP, "no report of ThreadSanitizer (data races between plain or insufficiently ordered atomic accesses, inversions of the order of locks, "
             "misuse of locks) in any server, master or slave, from startup to its end, under storms of all protocols with slaves and signals, "
             "servers ending in the middle of activity, and the workloads of the other checks; distinct by lock order and by the "
             "signatures of those workloads", run,
             assumptions=["synchronisation by system calls alone (epoll, eventfd) is understood as ThreadSanitizer models it",
                          "races need both accesses in one execution, not at the same instant"])

"""C01: concurrent commands on a key are linearizable (recorded histories, WGL search)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import yr

PROP = "C01"


def history(p, arg):
    profile, n, slave = arg
    r = p.rng
    kw = dict(heap_data_limit=conc.HEAP, max_data_size="1M", workers=r.choice([2, 4, 8]), gc_interval=1,
              secure_erase=r.choice(["true", "false"]), buckets=r.choice([7, 10007]), slave_timeout=10**8)
    if slave:
        kw["vip"] = "127.0.0.2"
    with yr.Server(B.build("plain"), tag=PROP, **kw) as s:
        sl = None
        try:
            if slave:
                # a slave that joins, leaves and joins again
                sl = yr.Server(B.build("plain"), tag=PROP + "s", vip="127.0.0.2", own_vip=False, repl_port=s.repl_port,
                               heap_data_limit=conc.HEAP, slave_timeout=10**8)
                p.count("with_slave")
            for i in range(n):
                conc.perturb(s, r)
                conc.drive(p, s, profile, r.randrange(1, 1 << 30), keys=r.choice([1, 2, 3, 6]),
                           ops=r.choice([300, 600, 1000]), resets=r.choice([0, 0, 2]),
                           clock=r.choice([0, 3]))
                c = s.text()
                for k in c.keys():
                    c.send(b"delete %s\r\n" % k)
                    c.line()
                c.close()
            conc.noise_off(s)
            p.count("collections", s.gc_count())
            p.observe(s)
        finally:
            if sl:
                sl.cleanup()


def run(ck):
    B.build("plain")
    conc.tool()
    jobs = []
    for i in range(ck.scale(16, 64)):
        jobs.append(([0, 3, 0, 1][i % 4], ck.scale(6, 60), i % 5 == 4))
    ck.jobs(history, jobs)


if __name__ == "__main__":
    chk.main(PROP, "histories of 3-16 connections on 1-6 keys, text and binary, pipelined, quiet and with resets, under injected "
             "delays and short reads while the collector runs; a case is one operation of a history found linearizable, distinct by "
             "the kinds, outcomes and overlap of four successive completions", run,
             assumptions=["time stamps of the client: an operation takes effect between sending it and reading its reply",
                          "silence of a quiet or noreply command is bounded by the next reply on its connection",
                          "commands of one connection take effect in order"])

"""C22: log lines are never torn or lost across reopening."""
import os
import re
import signal
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import conc
import yr
from yr import Inconclusive

PROP = "C22"
WAIT = 120
LINE = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d (ERROR|WARN|INFO|DEBUG) (.+)")
STAMP = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d (?:ERROR|WARN|INFO|DEBUG) ")
ALL = 65536


class Log:
    """The log of a server with all the files it was in."""

    def __init__(self, p, path):
        self.p, self.path, self.old, self.n = p, path, [], 0

    def read(self, f=None):
        try:
            with open(f or self.path, "rb") as fp:
                return fp.read()
        except OSError:
            return b""

    def rename(self):
        self.n += 1
        f = "%s.%d" % (self.path, self.n)
        os.rename(self.path, f)
        self.old.append(f)

    def wait(self, text, count=1, what="", s=None):
        end = time.time() + 40
        while self.read().count(text) < count:
            if s is not None and not s.alive():
                raise yr.ServerDied(s.diag())
            if time.time() > end:
                self.p.fail("no %r in the log file of the configured name %s" % (text, what), self.read()[-500:])
            time.sleep(.003)

    def text(self, extra=b""):
        return b"".join(self.read(f) for f in self.old) + self.read() + extra

    def lines(self, extra=()):
        """All lines, each of which has to be a whole record."""
        out = []
        for f in self.old + [self.path] + list(extra):
            d = self.read(f)
            if d and f not in extra and not d.endswith(b"\n"):
                self.p.fail("a log line has no end", (f, d[-200:]))
            for l in d.split(b"\n")[:-1]:
                m = LINE.fullmatch(l)
                if m is None and f in extra:
                    continue        # stack dumps, which are no records
                if m is None:
                    self.p.fail("a torn log line", (f, l[:300]))
                if STAMP.search(m.group(2)):
                    self.p.fail("two records in a log line", (f, l[:300]))
                out.append((m.group(1), m.group(2)))
        return out


def server(p, **kw):
    wd = yr.workdir(p.prop + "log")
    path = os.path.join(wd, "log", "yr.log")
    os.mkdir(os.path.dirname(path))
    kw.setdefault("workers", p.rng.choice([4, 8]))
    s = yr.Server(B.build("plain"), tag=p.prop, start=False, heap_data_limit=4096, log__file='"%s"' % path, slave_timeout=10 ** 8,
                  buckets=10007, counter__buckets=101, **kw)
    return wd, path, s


def reopen(p, s, log, how):
    """Move the file away (or not) and have it reopened."""
    r = p.rng
    before = log.read().count(b"got SIGHUP.")
    if how == "rename":
        log.rename()
        before = 0
        time.sleep(r.choice([0, 0, .001, .005]))
    s.kill(signal.SIGHUP)
    log.wait(b"got SIGHUP.\n", before + 1, "after a reopen signal", s)
    if how == "rename":
        return log.old[-1], os.path.getsize(log.old[-1])


def race(p, i):
    """Many threads log while the file is moved away and reopened."""
    r = p.rng
    wd, path, s = server(p, gc_interval=1)
    try:
        log = Log(p, path)
        first = b"2001-01-01 00:00:00 INFO here before the start\n"
        keep = r.random() < .5
        if keep:
            with open(path, "wb") as fp:
                fp.write(first)
        s.start()
        t = s.text(timeout=WAIT)
        # what it says when a value cannot be put into a file
        n = len(log.read())
        s.shm.set("P_TMPFAIL", ALL)
        base = s.shm.get("N_TMPFAIL")
        if t.set(b"a", b"x" * 5000) != b"STORED":
            p.fail("not stored")
        log.wait(b"\n", log.read()[:n].count(b"\n") + 1, "after an error", s)
        said = log.read()[n:]
        m = LINE.fullmatch(said[:-1])
        if m is None or m.group(1) != b"ERROR":
            p.fail("an error is not logged as such", said)
        msg = m.group(2)
        conc.perturb(s, r)
        # stderr is shared with stack dumps, which could come between the parts of a record
        s.shm.set("P_SHORT", 0 if i % 2 else r.choice([0, 5000, 40000]))
        s.shm.set("P_EINTR", r.choice([0, 5000]))
        s.shm.set("P_DELAY", r.choice([0, 500, 5000]))
        s.shm.set("DELAY_US", r.choice([50, 500]))
        over, errors = threading.Event(), []
        total = [0]
        lock = threading.Lock()

        def work(w):
            try:
                c = s.text(timeout=WAIT)
                while not over.is_set():
                    k = 40
                    c.send(b"".join(b"set k%d-%d 0 0 4200 noreply\r\n%s\r\n" % (w, x, b"v" * 4200) for x in range(k)) + b"version\r\n")
                    c.line()
                    with lock:
                        total[0] += k
            except Exception as x:
                errors.append(x)
        ths = [threading.Thread(target=work, args=(w,)) for w in range(r.choice([2, 4, 7]))]
        for x in ths:
            x.start()
        hups = usr = 0
        sizes = []
        lost = 0
        for k in range(40 * (6 if p.thorough else 1)):
            how = r.choice(["rename", "rename", "same", "usr1", "gone"] if i % 2 else ["rename", "rename", "same"])
            if how == "usr1":
                x = log.read().count(b"memcache master: ")
                s.kill(signal.SIGUSR1)
                log.wait(b"memcache master: ", x + 1, "after SIGUSR1", s)
                log.wait(b"counter: ", x + 1, "after SIGUSR1", s)
                usr += 1
            elif how == "gone":
                # it cannot be opened for a while; the records go to stderr
                d = os.path.dirname(path)
                os.rename(d, d + ".x")
                e = s.log().count("got SIGHUP.")
                s.kill(signal.SIGHUP)
                s.wait_log("got SIGHUP.", count=e + 1)
                lost += 1
                hups += 1
                time.sleep(r.choice([0, .005]))
                os.rename(d + ".x", d)
                reopen(p, s, log, "same")
                hups += 1
            else:
                x = reopen(p, s, log, how)
                if x:
                    sizes.append(x)
                hups += 1
            p.case(("reopen", how, len(ths), i % 2))
            time.sleep(r.choice([0, .002, .01]))
            if errors:
                break
        over.set()
        for x in ths:
            x.join()
        if errors:
            if not s.alive():
                raise yr.ServerDied(s.diag())
            raise errors[0]
        conc.noise_off(s)
        x = log.read().count(b"counter: ")
        s.kill(signal.SIGUSR1)
        log.wait(b"counter: ", x + 1, "after SIGUSR1", s)
        usr += 1
        want = s.shm.get("N_TMPFAIL") - base
        if want < total[0]:
            raise Inconclusive("only %d of %d sets met the fault" % (want, total[0]))
        # the number of records may follow the fault by a moment
        lines = log.lines([os.path.join(s.wd, "stderr")])
        have = sum(1 for l, x in lines if x == msg)
        p.check(have == want, "%d records of an error are in the log, but it happened %d times" % (have, want), (hups, lost))
        n = sum(1 for l, x in lines if x == b"got SIGHUP.")
        p.check(n == hups, "%d records of SIGHUP, but there were %d" % (n, hups))
        n = sum(1 for l, x in lines if x.startswith(b"memcache master: "))
        p.check(n == usr, "%d records of SIGUSR1, but there were %d" % (n, usr))
        for f, n in sizes:
            p.check(os.path.getsize(f) == n, "a file grows after the log was reopened", (f, n, log.read(f)[n:][:300]))
        if keep:
            p.check(log.read(log.old[0] if log.old else path).startswith(first), "records from before the start are gone")
        for l, x in set(lines):
            p.case(("line", l, re.sub(rb"\d+", b"#", x)))
        p.count("records", len(lines))
        p.count("reopened", hups)
        p.count("failed_reopens", lost)
        p.count("files", len(log.old) + 1)
        p.observe(s)
    finally:
        s.cleanup()
        chk.rmtree(wd) if hasattr(chk, "rmtree") else __import__("shutil").rmtree(wd, ignore_errors=True)


def slave(p, i):
    """A slave logs every object it gets, with a name of its own, while its log is reopened."""
    r = p.rng
    wd, path, s = server(p, log__threshold="debug", vip="127.0.0.2", repl_port=None, workers=2)
    m = None
    try:
        log = Log(p, path)
        m = yr.Server(B.build("plain"), tag=p.prop + "m", vip="127.0.0.2", slave_timeout=10 ** 8, gc_interval=10 ** 6)
        s.repl_port = s.conf["repl_port"] = m.repl_port
        s.shm.set("VIP_ADDR", 0)
        s.start(wait=False)
        log.wait(b"Slave start", 1, "", s)
        t = m.text(timeout=WAIT)
        n = 0
        m.wait_log("Initial replication completed")
        t.set(b"synced", b"1")
        end = time.time() + WAIT
        while b"repl: set synced\n" not in log.text():
            t.set(b"synced", b"1")
            time.sleep(.05)
            if time.time() > end:
                raise Inconclusive("the slave is not synchronised")
        s.shm.set("P_SHORT", r.choice([0, 5000, 40000]))
        s.shm.set("P_EINTR", r.choice([0, 5000]))
        hups = 0
        for k in range(30 * (6 if p.thorough else 1)):
            q = r.choice([1, 50, 300])
            names = [b"%s%d" % (b"n" * r.choice([1, 10, 100, 200]), n + x) for x in range(q)]
            t.send(b"".join(b"set %s 0 0 1 noreply\r\n1\r\n" % x for x in names))
            n += q
            log_old = reopen(p, s, log, r.choice(["rename", "same"]))
            hups += 1
            p.case(("slave", q, bool(log_old)))
        t.cmd(b"version")
        t.set(b"the-end", b"1")
        end = time.time() + WAIT
        while b"repl: set the-end\n" not in log.text():
            time.sleep(.05)
            if not s.alive():
                raise yr.ServerDied(s.diag())
            if time.time() > end:
                p.fail("what a slave gets is not in its log", log.read()[-300:])
        lines = [x for _, x in log.lines([os.path.join(s.wd, "stderr")])]
        got = [x[10:] for x in lines if re.fullmatch(rb"repl: set n+\d+", x)]
        p.check(len(set(got)) == len(got), "a record is in the log twice")
        num = sorted(int(x.lstrip(b"n")) for x in got)
        p.check(num == list(range(n)), "%d of %d records are in the log" % (len(num), n), sorted(set(range(n)) - set(num))[:20])
        p.check(lines.count(b"got SIGHUP.") == hups, "%d records of SIGHUP, but there were %d" % (lines.count(b"got SIGHUP."), hups))
        p.count("records", len(lines))
        p.count("reopened", hups)
        p.observe(s)
    finally:
        s.cleanup()
        if m:
            m.cleanup()
        __import__("shutil").rmtree(wd, ignore_errors=True)


LEVELS = [b"error", b"warning", b"info", b"debug"]
NAMES = [b"ERROR", b"WARN", b"INFO", b"DEBUG"]


def levels(p, i):
    """Exactly the records of the chosen severities are written."""
    r = p.rng
    init = r.randrange(4)
    wd, path, s = server(p, log__threshold=LEVELS[init].decode(), gc_interval=10)
    try:
        log = Log(p, path)
        s.start()
        t, c = s.text(timeout=WAIT), s.counter(timeout=WAIT)
        time.sleep(.05)
        got0 = {l for l, _ in log.lines()}
        p.check(got0 <= set(NAMES[:init + 1]), "records beyond the threshold %s at the start" % LEVELS[init].decode(), got0)
        level = init
        s.shm.set("P_TMPFAIL", ALL)
        for k in range(8 * (4 if p.thorough else 1)):
            if k:
                level = r.randrange(4)
                x = t.cmd(b"verbosity %s" % LEVELS[level])
                p.check(x == b"OK", "verbosity is refused", x)
            if r.random() < .3:
                reopen_safe(p, s, log, level)
            off = len(log.text())
            want = set()
            for what in r.sample(range(4), r.randrange(1, 5)):
                want.add(what)
                if what == 0:
                    t.set(b"big", b"x" * 5000)
                elif what == 1:
                    x = s.text(timeout=WAIT)
                    try:
                        x.send(b"set " + b"x" * (31 << 20))
                        if not x.closed_by_peer(WAIT):
                            p.fail("an endless request is not ended")
                    except (yr.ConnClosed, yr.Timeout):
                        pass
                    x.close()
                elif what == 2:
                    # after the requests of this thread the dump is done by the reactor; wait for the record or for time to pass
                    x = log.read().count(b"INFO counter: ")
                    s.kill(signal.SIGUSR1)
                    if level >= 2:
                        log.wait(b"INFO counter: ", x + 1, "after SIGUSR1", s)
                    else:
                        s.intervals(3)
                else:
                    s.force_gc()
            s.intervals(2)
            d = log.text()[off:]
            sev = [NAMES.index(m.group(1)) for m in map(LINE.fullmatch, d.split(b"\n")[:-1]) if m]
            p.check(all(x <= level for x in sev), "records of %r with threshold %s" % (sorted({NAMES[x] for x in sev}), LEVELS[level].decode()), d[-500:])
            for x in want:
                if x <= level:
                    p.check(x in sev, "no %s record with threshold %s" % (NAMES[x].decode(), LEVELS[level].decode()), d[-500:])
                p.case(("level", x, level, init))
        log.lines()
        p.count("records", len(log.lines()))
        p.observe(s)
    finally:
        s.cleanup()
        __import__("shutil").rmtree(wd, ignore_errors=True)


def reopen_safe(p, s, log, level):
    """The threshold survives a reopen."""
    log.rename()
    s.kill(signal.SIGHUP)
    end = time.time() + WAIT
    while not os.path.exists(log.path):
        if time.time() > end:
            p.fail("no log file after a reopen signal")
        time.sleep(.001)
    s.intervals(2)


def job(p, a):
    {"race": race, "slave": slave, "levels": levels}[a[0]](p, a[1])


def main(ck):
    B.build("plain")
    n = ck.scale(1, 6)
    ck.jobs(job, [(k, i) for k, c in (("race", 16), ("slave", 6), ("levels", 12)) for i in range(c * n)])


if __name__ == "__main__":
    chk.main(PROP, "one evaluation = one reopening of the log during the load, one kind of record found, or one severity at one threshold; distinct = those with their circumstances", main,
             assumptions=["records are counted by injected failures to create temporary files, by signals acknowledged in the log and by replicated objects with names of their own",
                          "a log file that cannot be written (disk full) ends the server by design"])

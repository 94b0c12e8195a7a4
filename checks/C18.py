"""C18: configuration is either applied as written or rejected."""
import os
import re
import shutil
import signal
import socket
import subprocess
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build as B
import chk
import yr
from yr import ConnClosed, Inconclusive, Timeout

PROP = "C18"
WS = " \f\n\r\t\v"
INTMAX = 2 ** 31 - 1
K = 1024

# documented defaults (docs/usage.md)
DEFAULTS = {
    "user": "", "group": "", "virtual_ip": "127.0.0.1", "port": 11211, "repl_port": 11213, "bind_ip": [],
    "max_connections": 0, "temp_dir": "/var/tmp", "log.threshold": "info", "log.file": "", "buckets": 1000000,
    "max_data_size": 1 << 20, "heap_data_limit": 256 << 10, "repl_buffer_size": 30,
    "initial_repl_sleep_delay_usec": 0, "secure_erase": False, "lock_memory": False, "memory_limit": 1024 << 20,
    "workers": 8, "gc_interval": 10, "slave_timeout": 10, "counter.enable": False, "counter.port": 11215,
    "counter.max_connections": 0, "counter.buckets": 1000000, "counter.stat_interval": 86400,
}
RANGES = {
    "port": (1, 65535), "repl_port": (1, 65535), "counter.port": (1, 65535), "max_connections": (0, INTMAX),
    "counter.max_connections": (0, INTMAX), "buckets": (1, INTMAX), "counter.buckets": (1, INTMAX),
    "repl_buffer_size": (1, 65536), "initial_repl_sleep_delay_usec": (0, 2 ** 64 - 1), "workers": (1, 64),
    "gc_interval": (1, INTMAX), "slave_timeout": (1, INTMAX), "counter.stat_interval": (10, INTMAX),
}
SIZES = {"max_data_size": 1, "heap_data_limit": 4096, "memory_limit": 1}
BOOLS = ("secure_erase", "lock_memory", "counter.enable")
REJECT = ("reject",)


def parse_int(v, lo, hi):
    m = re.fullmatch(r"([ \t\n\r\f\v]*)([+-]?)(\d+)", v, re.A)
    if not m:
        return REJECT
    n = int(m.group(2) + m.group(3))
    if not lo <= n <= hi:
        return REJECT
    if m.group(1) or m.group(2):
        return ("either", n)        # spaces within quotes, signs
    return ("value", n)


def parse_value(key, v):
    """What a value means: rejected, a value, or either."""
    if key in RANGES:
        return parse_int(v, *RANGES[key])
    if key in SIZES:
        unit = 1
        if v and v[-1] in "kKmMgG":
            unit = {"k": 1 << 10, "m": 1 << 20, "g": 1 << 30}[v[-1].lower()]
            v = v[:-1]
        r = parse_int(v, 1, INTMAX)
        soft = False
        if r == REJECT:
            r = parse_int(v.rstrip(WS), 1, INTMAX)      # "5 M"
            soft = True
            if r == REJECT:
                # numbers that are not accepted for lack of range only
                r = parse_int(v, 1, 2 ** 64 // unit)
        if r == REJECT or r[1] * unit < SIZES[key]:
            return REJECT
        return ("either" if soft else r[0], r[1] * unit)
    if key in BOOLS:
        return ("value", v == "true") if v in ("true", "false") else REJECT
    if key == "virtual_ip":
        a = ip(v)
        return ("value", a) if a else REJECT
    if key == "bind_ip":
        l = [ip(x) for x in v.split(" ") if x]
        return REJECT if None in l else ("value", l)
    if key == "temp_dir":
        return ("value", v) if os.path.isdir(v) else REJECT
    if key == "log.threshold":
        return ("value", v) if v in ("error", "warning", "info", "debug") else REJECT
    if key == "log.file":
        return ("value", v) if v.startswith("/") else REJECT
    return ("value", v)     # user, group


def ip(s):
    for fam in (socket.AF_INET, socket.AF_INET6):
        try:
            return socket.inet_ntop(fam, socket.inet_pton(fam, s))
        except (OSError, ValueError):
            pass
    return None


def reference(text):
    """(expected values, keys for which a rejection is fine, too) or None if the file has to be rejected."""
    d = {}
    for l in text.split("\n"):
        l = l.strip(WS)
        if not l or l[0] == "#":
            continue
        if "=" not in l:
            return None
        k, v = l.split("=", 1)
        k, v = k.rstrip(WS), v.lstrip(WS)
        if len(v) >= 2 and v[0] == v[-1] == '"':
            v = v[1:-1]
        d[k] = v
    out, soft = dict(DEFAULTS), False
    for k, v in d.items():
        if k not in DEFAULTS:
            continue                # not an option of the server
        r = parse_value(k, v)
        if r[0] == "reject":
            return None
        soft |= r[0] == "either"
        out[k] = r[1]
    return out, soft


# -- many files, read by the code of the server ------------------------------------------
def gen_int(r, lo, hi):
    x = r.random()
    if x < .55:
        return str(r.choice([lo, lo + 1, hi, hi - 1, r.randint(lo, min(hi, lo + 100)), r.randint(lo, hi), min(hi, 10 ** r.randrange(1, 10) + lo)]))
    n = r.choice([lo, lo + 1, hi, r.randint(lo, hi)])
    return r.choice([
        str(lo - 1), str(hi + 1), str(-r.randint(1, 10 ** 6)), str(2 ** 31), str(2 ** 32 + n), str(2 ** 64 + n), str(10 ** 30), "",
        "%dabc" % n, "%d %d" % (n, n), "%d.5" % n, "%d,000" % n, "%de3" % n, "0x%x" % n, "%dK" % n, "%dM" % n, "%d;" % n,
        "%d # %d" % (n, n), "ten", "-", "+", "#%d" % n, "%d-" % n, "--%d" % n, "00%d" % n, "+%d" % n, "-%d" % n, '"%d"' % n,
        '" %d"' % n, '"%d "' % n, '"%d' % n, '%d"' % n, "'%d'" % n, "\u0661", "%d\u00a0" % n, "=%d" % n, "true", "inf", "nan"])


def gen_value(r, key, dirs):
    if key in RANGES:
        return gen_int(r, *RANGES[key])
    if key in SIZES:
        if r.random() < .6:
            return "%d%s" % (r.choice([1, 2, 4, 5, 30, 100, 4095, 4096, 4097, 8192, r.randrange(1, 3000), r.randrange(1, INTMAX), INTMAX]),
                             r.choice(["", "", "k", "K", "m", "M", "g", "G"]))
        return r.choice(["0", "-1", "0K", "-5M", "", "K", "M", "G", "1.5M", "0.5G", "10T", "10MB", "1KB", "1MiB", "5 M", "5M M", "MM", "5KM",
                         "1e6", "0x1000", "4096b", "4096B", "M5", "5Mk", "2147483648", "4294967296", "4294967297K", "99999999999999999999", "5,000K",
                         '"5M"', '" 5M"', '"5M "', "5M # five", "5m.", "5_000", "+5M", "8P", "8E", "10%"])
    if key in BOOLS:
        return r.choice(["true", "false", "true", "false", "true", '"true"', '"false"', "True", "TRUE", "1", "0", "yes", "no", "on", "off", "", "truee",
                         "tru", "false0", "true false", "t", '" true"', "true # yes"])
    if key in ("virtual_ip", "bind_ip"):
        good = ["127.0.0.1", "10.1.2.3", "0.0.0.0", "255.255.255.255", "::1", "2001:db8::1", "2001:DB8:0:0:0:0:0:A", "::", "fe80::1",
                "192.168.%d.%d" % (r.randrange(256), r.randrange(256)), "2001:db8:%x::%x" % (r.randrange(65536), r.randrange(1, 65536))]
        bad = ["localhost", "1.2.3.4.5", "256.1.1.1", "::g", "1.2.3.4:80", "1:2:3", "10.0.0.1,10.0.0.2", "example.com", "1.2.3.4/24", "-", "10.0.0.1;",
               "[::1]", ":::", "10.0.0.x"]
        if key == "virtual_ip":
            return r.choice(good) if r.random() < .7 else r.choice(bad + ["", "10.0.0.1 10.0.0.2"])
        l = [r.choice(good) for _ in range(r.randrange(6))]
        if r.random() < .2:
            l.insert(r.randint(0, len(l)), r.choice(bad))
        s = "".join(x + " " * r.choice([1, 1, 2, 5]) for x in l)
        return '"%s"' % s if r.random() < .2 else s
    if key == "temp_dir":
        d = r.choice(dirs + dirs + dirs + ["/nonexistent", dirs[0] + "/file", "", dirs[0] + "x", '"'])
        return '"%s"' % d if r.random() < .5 else d
    if key == "log.threshold":
        return r.choice(["error", "warning", "info", "debug"] * 3 + ["Error", "WARNING", "warn", "", "trace", "info ", "2", '"debug"', "infoo", "critical", "info,debug"])
    if key == "log.file":
        return r.choice(["/var/log/x.log", '"/tmp/a b.log"', "/", "/a=b", "/#x", '"/x', "log", "./log", "", '""', "~/log", '" /x"', "stderr"])
    return r.choice(["nobody", "root", "", '"with space"', "a=b", "#x", '"', '""', "x" * 300, "\u00fc"])


def gen_file(r, dirs):
    lines = []
    keys = list(DEFAULTS)
    n = r.choice([1, 1, 1, 2, 3, 5, 10, len(keys)])
    for k in (r.sample(keys, n) if r.random() < .9 else [r.choice(keys) for _ in range(n)]):
        for _ in range(60):
            v = gen_value(r, k, dirs)
            t = v[1:-1] if len(v) >= 2 and v[0] == v[-1] == '"' else v
            # files with many settings would never be accepted as a whole
            if parse_value(k, t.strip(WS) if t == v else t)[0] == "value" or r.random() < .3 / n:
                break
        sp = lambda: "".join(r.choice(" \t\f\v") for _ in range(r.choice([0, 0, 1, 1, 3])))
        lines.append(sp() + k + sp() + "=" + sp() + v + sp() + ("\r" if r.random() < .1 else ""))
    for _ in range(r.choice([0, 0, 0, 1, 3])):
        k = r.choice(keys)
        lines.insert(r.randint(0, len(lines)), r.choice([
            "", "   ", "\t", "# comment", "  # %s = 5" % k, "#%s=1" % k, "#", "# \u00e9\u00e8", "unknown = 5", "%s.x = 7" % k, "x%s = 9" % k, "%s2 = bad" % k,
            "%s_ = 1" % k, "counter.%s = ?" % k if "counter." + k not in DEFAULTS else "", k.upper() + " = 3" if k.upper() != k else "", "= 5", "=", "%s %s = 5" % (k, k), '"%s" = 5' % k]))
    if r.random() < .06:
        lines.insert(r.randint(0, len(lines)), r.choice(["port 5", "nonsense", "[section]", "; comment", "// comment", "port: 80", '"', "\x01"]))
    if r.random() < .1:
        lines += ["# " + "c" * r.choice([1000, 5000, 70000])]
    return "\n".join(lines) + r.choice(["\n", "\n", "", "\n\n\n", "\r\n"])


FMT = {"bind_ip": lambda l: "".join(x + "," for x in l)}
for _k in BOOLS:
    FMT[_k] = lambda b: str(int(b))
for _k in ("temp_dir", "user", "group", "log.file"):
    FMT[_k] = lambda s: "x" + s.encode().hex()


def files(p, n):
    r = p.rng
    try:
        exe = B.build("asan", target="conf", harness=["conf.cpp"], wraps=False)
    except B.BuildError as e:
        # the class has another interface now; the server is still tested as a whole
        p.count("config_harness_not_built")
        p.sample("configuration harness: %s" % str(e)[-300:])
        return
    wd = yr.workdir(PROP)
    try:
        dirs = [os.path.join(wd, x) for x in ("d", "d/with space", "d/a=b", "d/#c")]
        for d in dirs:
            os.mkdir(d)
        open(os.path.join(dirs[0], "file"), "w").close()
        texts = [gen_file(r, dirs) for _ in range(n)]
        for i, t in enumerate(texts):
            with open(os.path.join(wd, "%d.conf" % i), "wb") as fp:
                fp.write(t.encode())
        names = "".join(os.path.join(wd, "%d.conf\n" % i) for i in range(n)) + wd + "\n" + os.path.join(wd, "missing") + "\n"
        q = subprocess.run([exe], input=names.encode(), capture_output=True, cwd=wd, timeout=600,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1"))
        lines = q.stdout.decode().split("\n")[:-1]
        if q.returncode or len(lines) != n + 2:
            i = min(len(lines), n - 1)
            p.fail("reading a configuration file ends the program", repr(texts[i]) + "\n" + q.stderr.decode("utf8", "replace")[-4000:])
        p.check(lines[n].startswith("error"), "a directory is taken as a configuration file", lines[n])
        p.check(lines[n + 1].startswith("error"), "a missing configuration file is no error", lines[n + 1])
        for t, l in zip(texts, lines):
            e = reference(t)
            p.case(t)
            if l.startswith("error"):
                p.count("rejected")
                if e is not None and not e[1]:
                    p.fail("a valid configuration file is rejected: %s" % bytes.fromhex(l.split(" ")[1][1:]).decode(), t)
                continue
            p.count("applied")
            if e is None:
                p.fail("an invalid configuration file is accepted", repr(t) + "\n" + l)
            got = dict(x.split("=", 1) for x in l.split(" ")[1:])
            for k in DEFAULTS:
                want = FMT.get(k, str)(e[0][k])
                if got[k] != want:
                    p.fail("setting %s: %r is in effect instead of %r" % (k, got[k], want), t)
        p.sample("accepted and rejected: %s" % [(t[:80], l[:60]) for t, l in zip(texts, lines)][:3])
    finally:
        shutil.rmtree(wd, ignore_errors=True)


# -- whole servers -----------------------------------------------------------------------
def listening(pid):
    """[(address, port)] of the listening sockets of a process."""
    ino = set()
    for f in os.listdir("/proc/%d/fd" % pid):
        try:
            m = re.match(r"socket:\[(\d+)\]", os.readlink("/proc/%d/fd/%s" % (pid, f)))
        except OSError:
            continue
        if m:
            ino.add(m.group(1))
    out = []
    for f, fam in (("tcp", socket.AF_INET), ("tcp6", socket.AF_INET6)):
        try:
            ls = open("/proc/net/" + f).read().split("\n")[1:]
        except OSError:
            continue
        for l in ls:
            w = l.split()
            if len(w) > 9 and w[3] == "0A" and w[9] in ino:
                a, port = w[1].split(":")
                b = bytes.fromhex(a)
                b = b"".join(b[i:i + 4][::-1] for i in range(0, len(b), 4))
                a = socket.inet_ntop(fam, b)
                out.append(("*" if a in ("0.0.0.0", "::") else a.replace("::ffff:", ""), int(port, 16)))
    return sorted(set(out))


def all_settings(s):
    """`stats settings` in both protocols, which have to agree."""
    a = s.stats(b"settings")
    b = s.bin(timeout=30)
    b.req("Stat", b"settings")
    out = {}
    while True:
        r = b.recv()
        if not r.key:
            break
        out[r.key] = r.val
    b.reset()
    if out != a:
        raise chk.Violation("the protocols report different settings", "%r\n%r" % (a, out))
    return a


def run(p, conf, **kw):
    base = dict(buckets=p.rng.choice([1, 7, 1009]), counter__buckets=101)
    base.update(conf)
    return yr.Server(B.build("plain"), tag=p.prop, **base, **kw)


def temp_files(s):
    """Where the files are in which the server keeps large values."""
    out, d = [], "/proc/%d/fd" % s.proc.pid
    for f in os.listdir(d):
        try:
            t = os.readlink(os.path.join(d, f))
        except OSError:
            continue
        if t.startswith("/") and not t.startswith("/dev/") and not t.startswith(s.wd + "/shm") and (t.endswith("(deleted)") or "/tmp" in t[len(s.wd):]):
            out.append(t)
    return out


def sizes(p, i):
    """Settings of sizes in effect: values around them."""
    r = p.rng
    mx = r.choice([4096, 5000, 4097, 8191, 100000, 2 ** 20, 3 << 20])
    heap = r.choice([4096, 4097, 5000, 10000, mx, 64 << 10, 300000])
    mem = r.choice([1 << 20, 5 << 20, 1000003, 1 << 30, 4 << 30])

    def w(n):
        u = [x for x in ((1, ""), (1 << 10, "K"), (1 << 10, "k"), (1 << 20, "M"), (1 << 20, "m"), (1 << 30, "G"), (1 << 30, "g")) if n % x[0] == 0]
        a, b = r.choice(u)
        return "%d%s" % (n // a, b)
    name = r.choice(["t", "with space", "a=b", "#c", "x" * 100, "\u00e9"])
    sec, lock = r.choice(["true", "false"]), "true" if i % 3 == 0 else "false"
    nw = r.choice([1, 2, 3, 8, 64])
    gi = r.choice([1, 2, 10, 3600, INTMAX])
    s = run(p, dict(max_data_size=w(mx), heap_data_limit=w(heap), memory_limit=w(mem), secure_erase=sec, lock_memory=lock, workers=nw, gc_interval=gi), start=False)
    with s:
        td = os.path.join(s.wd, name)
        os.mkdir(td)
        s.conf["temp_dir"] = '"%s"' % td
        s.start()
        st = all_settings(s)
        want = {b"maxbytes": mem, b"tcpport": s.port, b"replport": s.repl_port, b"virtual_ip": "127.0.0.1", b"secure_erase": {"true": "on", "false": "off"}[sec],
                b"lock_memory": {"true": "on", "false": "off"}[lock], b"tmp_dir": td, b"buckets": s.conf["buckets"], b"item_size_max": mx, b"num_threads": nw, b"gc_interval": gi}
        for k, v in want.items():
            if st.get(k) != str(v).encode():
                p.fail("stats settings: %s is %r instead of %r" % (k.decode(), st.get(k), v), open(os.path.join(s.wd, "conf")).read())
            p.case(("settings", k, str(v)))
        # (the system call itself is left out by the shim: checks may run where it is not permitted)
        ml = s.shm.get("N_MLOCKALL")
        p.check((ml > 0) == (lock == "true"), "lock_memory = %s, but mlockall is called %d times" % (lock, ml))
        n = 1000
        for _ in range(20):
            n = min(n, len(os.listdir("/proc/%d/task" % s.proc.pid)))
        p.check(nw + 1 <= n <= nw + 3, "workers = %d, but the server has %d threads" % (nw, n))
        t, b = s.text(timeout=60), s.bin(timeout=60)
        for c in (t, b):
            k = b"a" if c is t else b"b"
            for size in sorted({1, mx - 1, mx, mx + 1, 2 * mx, heap, heap + 1, heap - 1}):
                d = bytes([r.randrange(256)]) * size
                key = k + b"%d" % size
                # created at once, in place of another value, or completed
                how = r.choice(["create", "overwrite", "shrink", "append", "prepend"])
                if how in ("append", "prepend") and size < 3:
                    how = "create"
                if how == "overwrite":
                    c.set(key, b"x")
                elif how == "shrink":
                    c.set(key, b"x" * mx)
                elif how != "create":
                    c.set(key, d[:2])
                nf = len(temp_files(s)) - (how == "shrink" and mx > heap)
                if how in ("append", "prepend"):
                    x = c.store(how.encode(), key, d[2:]) if c is t else c.cmd(how.capitalize(), key, b"", d[2:])
                else:
                    x = c.set(key, d)
                ok = x == b"STORED" if c is t else x.status == 0
                if ok != (size <= mx):
                    p.fail("max_data_size = %d, but storing %d bytes (%s) gives %r" % (mx, size, how, x))
                p.case(("size", c is t, how, size - mx, mx))
                if not ok:
                    continue
                fs = temp_files(s)
                if len(fs) != nf + (size > heap):
                    p.fail("heap_data_limit = %d, but a value of %d bytes is kept %s" % (heap, size, "in memory" if len(fs) == nf else "in a file"), fs)
                for f in fs:
                    p.check(f.startswith(td + "/"), "temp_dir = %s, but large values are kept in %s" % (td, f))
                p.case(("heap", c is t, how, size - heap, heap))
                g = t.get(key)
                p.check(g is not None and g[2] == d, "wrong value of %d bytes" % size)
        p.check(not [f for f in os.listdir(s.wd) if f not in ("tmp", "shm", "conf", "stderr", name)], "files of the server elsewhere", os.listdir(s.wd))
        if gi < 10 ** 6:
            # collections happen in intervals of gc_interval
            s.force_gc(1, step=gi + 2)
            s.intervals(4)
            g = s.gc_count()
            for _ in range(2):
                a = s.now()
                if gi > 2:
                    s.advance(gi - 2)
                    s.intervals(3)
                    time.sleep(.02)
                    p.check(s.gc_count() == g, "gc_interval = %d, but the next collection is after %d seconds" % (gi, gi - 2))
                end = time.time() + 30
                s.set_time(a + gi + 2)
                while s.gc_count() == g:
                    p.check(time.time() < end, "gc_interval = %d, but there is no collection after %d seconds" % (gi, gi + 2))
                    time.sleep(.005)
                s.intervals(3)
                g = s.gc_count()
                p.case(("gc", gi))
        p.observe(s)
        t.reset()
        b.reset()


def addresses(p, i):
    """Exactly the configured addresses and ports are listened on."""
    r = p.rng
    v6 = i % 4 == 3
    vip = "::1" if v6 else r.choice(["127.0.0.1", "127.0.0.9", "127.3.2.1"])
    binds = r.choice([[], [], ["127.0.0.2"], ["127.0.0.2", "127.0.0.3", "127.1.1.1"], ["::1"], ["127.0.0.7", "::1"]])
    if v6:
        binds = r.choice([["127.0.0.1"], ["127.0.0.1", "127.0.0.2"]])
    if "::1" in binds + [vip]:
        try:
            x = socket.socket(socket.AF_INET6)
            x.bind(("::1", 0))
            x.close()
        except OSError:
            p.count("no_ipv6")
            return
    if binds and not v6 and vip != "127.0.0.1":
        binds = [b for b in binds] + ["127.0.0.1"]
    ctr = r.random() < .6
    conf = dict(bind_ip=(" " * r.choice([1, 2])).join(binds) or None, counter__enable="true" if ctr else r.choice(["false", None]))
    s = run(p, conf, vip="127.0.0.1" if v6 else vip, start=False)
    with s:
        if v6:
            s.shm.set("IFMODE", 0)
            s.conf["virtual_ip"] = "::1"
        s.start()
        s.intervals(2)
        ports = [s.port, s.repl_port] + ([s.counter_port] if ctr else [])
        want = sorted((a, q) for q in ports for a in ({vip} | set(binds) if binds else {"*"}))
        end = time.time() + 20
        while listening(s.proc.pid) != want and time.time() < end:
            time.sleep(.02)
        got = listening(s.proc.pid)
        p.check(got == want, "other addresses are listened on than configured", "got %r\nexpected %r\n%s" % (got, want, open(os.path.join(s.wd, "conf")).read()))
        p.check(s.stats(b"settings")[b"virtual_ip"] == vip.encode(), "wrong virtual_ip in the settings", vip)
        p.case(("addresses", vip, tuple(binds), ctr))
        # the service on each port
        for a in [x for x in ({vip} | set(binds) if binds else {"127.0.0.1", "127.0.0.5"}) if ":" not in x]:
            c = yr.Text(s.port, host=a, timeout=30)
            p.check(c.cmd(b"version").startswith(b"VERSION"), "no memcache service on %s" % a)
            c.reset()
            if ctr:
                c = yr.Counter(s.counter_port, host=a, timeout=30)
                p.check(c.acquire(b"x", 1, 5).status == 0 and c.release(b"x", 1).status == 0, "no counter service on %s" % a)
                c.reset()
            p.case(("service", a, ctr))
        if s.stop() != 0:
            p.fail("no clean end", s.diag())


def limits(p, i):
    """Connection limits, slave_timeout, counter.stat_interval."""
    r = p.rng
    mc, cc = r.choice([0, 1, 2, 5, 20]), r.choice([0, 1, 3, 10])
    si, to = r.choice([10, 11, 60, 1000, 86400]), r.choice([1, 2, 5, 30, 1000])
    if mc == 0 and cc == 0:
        mc = 3
    conf = dict(max_connections=mc or r.choice([0, None]), counter__max_connections=cc or r.choice([0, None]), counter__stat_interval=si, slave_timeout=to, gc_interval=INTMAX)
    with run(p, conf) as s:
        for name, n, mk in (("max_connections", mc, lambda: s.text(timeout=30)), ("counter.max_connections", cc, lambda: s.counter(timeout=30))):
            good, bad, conns = 0, 0, []
            end = time.time() + 30
            while time.time() < end:                # until the probes of the start are gone
                c = mk()
                try:
                    c.cmd(b"version") if isinstance(c, yr.Text) else c.get(b"none")
                    cur = int(c.stats()[b"curr_connections"]) if isinstance(c, yr.Text) else int(c.stats()["curr_connections"])
                    if cur == 1:
                        conns.append(c)
                        break
                except ConnClosed:
                    pass
                c.reset()
                time.sleep(.02)
            if not conns:
                raise Inconclusive("connections of the start are still there\n" + s.diag())
            good = 1
            for _ in range(n + 3 if n else 60):
                c = mk()
                try:
                    c.cmd(b"version") if isinstance(c, yr.Text) else c.get(b"none")
                    good += 1
                    conns.append(c)
                except ConnClosed:
                    bad += 1
            want = n if n else 61
            p.check(good == want, "%s = %d, but %d connections are served" % (name, n, good))
            p.case((name, n, bad))
            for c in conns[1:]:
                c.reset()
            if name == "max_connections":
                conns[0].reset()
            else:
                # the maximum of resources in use is that of the interval of the statistics
                c = conns[0]
                t = (s.now() // si + 2) * si
                s.shm.set("TIME", t)
                s.intervals(3)
                c.acquire(b"res", 7, 100)
                c.release(b"res", 3)
                p.check(c.dump() == [(b"res", 4, 7)], "wrong dump", c.dump())
                s.shm.set("TIME", t + si - 1)
                s.intervals(3)
                p.check(c.dump() == [(b"res", 4, 7)], "counter.stat_interval = %d, but a maximum is forgotten after %d seconds" % (si, si - 1), c.dump())
                s.shm.set("TIME", t + si)
                s.intervals(3)
                p.check(c.dump() == [(b"res", 4, 4)], "counter.stat_interval = %d, but a maximum is kept after %d seconds" % (si, si), c.dump())
                p.case(("stat_interval", si))
                c.reset()
        # a silent slave
        s.shm.set("STEADY_MS", int(time.monotonic() * 1000 * max(s.fast, 1)) + 5000)
        f = yr.connect(s.repl_port, timeout=30)
        f.setblocking(False)
        s.step_mode()
        end = time.time() + 20
        while s.log().count("slave") == 0 and time.time() < end:
            s.step()
        t = s.now()

        def closed():
            try:
                while True:
                    if not f.recv(65536):
                        return True
            except BlockingIOError:
                return False
            except OSError:
                return True
        if to > 1:
            s.shm.set("TIME", t + to - 1)
            for _ in range(4):
                s.step()
            time.sleep(.02)
            p.check(not closed(), "slave_timeout = %d, but a slave is dropped after %d seconds" % (to, to - 1), s.log()[-1500:])
        s.shm.set("TIME", t + to + 1)
        for _ in range(4):
            s.step()
        end = time.time() + 20
        while not closed():
            p.check(time.time() < end, "slave_timeout = %d, but a silent slave is still there after %d seconds" % (to, to + 1), s.log()[-1500:])
            s.step()
        f.close()
        p.case(("slave_timeout", to))


def people(p, i):
    """user, group, log.file, log.threshold."""
    r = p.rng
    th = ["error", "warning", "info", "debug", None][i % 5]
    file = i % 2 == 0
    import grp
    import pwd
    users = [u for u in pwd.getpwall() if u.pw_uid not in (0,)]
    groups = [g for g in grp.getgrall() if g.gr_gid not in (0,)]
    u, g = r.choice(users + [None]), r.choice(groups + [None])
    if os.getuid() != 0:
        u = g = None
    s = run(p, dict(log__threshold=th, user=u and u.pw_name, group=g and g.gr_name), start=False)
    with s:
        for d in (s.wd, os.path.join(s.wd, "tmp")):
            os.chmod(d, 0o777)
        os.chmod(s.shm.path, 0o666)
        lf = os.path.join(s.wd, r.choice(["a.log", "b c.log", "d=e"]))
        if file:
            s.conf["log.file"] = '"%s"' % lf
        s.start()
        s.force_gc(1)
        st = open("/proc/%d/status" % s.proc.pid).read()
        uid = [int(x) for x in re.search(r"Uid:\s*(.*)", st).group(1).split()]
        gid = [int(x) for x in re.search(r"Gid:\s*(.*)", st).group(1).split()]
        p.check(set(uid) == {u.pw_uid if u else os.getuid()}, "user = %s, but the server runs as %r" % (u and u.pw_name, uid))
        p.check(set(gid) == {g.gr_gid if g else os.getgid()}, "group = %s, but the server runs as %r" % (g and g.gr_name, gid))
        if s.stop() != 0:
            p.fail("no clean end", s.diag())
        err = s.log()
        text = open(lf, errors="replace").read() if os.path.exists(lf) else ""
        p.check(os.path.exists(lf) == file, "log.file %s, but there is %s file" % (("is set", "no") if file else ("is not set", "a")))
        # what is logged before the settings are in effect goes to standard error
        err = "\n".join(l for l in err.split("\n") if "Too small bucket count" not in l and "secure_erase" not in l)
        log = text if file else err
        p.check(not file or not err.strip(), "log.file is set, but standard error has records", err)
        got = {x for x in ("ERROR", "WARN", "INFO", "DEBUG") if re.search(r" %s" % x, log)}
        want = {"error": set(), "warning": set(), "info": {"INFO"}, "debug": {"INFO", "DEBUG"}}[th or "info"]
        p.check(got == want, "log.threshold = %s, but the records have %r" % (th, sorted(got)), log[-2000:])
        p.case(("log", th, file, u and u.pw_name, g and g.gr_name))


def delay(p, i):
    """initial_repl_sleep_delay_usec and repl_buffer_size."""
    r = p.rng
    nb, us = r.choice([(101, 5000), (499, 1500), (997, 700), (13, 40000)])
    with run(p, dict(buckets=nb, initial_repl_sleep_delay_usec=us, gc_interval=3600, slave_timeout=10 ** 8), fast=1) as s:
        n0 = s.gc_count()
        f = yr.connect(s.repl_port, timeout=30)
        end = time.time() + 60
        while s.gc_count() == n0:
            if time.time() > end:
                raise Inconclusive("no initial replication\n" + s.diag())
            time.sleep(.01)
        el = int(s.stats()[b"last_gc_elapsed"])
        want = max(nb, 1) * us
        p.check(el >= want * .9 - 11000, "initial_repl_sleep_delay_usec = %d with %d buckets, but the initial replication took %d us only" % (us, nb, el))
        p.case(("delay", nb, us))
        f.close()
    size = r.choice([1, 2, 5])
    with run(p, dict(repl_buffer_size=size, gc_interval=3600, slave_timeout=10 ** 8, heap_data_limit="1M", workers=2), sndbuf=20000) as s:
        f = yr.connect(s.repl_port, timeout=30, rcvbuf=4096)
        end = time.time() + 60
        t = s.text(timeout=60)
        while s.gc_count() == 0 or int(s.stats()[b"slaves"]) != 1:
            if time.time() > end:
                raise Inconclusive("no slave\n" + s.diag())
            time.sleep(.01)
        s.intervals(3)
        n, d = 0, b"d" * 20000
        while "buffer is full" not in s.log() and n < (size + 3) << 20:
            t.s.settimeout(5)
            try:
                if t.set(b"k", d) != b"STORED":
                    p.fail("a value is not stored")
            except Timeout:
                break
            n += len(d)
        full = "buffer is full" in s.log()
        p.check(full, "repl_buffer_size = %d, but %d bytes are buffered" % (size, n))
        p.check(n + len(d) >= (size << 20) - 40000, "repl_buffer_size = %d, but the buffer is full after %d bytes" % (size, n))
        p.case(("repl_buffer_size", size))
        f.close()
        s.kill()


BAD = [
    "port = 0", "port = 65536", "port = -1", "port = abc", "port =", "port = 11211x", "repl_port = 0", "repl_port = 70000", "virtual_ip = localhost", "virtual_ip = 300.1.1.1", "virtual_ip =",
    "bind_ip = 127.0.0.1 nowhere", "bind_ip = 127.0.0.1,127.0.0.2", "max_connections = -1", "max_connections = many", "max_connections = 99999999999", "temp_dir = /nonexistent/x",
    "temp_dir = /etc/passwd", "log.threshold = verbose", "log.threshold = INFO", "log.file = relative.log", "log.file = \"\"", "log.file = /nonexistent/dir/x.log", "buckets = 0", "buckets = -7", "buckets = 1e6",
    "max_data_size = 0", "max_data_size = 1.5M", "max_data_size = 10T", "max_data_size = 10MB", "max_data_size =", "heap_data_limit = 4095", "heap_data_limit = 3K", "heap_data_limit = 1B",
    "memory_limit = 0", "memory_limit = 10T", "memory_limit = -1G", "memory_limit = lots", "repl_buffer_size = 0", "repl_buffer_size = 30M", "repl_buffer_size = 31457280", "repl_buffer_size = 65537",
    "initial_repl_sleep_delay_usec = -1", "initial_repl_sleep_delay_usec = 1ms", "secure_erase = yes", "secure_erase = 1", "lock_memory = True", "lock_memory =", "workers = 0", "workers = 65", "workers = 8 threads",
    "gc_interval = 0", "gc_interval = 10s", "slave_timeout = 0", "slave_timeout = 1m", "counter.enable = on", "counter.port = 0", "counter.port = 65536", "counter.max_connections = -1", "counter.buckets = 0",
    "counter.stat_interval = 9", "counter.stat_interval = 1d", "port", "[memcache]", "user = no-such-user-here", "group = no-such-group-here",
]


def rejected(p, part):
    """The server does not start with bad settings and says why."""
    exe = B.build("plain")
    wd = yr.workdir(PROP)
    try:
        for bad in part:
            if bad.startswith(("user", "group")) and os.getuid() != 0:
                continue
            for _ in range(3):
                ports = [yr.free_port() for _ in range(3)]
                lines = ["port = %d" % ports[0], "repl_port = %d" % ports[1], "temp_dir = %s" % wd, "counter.enable = true", "counter.port = %d" % ports[2], "buckets = 10", "counter.buckets = 10"]
                lines.insert(p.rng.choice([0, len(lines)]) if bad.split(" ")[0] not in [l.split(" ")[0] for l in lines] else len(lines), bad)
                cf = os.path.join(wd, "conf")
                with open(cf, "w") as fp:
                    fp.write("\n".join(lines) + "\n")
                with open(os.path.join(wd, "err"), "wb") as fp:
                    q = subprocess.Popen([exe, "-f", cf], stdin=subprocess.DEVNULL, stdout=fp, stderr=fp, cwd=wd)
                end = time.time() + 20
                up = False
                while q.poll() is None and time.time() < end and not up:
                    up = bool(listening(q.pid)) if os.path.exists("/proc/%d/fd" % q.pid) and q.poll() is None else False
                    time.sleep(.01)
                if q.poll() is None:
                    q.kill()
                q.wait()
                err = open(os.path.join(wd, "err"), errors="replace").read()
                if "Address already in use" in err:
                    continue
                break
            if up or q.returncode == -signal.SIGKILL:
                p.fail("the server starts with the setting %r" % bad, err[-2000:])
            if q.returncode < 0:
                p.fail("the server crashes with the setting %r (signal %d)" % (bad, -q.returncode), err[-2000:])
            p.check(q.returncode != 0, "exit status 0 with the setting %r" % bad, err[-2000:])
            p.check(err.replace("Too small bucket count!", "").strip() != "", "no error message with the setting %r" % bad)
            p.case(("rejected", bad))
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def defaults(p, _):
    """A server without any setting."""
    for q in (11211, 11213, 11215):
        if not yr._claim(q):
            p.count("default_ports_taken")
            return
        x = socket.socket()
        try:
            x.bind(("0.0.0.0", q))
        except OSError:
            p.count("default_ports_taken")
            return
        finally:
            x.close()
    text = p.rng.choice(["", "# nothing\n", "\n\n", "unknown.option = 17\n", " # port = 5\n"])
    s = yr.Server(B.build("plain"), tag=p.prop, port=11211, repl_port=11213, counter_port=11215, config_text=text, start=False)
    with s:
        s.start(wait=False)
        end = time.time() + 60
        while s.alive() and time.time() < end and len(listening(s.proc.pid)) < 2:
            time.sleep(.02)
        if not s.alive() and "Address already in use" in s.log():
            p.count("default_ports_taken")
            return
        s.wait_master()
        s.intervals(3)
        p.check(listening(s.proc.pid) == [("*", 11211), ("*", 11213)], "other addresses are listened on than documented", listening(s.proc.pid))
        st = all_settings(s)
        want = {b"maxbytes": 1 << 30, b"tcpport": 11211, b"replport": 11213, b"virtual_ip": "127.0.0.1", b"secure_erase": "off", b"lock_memory": "off", b"tmp_dir": "/var/tmp", b"buckets": 1000000,
                b"item_size_max": 1 << 20, b"num_threads": 8, b"gc_interval": 10}
        for k, v in want.items():
            p.check(st.get(k) == str(v).encode(), "default of %s is %r instead of %r" % (k.decode(), st.get(k), v))
            p.case(("default", k))
        t = s.text(timeout=60)
        for n, file in ((256 << 10, 0), ((256 << 10) + 1, 1), (1 << 20, 1)):
            p.check(t.set(b"k%d" % n, b"x" * n) == b"STORED", "a value of %d bytes is not stored" % n)
        fs = temp_files(s)
        p.check(len(fs) == 2 and all(f.startswith("/var/tmp/") for f in fs), "large values are not where documented", fs)
        p.check(t.set(b"big", b"x" * ((1 << 20) + 1)) != b"STORED", "a value larger than the default limit is stored")
        t.reset()
        if s.stop() != 0:
            p.fail("no clean end", s.diag())


def job(p, a):
    kind, x = a
    JOBS[kind](p, x)


JOBS = {"files": files, "sizes": sizes, "addresses": addresses, "limits": limits, "people": people, "delay": delay, "rejected": rejected, "defaults": defaults}


def main(ck):
    B.build("plain")
    bad = list(BAD)
    ck.rng.shuffle(bad)
    jobs = [("defaults", 0)]
    jobs += [("files", ck.scale(4000, 30000)) for _ in range(ck.scale(4, 16))]
    jobs += [("rejected", bad[i::4]) for i in range(4)]
    jobs += [("sizes", i) for i in range(ck.scale(12, 120))]
    jobs += [("addresses", i) for i in range(ck.scale(12, 60))]
    jobs += [("limits", i) for i in range(ck.scale(8, 60))]
    jobs += [("people", i) for i in range(ck.scale(10, 60))]
    jobs += [("delay", i) for i in range(ck.scale(4, 30))]
    ck.jobs(job, jobs)


if __name__ == "__main__":
    chk.main(PROP, "one evaluation = a configuration file read (all fields compared with a reference reading) or one setting observed in a "
             "running server (settings report, listening sockets, threads, sizes, limits, ids, log); distinct = files / settings with value", main,
             assumptions=["docs/usage.md and the messages of the server define ranges and defaults", "spaces within quotes, signs and spaces before units may be accepted or rejected",
                          "options that are not the server's have no effect"])

"""Server control and protocol clients (text, binary, counter)."""
import fcntl
import mmap
import os
import random
import re
import select
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

W = {}
with open(os.path.join(B.VERIF, "harness", "shm.h")) as _fp:
    _n = 0
    for _m in re.finditer(r"^\s*(YV_\w+)\s*(?:=\s*(\d+))?\s*,?", _fp.read(), re.M):
        if _m.group(2) is not None:
            _n = int(_m.group(2))
        W[_m.group(1)[3:]] = _n
        _n += 1

T0 = 1700000000


class Shm:
    def __init__(self, path):
        self.path = path
        with open(path, "wb") as fp:
            fp.write(b"\0" * (W["WORDS"] * 8))
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), W["WORDS"] * 8)

    def get(self, name):
        return struct.unpack_from("<q", self.m, W[name] * 8)[0]

    def set(self, name, v):
        struct.pack_into("<q", self.m, W[name] * 8, int(v))

    def set_mark(self, b):
        self.m[W["MARK"] * 8:W["MARK"] * 8 + len(b)] = b
        self.set("MARK_LEN", len(b))

    def observed(self):
        return {k: self.get(k) for k in W if k.startswith("N_") and self.get(k)}


def workdir(tag):
    base = os.path.join(os.environ.get("YV_WORK", "/tmp"))
    return tempfile.mkdtemp(prefix="yv-%s-" % tag, dir=base)


_port_rng = [0, None]
_held = []
SAN_REPORTS, SAN_SEEN = None, {}     # set by lib/reuse.py: what sanitizers reported in any server of this process


def _claim(p):
    """No other process of these checks gets this port as long as this one lives."""
    d = os.path.join(B.BUILD, "ports")
    os.makedirs(d, exist_ok=True)
    fd = os.open(os.path.join(d, str(p)), os.O_RDWR | os.O_CREAT | os.O_CLOEXEC, 0o644)
    try:
        fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
    except OSError:
        os.close(fd)
        return False
    _held.append(fd)
    return True


def free_port():
    if _port_rng[0] != os.getpid():
        _port_rng[:] = [os.getpid(), random.Random(os.getpid() * 7919 + int(time.time() * 1000))]
    for _ in range(2000):
        p = _port_rng[1].randrange(10200, 32000)
        if not _claim(p):
            continue
        try:
            for fam, addr in ((socket.AF_INET, "0.0.0.0"), (socket.AF_INET6, "::")):
                try:
                    s = socket.socket(fam, socket.SOCK_STREAM)
                except OSError:
                    continue
                try:
                    s.bind((addr, p))
                finally:
                    s.close()
            return p
        except OSError:
            os.close(_held.pop())
            continue
    raise Inconclusive("no free port")


class Inconclusive(Exception):
    """The harness could not do its work (not a verdict about the code)."""


class ServerDied(Exception):
    pass


class ConnClosed(Exception):
    pass


class Timeout(Exception):
    """No answer within the watchdog (an oracle decides what that means)."""


def ip2int(s):
    return struct.unpack(">I", socket.inet_aton(s))[0]


class Server:
    """One yrmcdsd process with virtual time."""

    def __init__(self, exe, tag="s", vip="127.0.0.1", own_vip=True, fast=50, vtime=T0, env=None,
                 port=None, repl_port=None, counter_port=None, shm=None, start=True, sndbuf=0,
                 config_text=None, rlimit_nofile=None, wrapper=None, **conf):
        self.exe = exe
        self.wd = workdir(tag)
        os.mkdir(os.path.join(self.wd, "tmp"))
        self.vip = vip
        self.auto = [n for n, v in (("port", port), ("repl_port", repl_port), ("counter_port", counter_port)) if not v]
        self.port = port or free_port()
        self.repl_port = repl_port or free_port()
        self.counter_port = counter_port or free_port()
        self.shm = Shm(os.path.join(self.wd, "shm"))
        self.shm.set("TIME", vtime)
        self.fast = fast
        if fast > 1:
            self.shm.set("STEADY_X100", fast * 100)
            self.shm.set("EPOLL_DIV", 20)
            self.shm.set("SLEEP_DIV", 20)
        self.shm.set("IFMODE", 1)
        self.shm.set("VIP_ADDR", ip2int(vip) if own_vip else 0)
        self.shm.set("SNDBUF", sndbuf)
        self.conf = {
            "virtual_ip": vip, "port": self.port, "repl_port": self.repl_port,
            "temp_dir": '"%s"' % os.path.join(self.wd, "tmp"), "log.threshold": "info",
            "buckets": 10007, "max_data_size": "10M", "heap_data_limit": "16K",
            "repl_buffer_size": 8, "memory_limit": "1024M", "workers": 4, "gc_interval": 10,
            "slave_timeout": 10, "counter.enable": "true", "counter.port": self.counter_port,
            "counter.buckets": 10007, "counter.stat_interval": 86400,
        }
        for k, v in conf.items():
            self.conf[k.replace("__", ".")] = v
        self.env_extra = env or {}
        self.config_text = config_text
        self.proc = None
        self.rlimit_nofile = rlimit_nofile
        self.wrapper = wrapper or []
        self._ctl = None
        if start:
            self.start()

    # -- process --
    def start(self, wait=True, _try=0):
        cf = os.path.join(self.wd, "conf")
        with open(cf, "w") as fp:
            if self.config_text is not None:
                fp.write(self.config_text)
            else:
                for k, v in self.conf.items():
                    if v is not None:
                        fp.write("%s = %s\n" % (k, v))
        env = dict(os.environ)
        env["YV_SHM"] = self.shm.path
        env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=0:log_path=%s/san:detect_stack_use_after_return=0" % self.wd
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77:log_path=%s/san" % self.wd
        env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:log_path=%s/san:second_deadlock_stack=1:report_signal_unsafe=0" % self.wd
        env.update(self.env_extra)
        self.errf = open(os.path.join(self.wd, "stderr"), "ab")

        def pre():
            if self.rlimit_nofile:
                import resource
                resource.setrlimit(resource.RLIMIT_NOFILE, (self.rlimit_nofile, self.rlimit_nofile))
        self.proc = subprocess.Popen(self.wrapper + [self.exe, "-f", cf], env=env, cwd=self.wd,
                                     stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf,
                                     preexec_fn=pre)
        # another process may have taken a port since it was found free
        if wait and self.config_text is None and _try < 20:
            end = time.time() + 60
            while self.alive() and time.time() < end:
                try:
                    rst(socket.create_connection(("127.0.0.1", self.port), 1))
                    break
                except OSError:
                    time.sleep(0.005)
            if not self.alive() and "Address already in use" in self.log():
                self.errf.close()
                os.truncate(os.path.join(self.wd, "stderr"), 0)
                for n in self.auto:
                    setattr(self, n, free_port())
                    self.conf[n.replace("counter_", "counter.")] = getattr(self, n)
                time.sleep(.1)
                return self.start(wait, _try + 1)
        if wait:
            self.wait_master() if self.shm.get("VIP_ADDR") else self.wait_log("Slave start")
        return self

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def wait_log(self, text, timeout=60, count=1):
        end = time.time() + timeout
        while time.time() < end:
            if self.log().count(text) >= count:
                return
            if not self.alive():
                raise ServerDied(self.diag())
            time.sleep(0.01)
        raise Inconclusive("no %r in the log within %ds\n%s" % (text, timeout, self.diag()))

    def wait_master(self, timeout=60):
        end = time.time() + timeout
        while time.time() < end:
            if not self.alive():
                raise ServerDied(self.diag())
            try:
                c = Text(self.port, timeout=2)
                try:
                    if c.cmd(b"version").startswith(b"VERSION"):
                        return
                finally:
                    c.reset()       # it does not count as a connection any longer
            except (OSError, ConnClosed, Timeout):
                pass
            time.sleep(0.02)
        raise Inconclusive("server not ready\n" + self.diag())

    def log(self):
        try:
            with open(os.path.join(self.wd, "stderr"), "rb") as fp:
                return fp.read().decode("utf8", "replace")
        except OSError:
            return ""

    def san(self):
        out = ""
        for f in sorted(os.listdir(self.wd)):
            if f.startswith("san"):
                with open(os.path.join(self.wd, f), "rb") as fp:
                    out += fp.read().decode("utf8", "replace")
        log = self.log()
        i = log.find("runtime error:")          # UBSan writes to stderr when it comes with ASan
        if i >= 0:
            out += log[max(0, i - 300):i + 8000]
        return out

    def diag(self):
        rc = self.proc.poll() if self.proc else None
        san = self.san()
        if len(san) > 9000:
            san = san[:6000] + "\n[...]\n" + san[-3000:]
        return "exit status %r\n%s\n%s" % (rc, self.log()[-3000:], san)

    def kill(self, sig=signal.SIGKILL):
        if self.alive():
            self.proc.send_signal(sig)

    def stop(self, timeout=30, keep=False):
        """SIGTERM and wait. Returns the exit status, or None if it had to be killed."""
        rc = None
        if self._ctl:
            self._ctl.close()
            self._ctl = None
        if self.proc is not None:
            if self.alive():
                try:
                    self.proc.send_signal(signal.SIGCONT)
                except OSError:
                    pass
                self.proc.terminate()
            try:
                rc = self.proc.wait(timeout)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
                rc = None
            self.errf.close()
        return rc

    def cleanup(self):
        if self._ctl:
            self._ctl.close()
            self._ctl = None
        if self.alive():
            self.proc.kill()
            self.proc.wait()
        if SAN_REPORTS is not None:
            try:
                if self.san():
                    SAN_REPORTS.append(self.diag())
                for k, v in self.shm.observed().items():
                    SAN_SEEN[k] = SAN_SEEN.get(k, 0) + v
            except OSError:
                pass
        shutil.rmtree(self.wd, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.cleanup()

    # -- clients --
    def text(self, **kw):
        return Text(self.port, **kw)

    def bin(self, **kw):
        return Bin(self.port, **kw)

    def counter(self, **kw):
        return Counter(self.counter_port, **kw)

    def ctl(self):
        if self._ctl is None:
            self._ctl = Text(self.port, timeout=60)
        return self._ctl

    def stats(self, sub=b""):
        try:
            return self.ctl().stats(sub)
        except (ConnClosed, OSError):
            self._ctl = None
            if not self.alive():
                raise ServerDied(self.diag())
            raise

    # -- virtual time --
    def now(self):
        return self.shm.get("TIME")

    def set_time(self, t, timeout=60):
        """Set the clock and wait until the server has taken it over."""
        self.shm.set("TIME", t)
        end = time.time() + timeout
        while int(self.stats()[b"time"]) < t:
            if time.time() > end:
                raise Inconclusive("server clock did not advance\n" + self.diag())
            time.sleep(0.002)

    def advance(self, dt):
        self.set_time(self.now() + dt)

    def gc_count(self):
        return int(self.stats()[b"gc_count"])

    def force_gc(self, n=1, step=None, timeout=60):
        """Advance the clock until n whole GC passes that began after this call have ended."""
        step = step or int(self.conf["gc_interval"]) + 2
        g = self.gc_count()
        end = time.time() + timeout
        while self.gc_count() < g + n + 1:
            self.advance(step)
            e2 = time.time() + 0.5
            while time.time() < e2 and self.gc_count() == g:
                time.sleep(0.003)
            if time.time() > end:
                raise Inconclusive("GC did not run\n" + self.diag())

    def intervals(self, n=3, timeout=30):
        """Wait for n housekeeping intervals of the reactor (the clock is read once in each)."""
        a = self.shm.get("N_TIME") + n
        end = time.time() + timeout
        while self.shm.get("N_TIME") < a:
            if time.time() > end:
                raise Inconclusive("housekeeping stopped\n" + self.diag())
            time.sleep(0.002)


    # -- stepping: housekeeping intervals happen only when asked for --
    def step_mode(self):
        self.shm.set("STEADY_MS", int(time.monotonic() * 1000 * max(self.fast, 1)) + 5000)
        # the interval this causes may or may not be over already; then there is exactly one more
        end = time.time() + 60
        a = self.shm.get("N_EPOLL") + 3
        while self.shm.get("N_EPOLL") < a:
            if time.time() > end:
                raise Inconclusive("the reactor stopped\n" + self.diag())
            time.sleep(0.002)
        self.step()

    def step(self):
        """One housekeeping interval."""
        a = self.shm.get("N_TIME")
        self.shm.set("STEADY_MS", self.shm.get("STEADY_MS") + 1100)
        end = time.time() + 60
        while self.shm.get("N_TIME") == a:
            if time.time() > end:
                raise Inconclusive("housekeeping stopped\n" + self.diag())
            time.sleep(0.0005)

    def step_gc(self, due=True, limit=20, force=0):
        """Step until a collection pass has ended. Returns the number of passes that ended.
        force: seconds by which to advance the clock so that one is due; due=False: give up after one step."""
        g = self.gc_count()
        for _ in range(limit):
            i = self.shm.get("N_IFADDRS")
            if force:
                self.shm.set("TIME", self.now() + force)
            self.step()
            end = time.time() + (.1 if due else .02)
            while time.time() < end:
                n = self.gc_count() - g
                if n:
                    return n
                if self.shm.get("N_IFADDRS") != i:
                    end = time.time() + 10
                    i = self.shm.get("N_IFADDRS")
                time.sleep(.0003)
            if not due:
                return 0
        raise Inconclusive("no collection\n" + self.diag())


def rst(s):
    try:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    except OSError:
        pass
    s.close()


def connect(port, timeout=20, host="127.0.0.1", rcvbuf=0):
    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    if rcvbuf:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
    s.settimeout(timeout)
    s.connect((host, port))
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return s


class Conn:
    def __init__(self, port, timeout=20, host="127.0.0.1", rcvbuf=0):
        self.s = connect(port, timeout, host, rcvbuf)
        self.buf = b""

    def send(self, b):
        try:
            self.s.sendall(b)
        except socket.timeout:
            raise Timeout("send")
        except (ConnectionError, BrokenPipeError) as e:
            raise ConnClosed(str(e))

    def _more(self, n=65536):
        try:
            d = self.s.recv(n)
        except socket.timeout:
            raise Timeout("recv; have %r" % self.buf[-200:])
        except ConnectionError as e:
            raise ConnClosed(str(e))
        if not d:
            raise ConnClosed("eof; have %r" % self.buf[-200:])
        self.buf += d

    def line(self):
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                l, self.buf = self.buf[:i + 1], self.buf[i + 1:]
                return l
            self._more()

    def take(self, n):
        if len(self.buf) < n:
            parts = [self.buf]
            have = len(self.buf)
            while have < n:
                self.buf = b""
                self._more(max(65536, n - have))
                parts.append(self.buf)
                have += len(self.buf)
            self.buf = b"".join(parts)
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def pending(self, wait=0.0):
        """Bytes available within `wait` seconds; b'' if none. ConnClosed at end of stream."""
        if self.buf:
            return self.buf
        r, _, _ = select.select([self.s], [], [], wait)
        if r:
            self._more()
        return self.buf

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass

    def reset(self):
        """Close with RST."""
        try:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.close()

    def closed_by_peer(self, wait=5.0):
        end = time.time() + wait
        while True:
            left = end - time.time()
            if left <= 0:
                return False
            try:
                r, _, _ = select.select([self.s], [], [], left)
                if r:
                    self._more()
            except (ConnClosed, OSError):
                return True


class Text(Conn):
    def cmd(self, line):
        self.send(line + b"\r\n")
        return self.line()[:-2]

    def store(self, op, key, val, flags=0, exp=0, cas=None, noreply=False):
        l = b"%s %s %d %d %d" % (op, key, flags, exp, len(val))
        if cas is not None:
            l += b" %d" % cas
        if noreply:
            l += b" noreply"
        self.send(l + b"\r\n" + val + b"\r\n")
        if noreply:
            return None
        return self.line()[:-2]

    def set(self, key, val, flags=0, exp=0):
        return self.store(b"set", key, val, flags, exp)

    def read_values(self, gets=False):
        """[(key, flags, data, cas)] up to END; an error line is returned as bytes."""
        out = []
        while True:
            l = self.line()
            if l == b"END\r\n":
                return out
            p = l[:-2].split(b" ")
            if p[0] != b"VALUE":
                return l[:-2]
            n = int(p[3])
            d = self.take(n + 2)
            if d[n:] != b"\r\n":
                raise ValueError("bad value trailer %r" % d[-20:])
            out.append((p[1], int(p[2]), d[:n], int(p[4]) if len(p) > 4 else None))

    def get(self, key, op=b"get"):
        self.send(op + b" " + key + b"\r\n")
        r = self.read_values()
        if isinstance(r, bytes):
            return r
        return r[0] if r else None

    def gets(self, key):
        return self.get(key, b"gets")

    def keys(self, prefix=b""):
        self.send(b"keys" + (b" " + prefix if prefix else b"") + b"\r\n")
        out = []
        while True:
            l = self.line()[:-2]
            if l == b"END":
                return out
            if not l.startswith(b"VALUE "):
                return l
            out.append(l[6:])

    def stats(self, sub=b""):
        self.send(b"stats" + (b" " + sub if sub else b"") + b"\r\n")
        out = {}
        while True:
            l = self.line()[:-2]
            if l == b"END":
                return out
            p = l.split(b" ", 2)
            if p[0] != b"STAT":
                raise ValueError("stats: %r" % l)
            out[p[1]] = p[2] if len(p) > 2 else b""


OP = dict(Get=0, Set=1, Add=2, Replace=3, Delete=4, Increment=5, Decrement=6, Quit=7, Flush=8,
          GetQ=9, Noop=0xa, Version=0xb, GetK=0xc, GetKQ=0xd, Append=0xe, Prepend=0xf, Stat=0x10,
          SetQ=0x11, AddQ=0x12, ReplaceQ=0x13, DeleteQ=0x14, IncrementQ=0x15, DecrementQ=0x16,
          QuitQ=0x17, FlushQ=0x18, AppendQ=0x19, PrependQ=0x1a, Touch=0x1c, GaT=0x1d, GaTQ=0x1e,
          GaTK=0x23, GaTKQ=0x24, Lock=0x40, LockQ=0x41, Unlock=0x42, UnlockQ=0x43, UnlockAll=0x44,
          UnlockAllQ=0x45, LaG=0x46, LaGQ=0x47, LaGK=0x48, LaGKQ=0x49, RaU=0x4a, RaUQ=0x4b,
          Keys=0x50)
NAME = {v: k for k, v in OP.items()}


def bin_req(op, key=b"", extras=b"", val=b"", cas=0, opaque=0):
    if isinstance(op, str):
        op = OP[op]
    return struct.pack(">BBHBBHIIQ", 0x80, op, len(key), len(extras), 0, 0,
                       len(key) + len(extras) + len(val), opaque, cas) + extras + key + val


class Resp:
    __slots__ = ("magic", "op", "status", "opaque", "cas", "extras", "key", "val", "dtype")

    def __repr__(self):
        return "Resp(op=%02x st=%x opaque=%d cas=%d ex=%r key=%r val=%r)" % (
            self.op, self.status, self.opaque, self.cas, self.extras, self.key,
            self.val if len(self.val) < 60 else self.val[:60] + b"...")


class Bin(Conn):
    def recv(self):
        h = self.take(24)
        r = Resp()
        (r.magic, r.op, klen, elen, r.dtype, r.status, total, r.opaque, r.cas) = struct.unpack(
            ">BBHBBHIIQ", h)
        body = self.take(total)
        r.extras, r.key, r.val = body[:elen], body[elen:elen + klen], body[elen + klen:]
        return r

    def req(self, *a, **kw):
        self.send(bin_req(*a, **kw))

    def cmd(self, *a, **kw):
        self.req(*a, **kw)
        return self.recv()

    def set(self, key, val, flags=0, exp=0, cas=0, op="Set"):
        return self.cmd(op, key, struct.pack(">II", flags, exp), val, cas)

    def noop(self, opaque=0xfeedbeef):
        """Everything answered before the noop's answer."""
        self.req("Noop", opaque=opaque)
        out = []
        while True:
            r = self.recv()
            if r.op == OP["Noop"] and r.opaque == opaque:
                return out
            out.append(r)


class CResp:
    __slots__ = ("op", "status", "flags", "opaque", "body")

    def __repr__(self):
        return "CResp(op=%02x st=%02x opaque=%r body=%r)" % (self.op, self.status, self.opaque, self.body[:80])


def counter_req(op, body=b"", opaque=b"\0\0\0\0", magic=0x90, flags=0):
    return struct.pack(">BBBBI", magic, op, flags, 0, len(body)) + opaque + body


class Counter(Conn):
    def recv(self):
        h = self.take(12)
        r = CResp()
        magic, r.op, r.status, r.flags, n = struct.unpack(">BBBBI", h[:8])
        if magic != 0x91:
            raise ValueError("bad counter magic %r" % h)
        r.opaque = h[8:]
        r.body = self.take(n)
        return r

    def cmd(self, op, body=b"", opaque=b"\0\0\0\0"):
        self.send(counter_req(op, body, opaque))
        return self.recv()

    def get(self, name):
        r = self.cmd(1, struct.pack(">H", len(name)) + name)
        return struct.unpack(">I", r.body)[0] if r.status == 0 else None

    def acquire(self, name, n, mx):
        return self.cmd(2, struct.pack(">IIH", n, mx, len(name)) + name)

    def release(self, name, n):
        return self.cmd(3, struct.pack(">IH", n, len(name)) + name)

    def stats(self):
        r = self.cmd(0x10)
        b, out = r.body, {}
        while b:
            a, c = struct.unpack(">HH", b[:4])
            out[b[4:4 + a].decode()] = b[4 + a:4 + a + c].decode()
            b = b[4 + a + c:]
        return out

    def dump(self):
        self.send(counter_req(0x11))
        out = []
        while True:
            r = self.recv()
            if not r.body:
                return out
            c, m, l = struct.unpack(">IIH", r.body[:10])
            out.append((r.body[10:10 + l], c, m))

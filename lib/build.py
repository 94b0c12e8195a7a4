"""Out-of-tree builds of /repo's current working tree with the interposition shim.

Everything lives below $YV_BUILD (default /verif/build, ignored by git).  A build
is keyed by the content of the sources and flags, so a second check in the same
tree reuses it, and any change in /repo gives a new build.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YV_REPO", "/repo")
BUILD = os.environ.get("YV_BUILD", os.path.join(VERIF, "build"))

WRAPS = """time _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv
nanosleep epoll_wait getifaddrs freeifaddrs accept4 recv send writev pthread_mutex_lock
pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_unlock read write pread64 mkostemp mkostemp64 unlink close
mlockall fdatasync""".split()

BASE = ["-std=gnu++17", "-g", "-U_FORTIFY_SOURCE", "-pthread", "-D_FILE_OFFSET_BITS=64"]
VARIANTS = {
    "plain": (["-O2"], []),
    "scan": (["-O2", "-DYV_SCAN_FREE"], []),
    "asan": (["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
              "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
             ["-fsanitize=address,undefined"]),
    "tsan": (["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"], ["-fsanitize=thread"]),
}


class BuildError(Exception):
    pass


def _cacheline():
    try:
        v = int(subprocess.run(["getconf", "LEVEL1_DCACHE_LINESIZE"], capture_output=True,
                               text=True).stdout.strip() or 0)
    except (ValueError, OSError):
        v = 0
    return v or 32


def repo_sources():
    out = []
    for top in ("src", "cybozu"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".hpp", ".h", ".c", ".cc", ".inc", ".ipp")):
                    out.append(os.path.join(d, f))
    return out


def _digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()[:20]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-6000:]))


def _compile_all(jobs):
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(_run, c, d) for c, d in jobs]:
            f.result()


def build(variant, target="server", harness=None, wraps=True, extra=()):
    """Build the server (target='server') or a harness linked with the library.

    harness: list of .cpp files below /verif/harness, linked with every /repo source but main.cpp.
    Returns the path of the executable.
    """
    variant = os.environ.get("YV_VARIANT", variant) if variant == "plain" else variant
    cflags, lflags = VARIANTS[variant]
    shim = [os.path.join(VERIF, "harness", f) for f in ("shim.cpp", "shm.h")]
    hfiles = [os.path.join(VERIF, "harness", f) for f in (harness or [])]
    srcs = repo_sources()
    copying = os.path.join(REPO, "COPYING")
    key = _digest(srcs + shim + hfiles + ([copying] if os.path.exists(copying) else []),
                  (variant, cflags, lflags, WRAPS, BASE, wraps, target, list(extra)))
    out = os.path.join(BUILD, "%s-%s-%s" % (target, variant, key))
    exe = os.path.join(out, target)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-%s-%s" % (target, variant)), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, "%s-%s-*" % (target, variant))):
            if os.path.isdir(old) and len(os.path.basename(old)) > 20:
                shutil.rmtree(old, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        tree = os.path.join(tmp, "tree")
        objs = os.path.join(tmp, "obj")
        os.makedirs(objs)
        for s in srcs:
            d = os.path.join(tree, os.path.relpath(s, REPO))
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(s, d)
        with open(os.path.join(tree, "COPYING.hpp"), "w") as fp:
            text = open(copying).read() if os.path.exists(copying) else ""
            fp.write('static char COPYING[] = R"(%s)";\n' % text)
        flags = BASE + cflags + list(extra) + [
            "-I" + tree, "-DCACHELINE_SIZE=%d" % _cacheline(),
            "-DDEFAULT_CONFIG=/nonexistent/yrmcds.conf"]
        jobs, ofiles = [], []
        for s in srcs:
            rel = os.path.relpath(s, REPO)
            if not rel.endswith((".cpp", ".cc", ".c")):
                continue
            if target != "server" and rel == os.path.join("src", "main.cpp"):
                continue
            o = os.path.join(objs, rel.replace("/", "_") + ".o")
            jobs.append((["g++", "-c", "-w"] + flags + [os.path.join(tree, rel), "-o", o], tree))
            ofiles.append(o)
        if wraps:
            o = os.path.join(objs, "yv_shim.o")
            sflags = [f for f in flags if "sanitize" not in f]
            jobs.append((["g++", "-c", "-w"] + sflags + ["-O2", shim[0], "-o", o], tree))
            shim_o = o
        for hf in hfiles:
            if not hf.endswith(".cpp"):
                continue
            o = os.path.join(objs, "h_" + os.path.basename(hf) + ".o")
            jobs.append((["g++", "-c", "-w"] + flags + ["-I" + os.path.join(VERIF, "harness"),
                                                        hf, "-o", o], tree))
            ofiles.append(o)
        _compile_all(jobs)
        # --wrap applies to the objects of /repo; the shim is linked through a
        # relocatable object of its own so that its own calls are the real ones.
        link = ["g++", "-pthread", "-o", os.path.join(tmp, target)] + lflags + ofiles
        if wraps:
            link += [shim_o] + ["-Wl,--wrap=" + w for w in WRAPS]
        link += ["-latomic", "-lpthread"]
        _run(link)
        shutil.rmtree(objs, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return exe


def build_tool(name, files, flags=("-O2",)):
    """Build a stand-alone tool of /verif (a driver, not linked with /repo)."""
    fs = [os.path.join(VERIF, "harness", f) for f in files]
    key = _digest(fs, (name, list(flags)))
    out = os.path.join(BUILD, "tool-%s-%s" % (name, key))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-tool-" + name), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            _run(["g++", "-std=gnu++17", "-g", "-pthread", "-Wall"] + list(flags) +
                 [f for f in fs if f.endswith(".cpp")] + ["-o", out + ".tmp"])
            os.rename(out + ".tmp", out)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "asan", "tsan", "scan"]:
        print(v, build(v))

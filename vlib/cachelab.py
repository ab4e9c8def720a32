"""Runs grammar constructions over a cache directory in child processes, with crashes, failing file operations, torn
files, pauses and delays, and checks what a later construction sees."""
import builtins
import errno
import json
import os
import random
import select
import shutil
import signal
import sys
import time

from vlib import toy
from vlib.core import HarnessError, Violation, _die_with_parent

GRAMMAR = [["num", 10, [["a", "x", 0], ["ab", "甲", 3]]], ["unit", 20, [["ba", "yy", 1]]], ["char", 300, [["a", "a", 0], ["b", "b", 0]]]]
OTHER = [["num", 10, [["a", "q", 0], ["ab", "乙", 3]]], ["char", 300, [["a", "a", 0], ["b", "z", 0]]]]
TEXTS = ["a", "ab", "aab", "bab", "abba", "bbaab"]
FP = "f" * 64
_ref = {}


def reference(rules):
    """What the grammar answers when it is built without a cache."""
    key = json.dumps(rules)
    if key not in _ref:
        x = toy.build(rules, cache_dir=False)
        _ref[key] = [[x.tag(t), x.normalize(t)] for t in TEXTS]
    return _ref[key]


# ------------------------------------------------------------------ child side
def _trace(on_event):
    """Calls on_event() before every line of the cache module and of build_fst."""
    def glob(frame, event, arg):
        co = frame.f_code
        if co.co_filename.endswith(os.sep + "cache.py") and os.sep + "tn" + os.sep in co.co_filename or co.co_name == "build_fst":
            def local(frame, event, arg):
                if event == "line":
                    on_event()
                return local
            return local
    sys.settrace(glob)


WATCHED = ["mkdir", "open", "replace", "rename", "unlink", "rmdir", "remove", "fsync", "write", "ftruncate", "listdir", "scandir",
           "lstat", "fstat", "stat", "lseek", "read"]


class Faults:
    """Makes the k-th file operation fail with the given errno (k = None only counts)."""

    def __init__(self, at=None, err=errno.EIO, synced=None):
        self.n, self.at, self.err, self.synced = 0, at, err, synced
        self.saved = []

    def install(self):
        for name in WATCHED:
            orig = getattr(os, name)

            def wrap(*a, _orig=orig, _name=name, **k):
                self.n += 1
                if self.n == self.at:
                    if _name == "write" and len(a) > 1 and len(a[1]) > 1:
                        _orig(a[0], a[1][:len(a[1]) // 2])
                    raise OSError(self.err, os.strerror(self.err))
                r = _orig(*a, **k)
                if _name == "fsync" and self.synced is not None:
                    self.synced(a[0])
                return r
            setattr(os, name, wrap)
        import fcntl
        orig_flock = fcntl.flock

        def wrap_flock(*a):
            self.n += 1
            if self.n == self.at:
                raise OSError(self.err, os.strerror(self.err))
            return orig_flock(*a)
        fcntl.flock = wrap_flock
        orig_open = builtins.open

        def wrap_open(*a, **k):
            self.n += 1
            if self.n == self.at:
                raise OSError(self.err, os.strerror(self.err))
            return orig_open(*a, **k)
        builtins.open = wrap_open


class Handle:
    """A construction running in a child process."""

    def __init__(self, pid, rfd, log):
        self.pid, self.rfd, self.log, self.buf, self.code = pid, rfd, log, b"", None

    def wait(self, timeout=60.0):
        """-> result dict; status ok / exc / crash / hang"""
        end = time.monotonic() + timeout
        while True:
            left = end - time.monotonic()
            r, _, _ = select.select([self.rfd], [], [], max(0.0, left))
            if not r:
                self.kill()
                return {"status": "hang", "built": self.built()}
            d = os.read(self.rfd, 65536)
            if not d:
                break
            self.buf += d
        os.close(self.rfd)
        _, st = os.waitpid(self.pid, 0)
        code = os.waitstatus_to_exitcode(st)
        if not self.buf.endswith(b"\n"):
            if code not in (77, -9):
                raise HarnessError("cache child ended with %d" % code)
            return {"status": "crash", "built": self.built()}
        out = json.loads(self.buf.decode("utf-8"))
        out["built"] = self.built()
        return out

    def built(self):
        return os.stat(self.log).st_size if os.path.exists(self.log) else 0

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.close(self.rfd)
        os.waitpid(self.pid, 0)


_serial = [0]


def start(scratch, cache_dir, rules=GRAMMAR, overwrite=False, config=None, prefix="toy", ordertype="tn", crash_at=None, fault=None,
          disk_limit=None, pause=None, delay_seed=None, lock_timeout=None, fingerprint=FP, slow_build=0.0, synclog=None, barrier=None,
          env=None, texts=TEXTS, threads=0, retry=False, fail_build=False,
          closing=(), build_pause=None):
    """Forks a child that constructs the grammar and reports {status, exc, outs, events, calls}.

    crash_at: die before the k-th traced line; fault: (k, errno) for the k-th file operation; disk_limit: largest file in bytes;
    pause: (k, ready_fd, go_fd); delay_seed: random sleeps between lines; barrier: fd read (until closed) before starting.
    retry: after an exception construct once more in the same process; fail_build: the grammar builder raises;
    closing: the parent's pipe ends to close; build_pause: (ready_fd, go_fd) to stop in the grammar builder."""
    _serial[0] += 1
    log = os.path.join(scratch, "build-%d-%d" % (os.getpid(), _serial[0]))
    r, w = os.pipe()
    parent = os.getpid()
    pid = os.fork()
    if pid:
        os.close(w)
        return Handle(pid, r, log)
    try:
        _die_with_parent(parent)
        os.close(r)
        for fd in closing:
            os.close(fd)
        out = {}
        if env:
            os.environ.update(env)
        if lock_timeout is not None:
            os.environ["WETEXTPROCESSING_CACHE_LOCK_TIMEOUT"] = str(lock_timeout)
        logfd = os.open(log, os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600)
        syncfd = os.open(synclog, os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600) if synclog else None
        os_write, os_fstat = os.write, os.fstat

        def on_build():
            os_write(logfd, b"B")
            if slow_build:
                time.sleep(slow_build)
            if build_pause is not None:
                os_write(build_pause[0], b"r")
                os.read(build_pause[1], 1)
            if fail_build:
                raise ValueError("grammar is broken")

        def synced(fd):
            st = os_fstat(fd)
            os_write(syncfd, b"%d %d\n" % (st.st_ino, st.st_size))

        if disk_limit is not None:
            import resource
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (disk_limit, disk_limit))
        state = {"n": 0}
        rnd = random.Random(delay_seed) if delay_seed is not None else None

        def event():
            state["n"] += 1
            if crash_at is not None and state["n"] == crash_at:
                os._exit(77)
            if pause is not None and state["n"] == pause[0]:
                os_write(pause[1], b"r")
                os.read(pause[2], 1)
            if rnd is not None and rnd.random() < 0.08:
                time.sleep(rnd.random() * 0.004)

        if barrier is not None:
            while select.select([barrier], [], [], 30)[0] and os.read(barrier, 1):
                pass
        toy_build = lambda: toy.build(rules, ordertype=ordertype, prefix=prefix, cache_dir=cache_dir, overwrite=overwrite, config=config,
                                      on_build=on_build, fingerprint=fingerprint)
        faults = Faults(fault[0] if fault else None, fault[1] if fault else errno.EIO, synced if synclog else None)
        faults.install()
        try:
            if threads:
                out = _threads(toy_build, threads, texts)
            else:
                _trace(event)
                try:
                    x = toy_build()
                finally:
                    sys.settrace(None)
                out["outs"] = [[x.tag(t), x.normalize(t)] for t in texts]
                out["status"] = "ok"
        except Exception as e:
            sys.settrace(None)
            out = {"status": "exc", "exc": [c.__name__ for c in type(e).__mro__], "msg": str(e)[:300]}
            if retry:
                try:
                    x = toy_build()
                    out["retry"] = [[x.tag(t), x.normalize(t)] for t in texts]
                except Exception as e:
                    out["retry"] = "%s: %s" % (type(e).__name__, e)
        out["events"], out["calls"] = state["n"], faults.n
        os_write(w, (json.dumps(out) + "\n").encode("utf-8"))
    except BaseException:
        import traceback
        traceback.print_exc()
        os._exit(3)
    os._exit(0)


def _threads(build, k, texts):
    import threading
    res = [None] * k
    sys.setswitchinterval(1e-5)

    def work(i):
        try:
            x = build()
            res[i] = [[x.tag(t), x.normalize(t)] for t in texts]
        except Exception as e:
            res[i] = "%s: %s" % (type(e).__name__, e)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(k)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return {"status": "ok", "outs": res}


def construct(scratch, cache_dir, timeout=60.0, **k):
    return start(scratch, cache_dir, **k).wait(timeout)


# ---------------------------------------------------------------- parent side
def fresh(scratch, name="cache"):
    _serial[0] += 1
    d = os.path.join(scratch, "%s-%d" % (name, _serial[0]))
    os.mkdir(d, 0o700)
    return d


def copy_cache(scratch, src):
    _serial[0] += 1
    d = os.path.join(scratch, "copy-%d" % _serial[0])
    shutil.copytree(src, d, symlinks=True)
    return d


def drop(*dirs):
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)


def entries(cache):
    """Directories that hold graph files, residue included, and lock files."""
    out, residue = [], []
    for base, dirs, files in os.walk(cache):
        for f in files:
            if f.endswith(".fst") and base not in out:
                out.append(base)
        for d in dirs:
            if any(m in d for m in (".tmp", ".previous", ".corrupt")):
                residue.append(os.path.join(base, d))
    return sorted(out), sorted(residue)


def tear(cache, synclog, rnd):
    """What a power failure may leave: files that were not synced lose their tail or contents."""
    ok = set()
    if os.path.exists(synclog):
        with open(synclog) as f:
            for line in f:
                if line.endswith("\n") and len(line.split()) == 2:
                    ok.add(tuple(map(int, line.split())))
    n = 0
    for base, _, files in os.walk(cache):
        for f in files:
            p = os.path.join(base, f)
            st = os.lstat(p)
            if (st.st_ino, st.st_size) in ok or st.st_size == 0 or not os.path.isfile(p) or os.path.islink(p):
                continue
            with open(p, "r+b") as h:
                how = rnd.randrange(3)
                if how == 0:
                    h.truncate(0)
                elif how == 1:
                    h.truncate(rnd.randrange(st.st_size))
                else:
                    h.write(b"\0" * st.st_size)
            n += 1
    return n


def durable(cache, synclog):
    """Counts everything that is in the cache now as synced."""
    with open(synclog, "a") as out:
        for base, _, files in os.walk(cache):
            for f in files:
                st = os.lstat(os.path.join(base, f))
                out.write("%d %d\n" % (st.st_ino, st.st_size))


def good(what, r, rules=GRAMMAR, built=None):
    """The construction succeeded with the uncached behaviour (and built exactly / at most that often)."""
    if r["status"] != "ok":
        raise Violation("%s: construction %s" % (what, "raised %s: %s" % (r["exc"][0], r["msg"]) if r["status"] == "exc" else r["status"]))
    if r["outs"] != reference(rules):
        raise Violation("%s: the normalizer answers %r, uncached it answers %r" % (what, r["outs"], reference(rules)))
    if built is not None and r["built"] not in built:
        raise Violation("%s: the grammar was built %d times, expected %s" % (what, r["built"], "/".join(map(str, built))))


def settled(scratch, cache, what, rules=GRAMMAR, first_built=None, **k):
    """A construction now succeeds, the next one loads the entry without building, and the entry is complete."""
    good(what, construct(scratch, cache, rules=rules, **k), rules, first_built)
    good(what + ", then the next construction", construct(scratch, cache, rules=rules, **k), rules, (0,))

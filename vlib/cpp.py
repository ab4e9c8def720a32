"""Builds the C++ runtime of /repo (with stand-ins for OpenFst and glog) and talks to it."""
import fcntl
import glob
import os
import subprocess

from vlib.core import REPO, VERIF, Violation

HERE = os.path.join(VERIF, "vlib", "cpp")
TYPES = {"zhtn": 0, "zhitn": 1, "entn": 2, "enitn": 3, "jatn": 4, "jaitn": 5}
PREFIX = {"zhtn": "zh_tn_", "zhitn": "zh_itn_", "entn": "en_tn_", "enitn": "en_itn_", "jatn": "ja_tn_", "jaitn": "ja_itn_"}


def build(where, name="wetext_driver", mains=(HERE + "/driver.cc",)):
    """-> the program made of `mains` and the runtime, built once per run under `where`"""
    exe = os.path.join(where, name)
    with open(exe + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            src = sorted(glob.glob(REPO + "/runtime/processor/*.cc") + glob.glob(REPO + "/runtime/utils/*.cc"))
            flags = ["-g", "-O1", "-std=c++17", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I" + HERE + "/stub", "-I" + REPO + "/runtime"]
            jobs, objs = [], []
            for i, f in enumerate(list(mains) + src):
                objs.append("%s.%d.o" % (exe, i))
                jobs.append(subprocess.Popen(["g++"] + flags + ["-c", f, "-o", objs[-1]], stderr=subprocess.PIPE, text=True))
            errs = [j.communicate()[1] for j in jobs]
            if any(j.returncode for j in jobs):
                raise RuntimeError("the C++ runtime does not compile:\n" + "\n".join(errs)[-3000:])
            r = subprocess.run(["g++"] + flags + objs + ["-o", exe + ".tmp"], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError("the C++ runtime does not link:\n" + r.stderr[-3000:])
            os.rename(exe + ".tmp", exe)
            for o in objs:
                os.unlink(o)
    return exe


def build_tool(ctx):
    """The command line tool of the runtime, over a table of transducer outputs."""
    return build(shared_dir(ctx), "wetext_tool", (HERE + "/table.cc", REPO + "/runtime/bin/processor_main.cc"))


def hx(s):
    return "x" + (s if isinstance(s, bytes) else s.encode("utf-8")).hex()


def un(s):
    return bytes.fromhex(s[1:])


class Runtime:
    """The driver as a child process; answer(path, text) -> output or None plays the transducers."""

    def __init__(self, exe, errors):
        self.exe, self.errors, self.p, self.answer = exe, errors, None, None
        self.asked = []

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.errors, "w"), text=True, bufsize=1)

    def send(self, line):
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def call(self, *words):
        """-> ("R", [fields]) or ("E", message)"""
        if self.p is None:
            self.start()
        self.asked = []
        self.send(" ".join(words))
        while True:
            line = self.p.stdout.readline()
            if not line:
                rc = self.p.wait()
                self.p = None
                err = open(self.errors).read()
                raise Violation("the C++ runtime ended (status %s) on %s\n%s" % (rc, " ".join(words)[:2000], err[:1500]))
            op, *rest = line.split()
            if op == "Q":
                path, text = un(rest[0]).decode(), un(rest[1])
                self.asked.append((path, text))
                out = self.answer(path, text)
                self.send("N" if out is None else "A " + hx(out))
            elif op == "E":
                return "E", un(rest[0]).decode("utf-8", "replace")
            else:
                return "R", rest


def shared_dir(ctx):
    return os.path.dirname(ctx.scratch) if os.path.basename(ctx.scratch).startswith("s-") else ctx.scratch


def runtime(ctx):
    """For Part(setup=...): builds the runtime once per run."""
    return Runtime(build(shared_dir(ctx)), os.path.join(ctx.scratch, "stderr"))

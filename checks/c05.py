"""C05: the cache stays inside its root and follows no links."""
import json
import os
import shutil
import socket

from hypothesis import strategies as st

from vlib import cachelab as lab
from vlib.core import Part, Violation, spec

PROPERTY = "C05"
LEVEL = "fault_enumeration"
RULE = ("Cases: one to three plants (symbolic links to outside trees, files, copies of the valid entry, dangling or looping; FIFOs, sockets, files "
        "for directories and the reverse; foreign files and residue) at the root's children, entry files, lock and residue names of an empty, "
        "valid, corrupt or moved entry, then a construction; prefix strings; cache directory settings. Everything outside the root and every "
        "foreign file is compared before and after. Non-trivial: something was planted, or the prefix is no plain name.")
ASSUMPTIONS = ["Plants are there before the construction starts; races against the construction are not explored.",
               "The root itself is trusted and may be reached through links."]

WHERE = ["prefix", "config", "entry", "tagger.fst", "verbalizer.fst", "manifest.json", "lock", ".tmp-x", ".previous-x", ".corrupt-x",
         ".previous-x/tagger.fst", ".previous-x/manifest.json", ".tmp-x/tagger.fst", ".corrupt-x/foreign", "other-key", "beside"]
WHAT = ["link-dir", "link-file", "link-valid", "link-valid-dir", "dangling", "loop", "fifo", "socket", "file", "dir", "foreign"]


@st.composite
def plants(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return {"scenario": draw(st.sampled_from(["empty", "valid", "valid", "corrupt", "previous"])), "overwrite": draw(st.booleans()),
            "plants": draw(st.lists(st.tuples(st.sampled_from(WHERE), st.sampled_from(WHAT)), min_size=n, max_size=n)),
            "rootlink": draw(st.integers(0, 5)) == 0, "second": draw(st.booleans())}


def grid():
    return [{"scenario": sc, "overwrite": o, "plants": [[w, x]], "rootlink": False, "second": False}
            for w in WHERE for x in WHAT for sc in ("empty", "valid", "corrupt", "previous") for o in (False, True)]


def setup(ctx):
    base = lab.fresh(ctx.scratch, "base")
    lab.good("first construction", lab.construct(ctx.scratch, base), built=(1,))
    (entry,), _ = lab.entries(base)
    return base, os.path.relpath(entry, base)


def snapshot(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            s = os.lstat(p)
            out[os.path.relpath(p, root)] = [s.st_mode, s.st_mtime_ns if not os.path.isdir(p) else 0,
                                             os.readlink(p) if os.path.islink(p) else open(p, "rb").read().hex() if os.path.isfile(p) else ""]
    return out


def remove(p):
    if os.path.islink(p) or os.path.lexists(p) and not os.path.isdir(p):
        os.unlink(p)
    elif os.path.isdir(p):
        shutil.rmtree(p)


def plant(cache, rel, where, what, victim):
    """-> path planted, or None when its place does not exist"""
    entry = os.path.join(cache, rel)
    parent, name = os.path.split(entry)
    p = {"prefix": os.path.dirname(parent), "config": parent, "entry": entry, "lock": os.path.join(parent, ".%s.lock" % name),
         "other-key": os.path.join(parent, ".%s.tmp-x" % ("0" * 64)), "beside": os.path.join(parent, "notes")}.get(where)
    if p is None:
        p = os.path.join(entry, where) if where.endswith((".fst", ".json")) and not where.startswith(".") else os.path.join(parent, "." + name + where)
    up = os.path.dirname(p)
    if os.path.islink(up) or os.path.lexists(up) and not os.path.isdir(up):
        return None
    # nothing is planted through a link planted before
    d = up
    while len(d) > len(cache):
        if os.path.islink(d) or os.path.lexists(d) and not os.path.isdir(d):
            return None
        d = os.path.dirname(d)
    if not os.path.isdir(up):
        if os.path.basename(up).startswith("." + name) and os.path.isdir(entry) and not os.path.islink(entry) and os.path.isdir(parent):
            shutil.copytree(entry, up, symlinks=True) if not any(os.path.islink(os.path.join(entry, f)) or not os.path.isfile(os.path.join(entry, f))
                                                                 for f in os.listdir(entry)) else os.makedirs(up)
        else:
            os.makedirs(up)
    if what == "foreign" and os.path.isdir(p) and not os.path.islink(p):
        p = os.path.join(p, "foreign-%s" % where.strip(".").replace("/", "-"))
        if os.path.lexists(p):
            return None
        with open(p, "wb") as f:
            f.write(b"mine")
        return p
    keep = p + ".orig"
    remove(keep)
    if os.path.isfile(p) and not os.path.islink(p):
        shutil.copyfile(p, os.path.join(victim, "valid-file"))
    remove(p)
    if what == "link-dir":
        os.symlink(os.path.join(victim, "dir"), p)
    elif what == "link-file":
        os.symlink(os.path.join(victim, "file"), p)
    elif what == "link-valid-dir":
        os.symlink(os.path.join(victim, "root", os.path.relpath(os.path.join(parent, name) if "previous" in where or "tmp" in where or "corrupt" in where
                                                                else p, cache)) if where not in ("lock",) else os.path.join(victim, "file"), p)
    elif what == "link-valid":
        tail = os.path.basename(p)
        src = os.path.join(victim, "root", rel, tail)
        os.symlink(src if os.path.exists(src) else os.path.join(victim, "root", rel), p)
    elif what == "dangling":
        os.symlink(os.path.join(victim, "nowhere"), p)
    elif what == "loop":
        os.symlink(os.path.basename(p), p)
    elif what == "fifo":
        os.mkfifo(p)
    elif what == "socket":
        s = socket.socket(socket.AF_UNIX)
        cwd = os.open(".", os.O_RDONLY)
        os.chdir(up)
        try:
            s.bind(os.path.basename(p)[:60])
        finally:
            os.fchdir(cwd)
            os.close(cwd)
            s.close()
        os.rename(os.path.join(up, os.path.basename(p)[:60]), p)
    elif what == "dir":
        os.mkdir(p)
        with open(os.path.join(p, "foreign"), "wb") as f:
            f.write(b"mine")
        p = os.path.join(p, "foreign")
    else:
        with open(p, "wb") as f:
            f.write(b"mine")
    return p


LINKS = ("link-dir", "link-file", "link-valid", "link-valid-dir", "dangling", "loop")
ENTRY_PATH = ("prefix", "config", "entry", "tagger.fst", "verbalizer.fst", "manifest.json")


def planted(ctx, case):
    base, rel = ctx.state
    top = lab.fresh(ctx.scratch, "top")
    try:
        real = os.path.join(top, "real")
        shutil.copytree(base, real)
        victim = os.path.join(top, "victim")
        os.makedirs(os.path.join(victim, "dir", "sub"))
        for f in ("file", "dir/tagger.fst", "dir/manifest.json", "dir/keep", "dir/sub/keep"):
            with open(os.path.join(victim, f), "wb") as h:
                h.write(b"victim")
        shutil.copytree(base, os.path.join(victim, "root"))
        entry = os.path.join(real, rel)
        parent, name = os.path.split(entry)
        sc = case["scenario"]
        if sc == "empty":
            shutil.rmtree(os.path.dirname(parent))
        elif sc == "corrupt":
            with open(os.path.join(entry, "manifest.json"), "wb") as h:
                h.write(b"{}")
        elif sc == "previous":
            os.rename(entry, os.path.join(parent, ".%s.previous-x" % name))
        cache = real
        if case["rootlink"]:
            cache = os.path.join(top, "link")
            os.symlink(real, cache)
        done = []
        for where, what in case["plants"]:
            p = plant(real, rel, where, what, victim)
            if p is not None:
                done.append((where, what, p))
        before = snapshot(victim)
        mine = {p: os.path.basename(p) for w, x, p in done if x in ("foreign", "dir", "file") and os.path.isfile(p) and not os.path.islink(p)
                and open(p, "rb").read() == b"mine" and (os.path.basename(p).startswith("foreign") or w in ("beside", "other-key"))}
        for i in range(2 if case["second"] else 1):
            what = "%s entry%s, planted %s%s%s" % (sc, " (overwriting)" if case["overwrite"] else "", ["%s: %s" % d[:2] for d in done],
                                                  ", root behind a link" if case["rootlink"] else "", ", second construction" if i else "")
            r = lab.construct(ctx.scratch, cache, overwrite=case["overwrite"], timeout=20, lock_timeout=5)
            if snapshot(victim) != before:
                after = snapshot(victim)
                diff = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
                raise Violation("%s: outside the root, %s changed (%s)" % (what, sorted(diff)[:4], r["status"]))
            if r["status"] == "hang":
                raise Violation("%s: the construction hangs" % what)
            if r["status"] == "exc":
                if "CacheError" not in r["exc"] and "OSError" not in r["exc"]:
                    raise Violation("%s: raised %s: %s" % (what, r["exc"][0], r["msg"]))
            else:
                lab.good(what, r)
                linked = [d for d in done if d[1] in LINKS and d[0] in ENTRY_PATH]
                if i == 0 and linked and r["built"] == 0:
                    raise Violation("%s: answered through the link at %s" % (what, linked[0][0]))
                e = entry
                while len(e) >= len(real):
                    if os.path.islink(e):
                        raise Violation("%s: %s is a link in the entry path, and the construction succeeded" % (what, os.path.relpath(e, top)))
                    e = os.path.dirname(e)
                if sorted(os.listdir(entry)) != ["manifest.json", "tagger.fst", "verbalizer.fst"] or any(
                        not os.path.isfile(os.path.join(entry, f)) or os.path.islink(os.path.join(entry, f)) for f in os.listdir(entry)):
                    raise Violation("%s: the entry is not exactly three regular files" % what)
        left = {}
        for b, ds, fs in os.walk(real):
            for f in fs:
                left.setdefault(f, []).append(os.path.join(b, f))
        for p, n in mine.items():
            if not any(os.path.isfile(q) and not os.path.islink(q) and open(q, "rb").read() == b"mine" for q in left.get(n, [])):
                raise Violation("%s: the foreign file %s is gone" % (what, os.path.relpath(p, real)))
        if done:
            ctx.nt(case)
        for d in done:
            ctx.label(d[1] + " " + r["status"])
        # the plants taken away, the cache works again
        for w, x, p in done:
            remove(os.path.dirname(p) if x == "dir" and os.path.basename(p) == "foreign" else p)
        lab.settled(ctx.scratch, cache, what + ", then removed")
        ctx.sample(case)
    finally:
        lab.drop(top)


# ---------------------------------------------------------------- prefixes
def prefixes():
    bad = st.sampled_from(["", ".", "..", "/", "a/b", "../x", "/tmp/x", "a\\b", "a b", "toy\n", "\n", "a\x00", "~", "~root", "$HOME", "a:b", "名", "a/..", "./a",
                           "toy/", "*", "é", "a\u2215b", "．．", "\u2024\u2024", "-", "--", "..."])
    return st.one_of(bad, st.text("ab./\\~_-\n 0A%名", max_size=8), st.text(max_size=5).filter(lambda s: not any("\ud800" <= c <= "\udfff" for c in s)))


def prefix(ctx, case):
    import re
    top = lab.fresh(ctx.scratch, "top")
    try:
        cache = os.path.join(top, "x", "root")
        safe = re.fullmatch(r"[A-Za-z0-9_.-]+", case, re.ASCII) is not None and case not in (".", "..")
        r = lab.construct(ctx.scratch, cache, prefix=case)
        what = "prefix %r" % case
        if safe:
            lab.good(what, r, built=(1,))
            if os.listdir(cache) != [case] or os.listdir(top) != ["x"] or os.listdir(os.path.join(top, "x")) != ["root"]:
                raise Violation("%s: created %s" % (what, sorted(snapshot(top))[:5]))
        else:
            if r["status"] != "exc" or "ValueError" not in r["exc"] or r["built"]:
                raise Violation("%s is not one safe path component; the construction gave %s" % (what, r))
            if os.listdir(top):
                raise Violation("%s was rejected, but left %s" % (what, sorted(snapshot(top))[:5]))
        if not re.fullmatch("[a-z]+", case):
            ctx.nt(case)
        ctx.label("safe" if safe else "unsafe")
        ctx.sample(case)
    finally:
        lab.drop(top)


# ------------------------------------------------------- which root is used
@st.composite
def places(draw):
    return {"cache_dir": draw(st.sampled_from([None, None, False, False, "abs", "rel", "~", "deep"])),
            "xdg": draw(st.sampled_from([None, "", "abs", "rel", "relative/x", "~/xdg", "."])), "overwrite": draw(st.booleans()),
            "planted": draw(st.booleans())}


def where(ctx, case):
    base, rel = ctx.state
    top = lab.fresh(ctx.scratch, "top")
    old = {k: os.environ.get(k) for k in ("HOME", "XDG_CACHE_HOME", "TMPDIR")}
    cwd = os.getcwd()
    try:
        for d in ("home", "cwd", "xdg", "tmp"):
            os.mkdir(os.path.join(top, d))
        os.environ["HOME"] = os.path.join(top, "home")
        os.environ["TMPDIR"] = os.path.join(top, "tmp")
        x = {"abs": os.path.join(top, "xdg")}.get(case["xdg"], case["xdg"])
        os.environ.pop("XDG_CACHE_HOME", None)
        if x is not None:
            os.environ["XDG_CACHE_HOME"] = x
        os.chdir(os.path.join(top, "cwd"))
        default = {"abs": "xdg", "~/xdg": "home/xdg"}.get(case["xdg"], "home/.cache") + "/wetextprocessing"
        arg = {"abs": os.path.join(top, "given"), "rel": "given", "~": "~/given", "deep": os.path.join(top, "a/b/c/given")}.get(case["cache_dir"], case["cache_dir"])
        want = {None: default, False: None, "abs": "given", "rel": "cwd/given", "~": "home/given", "deep": "a/b/c/given"}[case["cache_dir"]]
        if case["planted"]:
            for d in {default, want or default}:
                shutil.copytree(base, os.path.join(top, d))
        before = snapshot(top)
        r = lab.construct(ctx.scratch, arg, overwrite=case["overwrite"])
        what = json.dumps(case)
        load = case["planted"] and want is not None and not case["overwrite"]
        lab.good(what, r, built=(0,) if load else (1,))
        after = snapshot(top)
        if want is None or load:
            changed = [k for k in set(before) | set(after) if before.get(k) != after.get(k) and not k.endswith(".lock")]
            if changed:
                raise Violation("%s: %s changed" % (what, sorted(changed)[:4]))
        else:
            changed = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
            out = [k for k in changed if not (k == want or k.startswith(want + "/") or want.startswith(k + "/"))]
            if out:
                raise Violation("%s: %s changed, outside %s" % (what, sorted(out)[:4], want))
            if not lab.entries(os.path.join(top, want))[0]:
                raise Violation("%s: no entry below %s" % (what, want))
        if want is not None:
            lab.good(what + ", again", lab.construct(ctx.scratch, arg), built=(0,))
        ctx.nt(case)
        ctx.sample(case)
    finally:
        os.chdir(cwd)
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        lab.drop(top)


def parts(tier):
    deep = tier == "thorough"
    return [
        Part("one plant", planted, enum=grid, limit=None if deep else 560, shards=5, setup=setup),
        Part("several plants", planted, gen=plants, n=4000 if deep else 240, shards=3, setup=setup),
        Part("prefix strings", prefix, gen=prefixes, n=4000 if deep else 400, shards=2),
        Part("cache directories", where, gen=places, n=600 if deep else 80, shards=2, setup=setup),
    ]

"""C02: constructions that crash or fail leave a cache the next construction can use."""
import errno
import json
import os
import random
import shutil

from hypothesis import strategies as st

from vlib import cachelab as lab
from vlib.core import Part, Violation

PROPERTY = "C02"
LEVEL = "fault_enumeration"
RULE = ("Cases: a construction over an empty, valid (overwritten), corrupt, replaced or residue-laden cache dies before its k-th executed line "
        "of the cache code, or its k-th file operation fails with an error, or the disk is full, or the builder raises, or several interrupted replacements left entries behind; optionally unsynced "
        "files are torn afterwards; sequences mix these. Non-trivial: the construction was really interrupted.")
ASSUMPTIONS = ["A crash is the death of the process at a line of tn/cache.py or build_fst; a power failure tears file contents that were not "
               "fsynced but keeps the order of renames.", "The grammar is a small one written against the rule API."]

ERRNOS = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EPERM, errno.EROFS, errno.EDQUOT, errno.ENOENT]
SIBLING = "5" * 64
SCENARIOS = ["empty", "valid", "corrupt", "previous", "residue", "load"]


def setup(ctx):
    """A valid entry with a sibling entry of other sources, the events and file operations of each scenario."""
    base = lab.fresh(ctx.scratch, "base")
    lab.good("first construction", lab.construct(ctx.scratch, base), built=(1,))
    (entry,), _ = lab.entries(base)
    rel = os.path.relpath(entry, base)
    lab.good("sibling construction", lab.construct(ctx.scratch, base, fingerprint=SIBLING), built=(1,))
    counts = {}
    for sc in SCENARIOS:
        cache, _ = prepare(ctx, base, rel, sc)
        r = lab.construct(ctx.scratch, cache, overwrite=sc == "valid")
        lab.good("scenario " + sc, r)
        counts[sc] = (r["events"], r["calls"])
        lab.drop(cache)
    return base, rel, counts


def prepare(ctx, base, rel, sc):
    """-> cache directory, whether the next plain construction must not build"""
    cache = lab.copy_cache(ctx.scratch, base)
    entry = os.path.join(cache, rel)
    parent, name = os.path.split(entry)
    if sc == "empty":
        shutil.rmtree(entry)
    elif sc == "corrupt":
        with open(os.path.join(entry, "tagger.fst"), "r+b") as f:
            f.seek(20)
            f.write(b"\xff\xff\xff")
    elif sc == "previous":
        os.rename(entry, os.path.join(parent, ".%s.previous-%032x" % (name, 7)))
    elif sc == "residue":
        shutil.copytree(entry, os.path.join(parent, ".%s.previous-%032x" % (name, 1)))
        for i, kind in enumerate(("tmp", "corrupt")):
            p = os.path.join(parent, ".%s.%s-%032x" % (name, kind, i))
            os.mkdir(p)
            with open(os.path.join(p, "tagger.fst"), "wb") as f:
                f.write(b"half")
        with open(os.path.join(entry, "manifest.json"), "wb") as f:
            f.write(b"{")
    return cache, sc in ("valid", "load", "previous")


def finish(ctx, cache, what, keep):
    """Two constructions: the first may build (unless a valid entry was there all along), the second loads; then residue is
    gone and the sibling entry still loads."""
    lab.settled(ctx.scratch, cache, what, first_built=(0,) if keep else (0, 1))
    lab.good(what + ", the sibling entry", lab.construct(ctx.scratch, cache, fingerprint=SIBLING), built=(0,))
    r = lab.construct(ctx.scratch, cache, overwrite=True)
    lab.good(what + ", then overwritten", r, built=(1,))
    _, residue = lab.entries(cache)
    if residue:
        raise Violation("%s: after an undisturbed construction %s is left" % (what, os.path.basename(residue[0])))


def crash(ctx, case):
    sc, k, torn = case
    base, rel, counts = ctx.state
    cache, keep = prepare(ctx, base, rel, sc)
    log = os.path.join(cache + ".sync")
    try:
        lab.durable(cache, log)
        what = "%s entry, construction killed before line event %d%s" % (sc, k, ", unsynced files torn" if torn is not None else "")
        r = lab.construct(ctx.scratch, cache, overwrite=sc == "valid", crash_at=k, synclog=log)
        if r["status"] == "crash":
            ctx.nt(case)
        else:
            lab.good(what, r)
            keep = True
        n = 0
        if torn is not None:
            n = lab.tear(cache, log, random.Random(torn))
        ctx.label("%s %s%s" % (sc, r["status"], " torn" if n else ""))
        finish(ctx, cache, what, keep)
        ctx.sample(case)
    finally:
        lab.drop(cache)
        os.path.exists(log) and os.unlink(log)


def crash_points(ctx):
    counts = ctx.state[2]
    out = []
    for sc in SCENARIOS:
        for k in range(1, counts[sc][0] + 30):
            out.append([sc, k, None])
            out.append([sc, k, k])
    return out


def fault(ctx, case):
    sc, k, err = case
    base, rel, counts = ctx.state
    cache, keep = prepare(ctx, base, rel, sc)
    try:
        what = "%s entry, %s in file operation %d" % (sc, errno.errorcode[err], k)
        r = lab.construct(ctx.scratch, cache, overwrite=sc == "valid", fault=(k, err), retry=True, lock_timeout=3)
        if r["status"] == "hang":
            raise Violation(what + ": the construction hangs")
        if r["status"] == "exc":
            ctx.nt(case)
            if not {"OSError", "CacheError", "RuntimeError"} & set(r["exc"]):
                raise Violation("%s: raised %s: %s" % (what, r["exc"][0], r["msg"]))
            if r["retry"] != lab.reference(lab.GRAMMAR):
                raise Violation("%s: raised %s, and a retry in the same process gives %r" % (what, r["exc"][0], r["retry"]))
        else:
            lab.good(what, r)
        ctx.label("%s %s" % (sc, r["status"]))
        # A file reported missing or unreadable while a residual is inspected may cost the entry, never its correctness.
        finish(ctx, cache, what, keep and sc != "previous" or r["status"] == "ok")
        ctx.sample(case)
    finally:
        lab.drop(cache)


def fault_points(ctx):
    counts = ctx.state[2]
    return [[sc, k, e] for sc in SCENARIOS for k in range(1, counts[sc][1] + 5) for e in ERRNOS]


def full(ctx, case):
    sc, limit = case
    base, rel, counts = ctx.state
    cache, keep = prepare(ctx, base, rel, sc)
    try:
        what = "%s entry, files limited to %d bytes" % (sc, limit)
        r = lab.construct(ctx.scratch, cache, overwrite=sc == "valid", disk_limit=limit)
        if r["status"] == "hang":
            raise Violation(what + ": the construction hangs")
        if r["status"] == "exc":
            ctx.nt(case)
        else:
            lab.good(what, r)
        ctx.label("%s %s" % (sc, r["status"]))
        finish(ctx, cache, what, keep or r["status"] == "ok")
    finally:
        lab.drop(cache)


def limits():
    return [[sc, n] for sc in SCENARIOS for n in list(range(0, 40)) + list(range(40, 4000, 23))]


@st.composite
def op(draw):
    kind = draw(st.sampled_from(["build", "overwrite", "overwrite", "broken", "damage", "full"]))
    d = {"op": kind}
    how = draw(st.sampled_from(["", "crash", "crash", "fault"]))
    if kind in ("build", "overwrite") and how == "crash":
        d["crash"] = draw(st.integers(1, 1000))
        if draw(st.booleans()):
            d["tear"] = draw(st.integers(0, 1000))
    elif kind in ("build", "overwrite") and how == "fault":
        d["fault"] = [draw(st.integers(1, 110)), draw(st.sampled_from(ERRNOS))]
    if kind == "damage":
        d["file"] = draw(st.sampled_from(["tagger.fst", "verbalizer.fst", "manifest.json"]))
        d["at"] = draw(st.integers(0, 4000))
    if kind == "full":
        d["limit"] = draw(st.integers(0, 3000))
    d["rules"] = draw(st.sampled_from([0, 0, 0, 1]))
    return d


def sequence(ctx, case):
    """A history over one cache directory shared by two grammars (two source fingerprints)."""
    cache = lab.fresh(ctx.scratch)
    log = cache + ".sync"
    grammars = [(lab.GRAMMAR, lab.FP), (lab.OTHER, SIBLING)]
    valid = [False, False]      # a complete entry exists and nothing damaged it since
    interrupted = 0
    try:
        for i, d in enumerate(case):
            g = d["rules"]
            rules, fp = grammars[g]
            what = "history %s, step %d" % (json.dumps(case)[:600], i + 1)
            if d["op"] == "damage":
                for e in lab.entries(cache)[0]:
                    p = os.path.join(e, d["file"])
                    if not os.path.basename(e).startswith(".") and os.path.isfile(p):
                        with open(p, "r+b") as f:
                            n = os.fstat(f.fileno()).st_size
                            f.seek(d["at"] % n)
                            c = f.read(1)
                            f.seek(d["at"] % n)
                            f.write(bytes([c[0] ^ 0x55]))
                valid = [False, False]
                continue
            kw = {}
            if "crash" in d:
                kw["crash_at"] = d["crash"]
            if "fault" in d:
                kw["fault"] = d["fault"]
                kw["retry"] = True
                kw["lock_timeout"] = 3
            if d["op"] == "broken":
                kw["fail_build"] = True
            if d["op"] == "full":
                kw["disk_limit"] = d["limit"]
            over = d["op"] in ("overwrite", "full")
            lab.durable(cache, log) if "tear" in d else None
            r = lab.construct(ctx.scratch, cache, rules=rules, fingerprint=fp, overwrite=over, synclog=log if "tear" in d else None, **kw)
            if r["status"] == "hang":
                raise Violation(what + ": hangs")
            if r["status"] == "ok":
                lab.good(what, r, rules, (1,) if over else (0,) if valid[g] else (0, 1))
                valid[g] = True
            else:
                interrupted += 1
                if not kw:
                    lab.good(what, r, rules)
                if d["op"] == "broken" and valid[g]:
                    raise Violation("%s: a valid entry was there, but the grammar was built" % what)
                if "retry" in r and not d["op"] == "broken" and r["retry"] != lab.reference(rules):
                    raise Violation("%s: raised %s, and a retry in the same process gives %r" % (what, r["exc"][0], r["retry"]))
                if r["status"] == "exc" and "fault" in d and not over:
                    valid[g] = True             # the retry has stored it
            if "tear" in d:
                lab.tear(cache, log, random.Random(d["tear"]))
        what = "history %s" % json.dumps(case)[:600]
        for g, (rules, fp) in enumerate(grammars):
            lab.settled(ctx.scratch, cache, what, rules=rules, fingerprint=fp, first_built=(0,) if valid[g] else (0, 1))
        if interrupted > 0:
            ctx.nt(case)
            ctx.label("interrupted %d" % min(interrupted, 4))
        ctx.sample(case)
    finally:
        lab.drop(cache)
        os.path.exists(log) and os.unlink(log)


STATES = ["valid", "valid", "partial", "broken", "empty", "sibling", "no manifest"]


@st.composite
def leftover(draw):
    residues = draw(st.lists(st.tuples(st.sampled_from(["previous", "previous", "previous", "tmp", "corrupt"]), st.sampled_from(STATES),
                                       st.integers(0, 5), st.integers(0, 10 ** 6)), min_size=1, max_size=4))
    return [draw(st.sampled_from(["absent", "absent", "absent", "valid", "broken", "partial", "sibling"])), [list(r) for r in residues]]


def spoil(d, how, at, sibling):
    if how == "partial":
        names = sorted(os.listdir(d))
        for f in names[at % 3:at % 3 + 1 + at % 2]:
            os.unlink(os.path.join(d, f))
    elif how == "empty":
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
    elif how == "no manifest":
        os.unlink(os.path.join(d, "manifest.json"))
    elif how == "broken":
        f = os.path.join(d, ["tagger.fst", "verbalizer.fst", "manifest.json"][at % 3])
        with open(f, "r+b") as g:
            n = os.fstat(g.fileno()).st_size
            g.truncate(at % n)
    elif how == "sibling":
        shutil.rmtree(d)
        shutil.copytree(sibling, d)


def leftovers(ctx, case):
    """Several interrupted replacements have left entries behind: any complete one of this key is taken up again."""
    main, residues = case
    base, rel, _ = ctx.state
    cache = lab.copy_cache(ctx.scratch, base)
    try:
        entry = os.path.join(cache, rel)
        parent, name = os.path.split(entry)
        (sibling,) = [e for e in lab.entries(cache)[0] if e != entry]
        keep = 0
        for i, (kind, how, age, at) in enumerate(residues):
            d = os.path.join(parent, ".%s.%s-%032x" % (name, kind, (at * 2654435761 + i) % 16 ** 32))
            shutil.copytree(entry, d)
            spoil(d, how, at, sibling)
            os.utime(d, (10 ** 9 + age, 10 ** 9 + age))
            keep += kind == "previous" and how == "valid"
        if main == "absent":
            shutil.rmtree(entry)
        else:
            spoil(entry, main, residues[0][3], sibling)
        what = "main entry %s, left behind %s" % (main, json.dumps(residues))
        must = main == "valid" or main == "absent" and keep > 0
        if must and main == "absent" and len(residues) > 1:
            ctx.nt(case)
        lab.settled(ctx.scratch, cache, what, first_built=(0,) if must else (0, 1))
        ctx.sample(case)
    finally:
        lab.drop(cache)


def parts(tier):
    deep = tier == "thorough"
    return [
        Part("crash points", crash, enum=crash_points, limit=None if deep else 700, shards=8, setup=setup),
        Part("failing file operations", fault, enum=fault_points, limit=None if deep else 400, shards=8, setup=setup),
        Part("full disk", full, enum=limits, limit=None if deep else 90, shards=2, setup=setup),
        Part("left-overs", leftovers, gen=leftover, n=1500 if deep else 200, shards=4, setup=setup),
        Part("histories", sequence, gen=lambda: st.lists(op(), min_size=2, max_size=8), n=3000 if deep else 240, shards=8),
    ]

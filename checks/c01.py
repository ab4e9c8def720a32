"""C01: a damaged cache entry is never used."""
import json
import os
import resource
import shutil

from hypothesis import strategies as st

from vlib import cachelab as lab, toy
from vlib.core import HarnessError, Part, Violation, spec

PROPERTY = "C01"
LEVEL = "fault_enumeration"
RULE = ("Cases: one to four damages (byte flips, truncation, growth, zeroing, swaps, deletion, other entries' files, edited or foreign "
        "manifests, extra files, stale residue) to a cached entry, one after the other or with constructions between. Each construction "
        "must answer like an uncached one and the following one must load without building. Non-trivial: the damage changes bytes.")
ASSUMPTIONS = ["A manifest forged to match other graphs (consistent checksums) is no damage.", "The grammar is a small one written against the rule API; one part uses the Japanese inverse normalizer."]

FILES = ["tagger.fst", "verbalizer.fst", "manifest.json"]


@st.composite
def damage(draw):
    kind = draw(st.sampled_from(["flip", "flip", "truncate", "append", "zero", "swap", "delete", "garbage", "foreign", "manifest", "manifest",
                                 "extra", "rmdir", "residue", "empty", "rename"]))
    f = draw(st.sampled_from(FILES))
    if kind == "flip":
        return [kind, f, draw(st.integers(0, 10 ** 6)), draw(st.integers(1, 255))]
    if kind in ("truncate", "zero"):
        return [kind, f, draw(st.integers(0, 10 ** 6))]
    if kind in ("append", "garbage"):
        return [kind, f, draw(st.one_of(st.binary(min_size=1, max_size=40).map(lambda b: b.hex()),
                                        st.sampled_from([b"null", b"[]", b"{}", b"\xff\xfe", b"[" * 100000, b'{"files":{}}']).map(lambda b: b.hex())))]
    if kind == "foreign":
        return [kind, draw(st.lists(st.sampled_from(FILES), min_size=1, max_size=3, unique=True)), draw(st.sampled_from(["grammar", "config", "order"]))]
    if kind == "manifest":
        path = draw(st.sampled_from([["files"], ["files", "tagger.fst"], ["files", "verbalizer.fst", "sha256"], ["files", "tagger.fst", "size"],
                                     ["bundle_digest"], ["cache_format"], ["source_fingerprint"], ["config"], ["ordertype"], ["prefix"], ["builder"],
                                     ["builder", "pynini"], ["config_digest"], ["note"]]))
        val = draw(st.sampled_from(["<drop>", None, "", "x", -1, 10 ** 30, 1.5, True, [], {}, "swap"]))
        return [kind, path, val]
    if kind == "extra":
        return [kind, draw(st.sampled_from(["tagger.fst.bak", "x", ".hidden", "Tagger.fst", "manifest.json~", "sub/"]))]
    if kind == "residue":
        return [kind, draw(st.sampled_from([".%s.tmp-abc", ".%s.previous-abc", ".%s.corrupt-abc"])), draw(st.sampled_from(["empty", "partial", "valid", "broken"]))]
    return [kind, f]


def apply(entry, d, other):
    """Damages the entry directory; returns whether bytes may have changed."""
    kind = d[0]
    if kind == "rmdir":
        shutil.rmtree(entry, ignore_errors=True)
        return True
    if kind == "residue":
        parent, name = os.path.split(entry)
        p = os.path.join(parent, d[1] % name)
        if os.path.exists(p):
            return False
        if d[2] == "valid" and os.path.isdir(entry):
            shutil.copytree(entry, p)
        elif d[2] == "broken" and os.path.isdir(entry):
            shutil.copytree(entry, p)
            for f in os.listdir(p):
                if os.path.isfile(os.path.join(p, f)):
                    with open(os.path.join(p, f), "ab") as h:
                        h.write(b"\0")
        else:
            os.mkdir(p)
            if d[2] == "partial":
                with open(os.path.join(p, "tagger.fst"), "wb") as h:
                    h.write(b"half")
        return True
    if not os.path.isdir(entry):
        return False
    if kind == "extra":
        p = os.path.join(entry, d[1])
        if d[1].endswith("/"):
            os.makedirs(p, exist_ok=True)
        else:
            open(p, "wb").write(b"extra")
        return True
    if kind == "foreign":
        for f in d[1]:
            shutil.copyfile(os.path.join(other[d[2]], f), os.path.join(entry, f))
        return True
    if kind == "manifest":
        p = os.path.join(entry, "manifest.json")
        try:
            m = json.load(open(p))
            x = m
            for k in d[1][:-1]:
                x = x[k]
            if d[2] == "<drop>":
                x.pop(d[1][-1], None)
            elif d[2] == "swap":
                fs = m["files"]
                fs["tagger.fst"], fs["verbalizer.fst"] = fs["verbalizer.fst"], fs["tagger.fst"]
            else:
                x[d[1][-1]] = d[2]
            json.dump(m, open(p, "w"))
        except (OSError, ValueError, KeyError, TypeError, AttributeError):
            return False
        return True
    p = os.path.join(entry, d[1])
    if not os.path.isfile(p):
        return False
    data = open(p, "rb").read()
    if kind == "flip":
        if not data:
            return False
        i = d[2] % len(data)
        data = data[:i] + bytes([data[i] ^ d[3]]) + data[i + 1:]
    elif kind == "truncate":
        data = data[:d[2] % max(1, len(data))]
    elif kind == "zero":
        i = d[2] % max(1, len(data))
        data = data[:i] + b"\0" * (len(data) - i)
    elif kind == "append":
        data += bytes.fromhex(d[2])
    elif kind == "garbage":
        data = bytes.fromhex(d[2])
    elif kind == "empty":
        data = b""
    elif kind == "delete":
        os.unlink(p)
        return True
    elif kind == "rename":
        os.replace(p, p + ".moved")
        return True
    elif kind == "swap":
        q = os.path.join(entry, FILES[(FILES.index(d[1]) + 1) % 3])
        if not os.path.isfile(q):
            return False
        o = open(q, "rb").read()
        open(q, "wb").write(data)
        data = o
    open(p, "wb").write(data)
    return True


def setup(ctx):
    """One valid cache per kind of foreign entry, copied per case."""
    base = lab.fresh(ctx.scratch, "base")
    lab.good("first construction", lab.construct(ctx.scratch, base), built=(1,))
    (entry,), residue = lab.entries(base)
    others = {}
    for name, kw in (("grammar", {"rules": lab.OTHER, "fingerprint": "0" * 64}), ("config", {"config": {"x": True}}), ("order", {"ordertype": "itn"})):
        c = lab.fresh(ctx.scratch, "other")
        lab.good("other construction", lab.construct(ctx.scratch, c, **kw), kw.get("rules", lab.GRAMMAR), built=(1,))
        others[name] = lab.entries(c)[0][0]
    return base, os.path.relpath(entry, base), others


def chk(ctx, case):
    damages, between = case
    base, rel, others = ctx.state
    cache = lab.copy_cache(ctx.scratch, base)
    try:
        lab.good("undamaged entry", lab.construct(ctx.scratch, cache), built=(0,))
        changed = False
        for i, d in enumerate(damages):
            if apply(os.path.join(cache, rel), d, others):
                changed = True
                ctx.label(d[0])
            if between[i % len(between)]:
                lab.settled(ctx.scratch, cache, "after %s" % json.dumps(damages[:i + 1])[:300])
        if changed:
            ctx.nt(case)
        lab.settled(ctx.scratch, cache, "after %s" % json.dumps(damages)[:300])
        if not os.path.isdir(os.path.join(cache, rel)) or sorted(os.listdir(os.path.join(cache, rel))) != sorted(FILES):
            raise Violation("after %s the entry %s is not exactly its three files" % (json.dumps(damages)[:300], rel))
        ctx.sample(case)
    finally:
        lab.drop(cache)


def offsets():
    return [[[["flip", f, i, 1 << (i % 8)]], [True]] for f in FILES for i in range(0, 3000)] + \
        [[[["truncate", f, i]], [True]] for f in FILES for i in range(0, 3000, 7)]


def real_setup(ctx):
    from itn.japanese.inverse_normalizer import InverseNormalizer
    from vlib.core import quiet_logging
    quiet_logging()
    base = lab.fresh(ctx.scratch, "real")
    InverseNormalizer(cache_dir=base)
    (entry,), _ = lab.entries(base)
    return base, os.path.relpath(entry, base), {}


def real(ctx, case):
    """The Japanese inverse normalizer over a damaged cache answers like the uncached one."""
    from itn.japanese.inverse_normalizer import InverseNormalizer
    base, rel, _ = ctx.state
    cache = lab.copy_cache(ctx.scratch, base)
    try:
        if apply(os.path.join(cache, rel), case, {}):
            ctx.nt(case)
        for round_ in range(2):
            try:
                n = InverseNormalizer(cache_dir=cache)
            except Exception as e:
                raise Violation("InverseNormalizer over a cache damaged by %r raised %s: %s" % (case, type(e).__name__, e))
            for t in ("二千二十五年三月五日", "百二十三円です", "午後三時半", "今日はいい天気", "三分の一"):
                a, b = n.normalize(t), ctx["jaitn"].norm(t)
                if a != b:
                    raise Violation("after %r the cached normalizer says %r for %r, uncached %r" % (case, a, t, b))
    finally:
        lab.drop(cache)


def big_setup(ctx):
    """An entry whose graphs have some hundred kilobytes and more, at an even spread of sizes."""
    import random
    r = random.Random(5)
    word = lambda: "".join(r.choice("abcdefghij") for _ in range(9))
    rules = [["num", 10, [[word(), word(), r.randint(0, 60)] for _ in range(2500)]]]
    base = lab.fresh(ctx.scratch, "big")
    built = []
    toy.build(rules, cache_dir=base, fingerprint=lab.FP, on_build=lambda: built.append(1))
    (entry,), _ = lab.entries(base)
    sizes = [os.path.getsize(os.path.join(entry, f)) for f in FILES]
    if min(sizes[:2]) < 300000:
        raise HarnessError("the large graphs are too small: %r" % sizes)
    data = [open(os.path.join(entry, f), "rb").read() for f in FILES]
    return rules, base, entry, data


class Rebuilds(Exception):
    pass


def loads(rules, base):
    """Whether a construction over base loads its entry: "loads", "rebuilds", or what went wrong.  In a process of its
    own, since native code may not survive a damaged graph."""
    def on_build():
        raise Rebuilds()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            try:
                toy.build(rules, cache_dir=base, fingerprint=lab.FP, on_build=on_build)
                said = "loads"
            except Rebuilds:
                said = "rebuilds"
            except BaseException as e:
                said = "raised %s: %s" % (type(e).__name__, e)
            os.write(w, said.encode("utf-8", "replace")[:2000])
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        said = f.read().decode("utf-8", "replace")
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return "was killed by signal %d" % os.WTERMSIG(status)
    return said or "ended without an answer"


def big(ctx, case):
    """Whatever byte of a large graph is changed, the entry is not used but built again."""
    rules, base, entry, data = ctx.state
    which, num, den, what, val = case
    path = os.path.join(entry, FILES[which])
    good = data[which]
    at = len(good) * num // den
    if what == "xor":
        bad = good[:at] + bytes([good[at] ^ val]) + good[at + 1:]
    elif what == "zero":
        bad = good[:at] + bytes(min(val, len(good) - at)) + good[at + val:]
    elif what == "swap":
        bad = good[:at] + good[at + 8:at + 16] + good[at:at + 8] + good[at + 16:]
    else:
        bad = good[:at]
    if bad == good:
        return
    ctx.nt(case)
    ctx.sample(case)
    with open(path, "wb") as f:
        f.write(bad)

    try:
        said = loads(rules, base)
        if said != "rebuilds":
            raise Violation("construction over an entry whose %s was damaged at byte %d of %d (%s): %s" % (
                FILES[which], at, len(good), what, "the damaged entry was loaded" if said == "loads" else said))
    finally:
        # the attempt to build may have set the entry aside
        os.makedirs(entry, exist_ok=True)
        for f, d in zip(FILES, data):
            with open(os.path.join(entry, f), "wb") as g:
                g.write(d)


def parts(tier):
    k = 10 if tier == "thorough" else 1
    return [
        Part("damage sequences", chk, gen=lambda: st.tuples(st.lists(damage(), min_size=1, max_size=4), st.lists(st.booleans(), min_size=1, max_size=3)),
             n=480 * k, shards=6, setup=setup),
        Part("single byte damage", chk, enum=offsets, limit=240 * k, shards=2, setup=setup),
        Part("large graphs", big, gen=lambda: st.one_of(st.tuples(st.integers(0, 1), st.integers(0, 9999), st.just(10000), st.just("xor"), st.sampled_from([1, 2, 4, 8, 16, 32, 64, 128, 255])),
                                                        st.tuples(st.integers(0, 1), st.integers(0, 9999), st.just(10000), st.sampled_from(["zero", "swap", "cut"]), st.integers(1, 64))),
             n=150 * k, setup=big_setup),
        Part("real grammar", real, gen=lambda: damage().filter(lambda d: d[0] not in ("foreign", "residue")), needs=(spec("jaitn"),), n=6 * k, setup=real_setup),
    ]

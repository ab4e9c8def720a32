"""C04: cache entries are keyed by everything that shapes the grammar."""
import inspect
import json
import os
import shutil
import sys

from hypothesis import strategies as st

from vlib import cachelab as lab
from vlib import toy
from vlib.core import HarnessError, Part, Violation, _die_with_parent, quiet_logging

PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("Cases: histories of constructions over one cache directory with varying normalizer classes and options, or prefixes, order types, "
        "configurations and fingerprints, or edits of a copy of the source tree between (or during) constructions; a dictionary keyed by the "
        "identity is the model: the grammar is built exactly on the first use of an identity, and the loaded grammar is that identity's. "
        "Non-trivial: at least two identities, and one is used again.")
ASSUMPTIONS = ["Option values are booleans; toy configurations are JSON objects.", "Source files contain no NUL bytes (texts and tables)."]

CLASSES = [("tn.chinese.normalizer", "Normalizer"), ("tn.english.normalizer", "Normalizer"), ("tn.japanese.normalizer", "Normalizer"),
           ("itn.chinese.inverse_normalizer", "InverseNormalizer"), ("itn.english.inverse_normalizer", "InverseNormalizer"),
           ("itn.japanese.inverse_normalizer", "InverseNormalizer")]


# ------------------------------------------------------------- real options
def options_setup(ctx):
    import importlib
    quiet_logging()
    out = []
    for mod, cls in CLASSES:
        c = getattr(importlib.import_module(mod), cls)
        names = [p for p in inspect.signature(c.__init__).parameters if p not in ("self", "cache_dir", "overwrite_cache")]
        defaults = {n: inspect.signature(c.__init__).parameters[n].default for n in names}
        out.append((mod, c, names, defaults))
    return out


@st.composite
def option_history(draw):
    n = draw(st.integers(3, 12))
    pool = draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 63)), min_size=2, max_size=5))
    ops = []
    for _ in range(n):
        cls, bits = draw(st.sampled_from(pool))
        if draw(st.integers(0, 3)) == 0:
            bits ^= 1 << draw(st.integers(0, 5))
        ops.append([cls, bits, draw(st.integers(0, 63)), draw(st.sampled_from([False, False, False, False, True])),
                    draw(st.sampled_from(["str", "path", "str", "dots"]))])
    return ops


def options(ctx, case):
    """Real classes with the grammar builder replaced by one that records who it was built for."""
    import pathlib
    import pynini
    cache = lab.fresh(ctx.scratch)
    count = [0]
    seen = {}
    again = False
    try:
        for i, (cls, bits, omit, over, form) in enumerate(case):
            mod, base, names, defaults = ctx.state[cls]
            full = {n: bool(bits >> k & 1) for k, n in enumerate(names)}
            kw = {n: v for k, (n, v) in enumerate(full.items()) if not (v == defaults[n] and omit >> k & 1)}
            ident = json.dumps([mod, sorted(full.items())])

            class Stub(base):
                def build_tagger_and_verbalizer(self):
                    count[0] += 1
                    self.tagger = pynini.cross("a", pynini.escape('who { value: "%s" }' % ident.encode().hex()))
                    self.verbalizer = pynini.accep("a")

                @staticmethod
                def _source_fingerprint(prefix):
                    return lab.FP
            d = {"str": cache, "path": pathlib.Path(cache), "dots": os.path.join(cache, "..", os.path.basename(cache))}[form]
            before = count[0]
            n = Stub(cache_dir=d, overwrite_cache=over, **kw)
            got = n.tag("a")
            what = "step %d of %s: %s(%s)" % (i + 1, json.dumps(case)[:400], mod, kw)
            if ident.encode().hex() not in got:
                raw = got.split('"')[1] if '"' in got else ""
                raise Violation("%s answers from the grammar built for %s" % (what, bytes.fromhex(raw).decode() if raw else got))
            built = count[0] - before
            want = 1 if over or ident not in seen else 0
            if built != want:
                raise Violation("%s built the grammar %d times, expected %d" % (what, built, want))
            again = again or ident in seen
            seen[ident] = True
        e, residue = lab.entries(cache)
        if len(e) != len(seen) or residue:
            raise Violation("%s: %d identities, entries %s" % (json.dumps(case)[:400], len(seen), e + residue))
        if again and len(seen) > 1:
            ctx.nt(case)
        ctx.sample(case)
    finally:
        lab.drop(cache)


# ----------------------------------------------------------- toy identities
KEYS = st.sampled_from(["a", "b", "flag", "x y", "名", "config", "prefix", ""])
SCALAR = st.one_of(st.booleans(), st.none(), st.integers(-3, 300).filter(lambda x: x not in (0, 1)), st.sampled_from(["", "a", "true", "名", '"', "a\\u0062", "\n"]))
JSON = st.recursive(SCALAR, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(KEYS, c, max_size=3)), max_leaves=5)
CONFIG = st.dictionaries(KEYS, JSON, max_size=3)
PREFIX = st.sampled_from(["toy", "toy2", "Toy", "a.b", "-x", "_", "..a", "zh_tn", "a" * 100, "0"])


@st.composite
def identity(draw):
    return [draw(PREFIX), draw(st.sampled_from(["tn", "itn", "en_tn"])), draw(CONFIG), draw(st.sampled_from(["f" * 64, "0" * 64, "e" * 63 + "f"]))]


@st.composite
def identity_history(draw):
    pool = draw(st.lists(identity(), min_size=1, max_size=4))
    ops = []
    for _ in range(draw(st.integers(3, 10))):
        p, o, c, f = draw(st.sampled_from(pool))
        w = draw(st.integers(0, 7))
        if w == 0:
            p = draw(PREFIX)
        elif w == 1:
            o = draw(st.sampled_from(["tn", "itn", "en_tn"]))
        elif w == 2:
            c = draw(CONFIG)
        elif w == 3:
            f = draw(st.sampled_from(["f" * 64, "0" * 64, "e" * 63 + "f"]))
        elif w == 4:
            c = dict(reversed(list(c.items())))     # order of keys means nothing
        elif w == 5 and c:
            k = sorted(c)[0]
            c = dict(c)
            c[k] = draw(JSON)
        ops.append([p, o, c, f])
    return ops


def identities(ctx, case):
    import pynini
    from tn.processor import Processor
    quiet_logging()
    cache = lab.fresh(ctx.scratch)
    count = [0]
    seen = {}
    again = False
    try:
        for i, (p, o, c, f) in enumerate(case):
            ident = json.dumps([p, o, c, f], sort_keys=True)

            class Stub(Processor):
                def __init__(self):
                    super().__init__(name="stub", ordertype=o)
                    self.build_fst(p, cache, False, c)

                def build_tagger_and_verbalizer(self):
                    count[0] += 1
                    self.tagger = pynini.cross("a", pynini.escape('who { value: "%s" }' % ident.encode().hex()))
                    self.verbalizer = pynini.accep("a")

                @staticmethod
                def _source_fingerprint(prefix):
                    return f
            before = count[0]
            got = Stub().tag("a")
            what = "step %d of %s" % (i + 1, json.dumps(case)[:600])
            if ident.encode().hex() not in got:
                raw = got.split('"')[1]
                raise Violation("%s: %s answers from the grammar of %s" % (what, ident, bytes.fromhex(raw).decode()))
            if count[0] - before != (0 if ident in seen else 1):
                raise Violation("%s: %s built %d times" % (what, ident, count[0] - before))
            again = again or ident in seen
            seen[ident] = 1
        if again and len(seen) > 1:
            ctx.nt(case)
        ctx.sample(case)
    finally:
        lab.drop(cache)


# -------------------------------------------------------------- source trees
NAME = st.sampled_from(["a", "b", "c", "ab", "_version", "test", "x_test", "test_x", "__init__", "数", "data", "__pycache__", "tests"])
SUFFIX = st.sampled_from([".py", ".py", ".tsv", ".tsv", ".far", ".txt", ".md", ".pyc", ""])
BIG = "a\tb\n" * 300000
TEXT = st.one_of(st.sampled_from(["<big>a", "<big>b", "a<big>", "", "a", "b", "a\n", "a\r\n", "a\tb\n", "数\n"]), st.text("ab\n\t", max_size=5))


@st.composite
def relpath(draw):
    top = draw(st.sampled_from(["tn", "tn", "itn", "itn", "runtime", "docs", "."]))
    dirs = draw(st.lists(NAME, max_size=2))
    return "/".join([top] + [d for d in dirs] + [draw(NAME) + draw(SUFFIX)]).replace("./", "")


def production(rel):
    parts = rel.split("/")
    return parts[0] in ("tn", "itn") and len(parts) > 1 and os.path.splitext(rel)[1] in (".py", ".tsv", ".far") \
        and "test" not in parts[1:] and "__pycache__" not in parts[1:] and parts[-1] != "_version.py"


@st.composite
def tree_history(draw):
    files = draw(st.dictionaries(relpath(), TEXT, min_size=1, max_size=6))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["write", "write", "delete", "move", "touch", "chmod", "swap", "add", "copy"]))
        ops.append([kind, draw(st.integers(0, 9)), draw(st.integers(0, 9)), draw(relpath()), draw(TEXT)])
    return [files, ops]


def put(root, rel, text):
    p = os.path.join(root, rel)
    try:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.isdir(p):
            return False
        with open(p, "wb") as f:
            f.write(text.replace("<big>", BIG).encode("utf-8"))
        return True
    except (FileExistsError, NotADirectoryError):
        return False


def trees(ctx, case):
    from tn.cache import production_source_fingerprint
    files, ops = case
    root = lab.fresh(ctx.scratch, "tree")
    try:
        for d in ("tn", "itn"):
            os.mkdir(os.path.join(root, d))
        model = {}
        for rel, text in files.items():
            if put(root, rel, text):
                model[rel] = text
        by_content, by_digest = {}, {}
        changes = 0

        def look(step):
            key = json.dumps(sorted((r, t) for r, t in model.items() if production(r)))
            fp = production_source_fingerprint(root)
            what = "sources %s after %s" % (json.dumps(files), json.dumps(ops[:step]))
            if by_content.setdefault(key, fp) != fp:
                raise Violation("%s: same rule and data files, different fingerprint" % what)
            if by_digest.setdefault(fp, key) != key:
                raise Violation("%s: different rule and data files, same fingerprint: %s and %s" % (what, by_digest[fp], key))
        look(0)
        for i, (kind, a, b, rel, text) in enumerate(ops):
            names = sorted(model)
            x = names[a % len(names)] if names else None
            y = names[b % len(names)] if names else None
            if kind == "add" or x is None:
                if rel not in model and put(root, rel, text):
                    model[rel] = text
            elif kind == "write":
                put(root, x, text)
                model[x] = text
            elif kind == "delete":
                os.unlink(os.path.join(root, x))
                del model[x]
            elif kind in ("move", "copy"):
                if rel not in model and put(root, rel, model[x]):
                    model[rel] = model[x]
                    if kind == "move":
                        os.unlink(os.path.join(root, x))
                        del model[x]
            elif kind == "swap":
                model[x], model[y] = model[y], model[x]
                put(root, x, model[x])
                put(root, y, model[y])
            elif kind == "touch":
                os.utime(os.path.join(root, x), (a * 1000, b * 1000))
            elif kind == "chmod":
                os.chmod(os.path.join(root, x), 0o600 | (a << 3 & 0o70))
            look(i + 1)
        # somewhere else, created in another order, the same tree has the same fingerprint
        other = lab.fresh(ctx.scratch, "tree")
        for rel in sorted(model, reverse=True):
            put(other, rel, model[rel])
        for d in ("tn", "itn"):
            os.makedirs(os.path.join(other, d), exist_ok=True)
        if production_source_fingerprint(other) != production_source_fingerprint(root):
            raise Violation("the fingerprint of %s depends on where or in which order it is stored" % json.dumps(model))
        lab.drop(other)
        if len(by_content) > 1:
            ctx.nt(case)
        ctx.sample(case)
    finally:
        lab.drop(root)


# ------------------------------------------------------ editing the real tree
def copy_setup(ctx):
    from vlib.core import REPO
    root = lab.fresh(ctx.scratch, "src")
    for d in ("tn", "itn"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(root, d), ignore=shutil.ignore_patterns("test", "__pycache__"))
    names = []
    for base, _, fs in os.walk(root):
        for f in fs:
            rel = os.path.relpath(os.path.join(base, f), root)
            if production(rel):
                names.append(rel)
    return root, sorted(names)


def in_copy(ctx, root, cache, during=None, real=False, texts=lab.TEXTS):
    """Constructs in a child that imports tn and itn from the copy."""
    log = lab.fresh(ctx.scratch, "log") + "/b"
    r, w = os.pipe()
    parent = os.getpid()
    pid = os.fork()
    if pid == 0:
        try:
            _die_with_parent(parent)
            os.close(r)
            sys.dont_write_bytecode = True
            for m in [m for m in sys.modules if m.split(".")[0] in ("tn", "itn")]:
                del sys.modules[m]
            sys.path.insert(0, root)

            def built():
                with open(log, "ab") as f:
                    f.write(b"B")
                if during:
                    with open(during, "ab") as f:
                        f.write(b"\n# edited\n")
            try:
                if real:
                    from itn.japanese.inverse_normalizer import InverseNormalizer
                    quiet_logging()
                    orig = InverseNormalizer.build_tagger_and_verbalizer

                    def wrapped(self):
                        built()
                        return orig(self)
                    InverseNormalizer.build_tagger_and_verbalizer = wrapped
                    n = InverseNormalizer(cache_dir=cache)
                    out = {"outs": [n.normalize(t) for t in texts]}
                else:
                    x = toy.build(lab.GRAMMAR, cache_dir=cache, on_build=built)
                    out = {"outs": [[x.tag(t), x.normalize(t)] for t in texts]}
                import tn.cache
                if not tn.cache.__file__.startswith(root):
                    os._exit(4)
            except Exception as e:
                out = {"exc": type(e).__name__, "msg": str(e)[:300]}
            os.write(w, json.dumps(out).encode())
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(3)
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    _, code = os.waitpid(pid, 0)
    if code:
        raise HarnessError("child in the copied tree ended with %d" % code)
    out = json.loads(buf)
    out["built"] = os.path.getsize(log) if os.path.exists(log) else 0
    return out


@st.composite
def edits(draw):
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        ops.append([draw(st.sampled_from(["append", "append", "newfile", "delete-new", "revert", "other", "none", "touch", "during", "shrink"])),
                    draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([".py", ".tsv", ".far"]))])
    return ops


def edited(ctx, case):
    root, names = ctx.state
    cache = lab.fresh(ctx.scratch)
    saved, new = {}, []
    seen = set()
    history = []

    def key():
        return json.dumps([sorted(new), sorted((k, len(open(os.path.join(root, k), "rb").read())) for k in saved)])
    try:
        for kind, a, suf in [["none", 0, ".py"]] + case:
            rel = names[a % len(names)]
            if kind != "revert" and kind in ("append", "shrink", "during"):
                pool = [n for n in names if n.endswith(suf)] or names
                rel = pool[a % len(pool)]
            p = os.path.join(root, rel)
            during = None
            if kind == "append" or kind == "shrink" and rel.endswith(".tsv"):
                saved.setdefault(rel, open(p, "rb").read())
                data = open(p, "rb").read()
                with open(p, "wb") as f:
                    f.write(data + b"\n" if kind == "append" or len(data) < 2 else data[:-1])
            elif kind == "newfile":
                n = os.path.join(os.path.dirname(rel), "zz_new%d%s" % (a % 3, suf))
                if n not in new:
                    with open(os.path.join(root, n), "wb") as f:
                        f.write(b"")
                    new.append(n)
            elif kind == "delete-new" and new:
                os.unlink(os.path.join(root, new.pop()))
            elif kind == "revert":
                for k, v in saved.items():
                    with open(os.path.join(root, k), "wb") as f:
                        f.write(v)
                for n in new:
                    os.unlink(os.path.join(root, n))
                saved, new = {}, []
            elif kind == "other":
                q = os.path.join(os.path.dirname(p), ["test", "__pycache__", "."][a % 3])
                os.makedirs(q, exist_ok=True)
                with open(os.path.join(q, ["x.py", "x.tsv", "x.txt"][a % 3]), "ab") as f:
                    f.write(b"# x\n")
            elif kind == "touch":
                os.utime(p, (a, a))
            elif kind == "during":
                saved.setdefault(rel, open(p, "rb").read())
                during = p if rel.endswith((".py", ".tsv")) else None
            saved = {k: v for k, v in saved.items() if open(os.path.join(root, k), "rb").read() != v or k == rel}
            state = json.dumps([sorted(new), sorted((k, open(os.path.join(root, k), "rb").read().hex()[-200:], os.path.getsize(os.path.join(root, k)))
                                                    for k, v in saved.items() if open(os.path.join(root, k), "rb").read() != v)])
            r = in_copy(ctx, root, cache, during)
            history.append([kind, rel])
            what = "edits %s" % json.dumps(history)
            if during and r["built"]:
                if "exc" not in r:
                    raise Violation("%s: a source changed while the grammar was built, but the construction succeeded" % what)
                r = in_copy(ctx, root, cache)
                state = json.dumps(["after", len(history)])
            if "exc" in r:
                raise Violation("%s: %s: %s" % (what, r["exc"], r["msg"]))
            if r["outs"] != lab.reference(lab.GRAMMAR):
                raise Violation("%s: answers %r" % (what, r["outs"]))
            if r["built"] != (0 if state in seen else 1):
                raise Violation("%s: built %d times, the sources are %s" % (what, r["built"], "as once before" if state in seen else "new"))
            if state in seen:
                ctx.label("reuse")
            seen.add(state)
        if len(seen) > 1:
            ctx.nt(case)
        ctx.sample(case)
    finally:
        for k, v in saved.items():
            with open(os.path.join(root, k), "wb") as f:
                f.write(v)
        for n in new:
            os.unlink(os.path.join(root, n))
        lab.drop(cache)


def rule_data(ctx, case):
    """The Japanese inverse normalizer answers from its edited whitelist, and from the old one after the edit is undone."""
    root, names = ctx.state
    cache = lab.fresh(ctx.scratch)
    p = os.path.join(root, "itn/japanese/data/default/whitelist.tsv")
    with open(p, "rb") as f:
        orig = f.read()
    word = "アイウエ" + case
    try:
        a = in_copy(ctx, root, cache, real=True, texts=[word])
        with open(p, "wb") as f:
            f.write(("%s\tqqq\n" % word).encode("utf-8") + orig)
        b = in_copy(ctx, root, cache, real=True, texts=[word])
        with open(p, "wb") as f:
            f.write(orig)
        c = in_copy(ctx, root, cache, real=True, texts=[word])
        if [a.get("outs"), b.get("outs"), c.get("outs")] != [[word], ["qqq"], [word]] or [a["built"], b["built"], c["built"]] != [1, 1, 0]:
            raise Violation("whitelist entry %s added and removed: answers %s" % (word, json.dumps([a, b, c], ensure_ascii=False)))
        ctx.nt(case)
    finally:
        with open(p, "wb") as f:
            f.write(orig)
        lab.drop(cache)


def parts(tier):
    k = 12 if tier == "thorough" else 1
    return [
        Part("normalizer options", options, gen=option_history, n=160 * k, shards=3, setup=options_setup),
        Part("toy identities", identities, gen=identity_history, n=160 * k, shards=2),
        Part("source trees", trees, gen=tree_history, n=1600 * k, shards=3),
        Part("edited sources", edited, gen=edits, n=50 * k, shards=4, setup=copy_setup),
        Part("edited rule data", rule_data, gen=lambda: st.text("オカキ", min_size=1, max_size=2), n=2 * k, setup=copy_setup),
    ]

"""L02: command-line options reach the normalizer exactly as given."""
import contextlib
import importlib
import inspect
import io
import json
import sys

from hypothesis import strategies as st

from vlib.core import Part, Violation

PROPERTY = "L02"
LEVEL = "exploration"
RULE = ("Cases: argument vectors over both commands, the three languages and all options in every spelling, in random order and with repetitions, "
        "and vectors broken in one place; the six normalizer classes are replaced by recorders of their arguments and compared with an "
        "independent reading of the vector. Non-trivial: at least two options, or a broken vector.")
ASSUMPTIONS = ["Abbreviated option names are not explored."]

# documented options and defaults (README, --help)
OPTIONS = {
    ("tn", "zh"): {"remove_interjections": True, "remove_erhua": True, "traditional_to_simple": True, "remove_puncts": False, "full_to_half": True,
                   "tag_oov": False},
    ("tn", "ja"): {"transliterate": False, "remove_interjections": False, "remove_puncts": False, "full_to_half": True, "tag_oov": False},
    ("tn", "en"): {},
    ("itn", "zh"): {"enable_standalone_number": True, "enable_0_to_9": False, "enable_million": False, "remove_interjections": True},
    ("itn", "ja"): {"enable_standalone_number": True, "enable_0_to_9": False, "enable_million": False, "full_to_half": False},
    ("itn", "en"): {},
}
CLASSES = {("tn", "zh"): ("tn.chinese.normalizer", "Normalizer"), ("tn", "en"): ("tn.english.normalizer", "Normalizer"),
           ("tn", "ja"): ("tn.japanese.normalizer", "Normalizer"), ("itn", "zh"): ("itn.chinese.inverse_normalizer", "InverseNormalizer"),
           ("itn", "en"): ("itn.english.inverse_normalizer", "InverseNormalizer"), ("itn", "ja"): ("itn.japanese.inverse_normalizer", "InverseNormalizer")}
ALL = sorted({o for d in OPTIONS.values() for o in d})
BOOLS = {"True": True, "true": True, "TRUE": True, "False": False, "false": False, "FALSE": False}


def hy(name, hyphen):
    return name.replace("_", "-") if hyphen else name


@st.composite
def vectors(draw):
    d = draw(st.sampled_from(["tn", "itn"]))
    lang = draw(st.sampled_from(["zh", "ja", "en", "zh", "ja"]))
    groups, broken = [], None
    names = list(OPTIONS[d, lang])
    k = draw(st.integers(0, 6)) if names else 0
    for _ in range(k):
        o = draw(st.sampled_from(names))
        form = draw(st.sampled_from(["on", "no", "val", "eq"]))
        h = draw(st.booleans())
        v = draw(st.sampled_from(sorted(BOOLS)))
        groups.append({"on": ["--" + hy(o, h)], "no": ["--no-" + hy(o, h)], "val": ["--" + hy(o, h), v], "eq": ["--%s=%s" % (hy(o, h), v)]}[form])
    if draw(st.booleans()):
        groups.append(draw(st.sampled_from([["--cache_dir", "some/dir"], ["--cache-dir=/x y"], ["--cache-dir", "~"], ["--cache_dir="]])))
    if draw(st.integers(0, 2)) == 0:
        groups.append([draw(st.sampled_from(["--overwrite_cache", "--overwrite-cache"]))])
    text = draw(st.sampled_from([["--text", "abc"], ["--text=--language=en"], ["--text="], ["--text=-5度"], ["--text", "zh"], ["--text=--no-tag-oov"], None,
                                 ["--file", "in.txt"]]))
    if text:
        groups.append(text)
    langs = [["--language", lang], ["--language=" + lang]]
    if lang != "zh" or draw(st.booleans()):
        groups.append(draw(st.sampled_from(langs)))
    groups = draw(st.permutations(groups))
    if draw(st.integers(0, 9)) == 0:        # the last of several languages counts
        groups = [["--language", draw(st.sampled_from(["zh", "en", "ja"]))]] + list(groups)
        if lang == "zh" and not any(g[0].startswith("--language") for g in groups[1:]):
            groups.append(["--language=zh"])
    bad = draw(st.sampled_from([None, None, "foreign", "value", "language", "both", "unknown", "positional", "missing", "novalue", "twice"]))
    at = draw(st.integers(0, len(groups)))
    if bad == "foreign":
        others = [o for o in ALL if o not in names]
        o = draw(st.sampled_from(others))
        groups.insert(at, draw(st.sampled_from([["--" + hy(o, True)], ["--" + o], ["--no-" + o], ["--%s=True" % o]])))
    elif bad == "value":
        if names:
            o = draw(st.sampled_from(names))
            v = draw(st.sampled_from(["yes", "1", "0", "on", "off", "T", "no", "none", "tru", "Falsee", " True", "None"]))
            groups.insert(at, ["--%s=%s" % (hy(o, draw(st.booleans())), v)])
        else:
            bad = None
    elif bad == "language":
        groups.append(["--language", draw(st.sampled_from(["fr", "", "ZH", "zh_CN", "english", "all", "jp", "cn", "zh "]))])
    elif bad == "both":
        groups = [g for g in groups if g[0].split("=")[0] not in ("--text", "--file")]
        x = [["--text", "a"], ["--file", "b"]]
        groups.insert(draw(st.integers(0, len(groups))), x[0])
        groups.insert(draw(st.integers(0, len(groups))), x[1])
    elif bad == "unknown":
        groups.insert(at, [draw(st.sampled_from(["--frobnicate", "--no-language", "--no-text", "-x", "--no-overwrite-cache", "--remove_everything", "--nbest=2"]))])
    elif bad == "positional":
        groups.insert(0, ["hello"])
    elif bad == "missing":
        groups.append([draw(st.sampled_from(["--text", "--file", "--language", "--cache_dir"]))])
        if any(g[0].split("=")[0] in ("--text", "--file") for g in groups[:-1]):
            groups[-1] = ["--language"]
    elif bad == "novalue":
        if names:
            o = draw(st.sampled_from(names))
            groups.insert(at, ["--no-%s=False" % hy(o, draw(st.booleans()))])
        else:
            bad = None
    elif bad == "twice":
        bad = None
        if names:
            o = draw(st.sampled_from(names))
            groups.append(["--" + o])
            groups.append(["--no-" + hy(o, True)])
    return [d, [a for g in groups for a in g], bad]


def reading(direction, argv):
    """An independent reading of a well-formed vector -> language, options, cache directory, overwrite, input."""
    lang, opts, cache, over, inp = "zh", {}, None, False, None
    i = 0
    while i < len(argv):
        a = argv[i]
        i += 1
        name, eq, val = a.partition("=")
        if name in ("--language", "--text", "--file", "--cache_dir", "--cache-dir"):
            if not eq:
                val = argv[i]
                i += 1
            if name == "--language":
                lang = val
            elif name in ("--text", "--file"):
                inp = (name[2:], val)
            else:
                cache = val
        elif name in ("--overwrite_cache", "--overwrite-cache"):
            over = True
        elif name.startswith("--no-"):
            opts[name[5:].replace("-", "_")] = False
        else:
            o = name[2:].replace("-", "_")
            if eq:
                opts[o] = BOOLS[val]
            elif i < len(argv) and argv[i] in BOOLS:
                opts[o] = BOOLS[argv[i]]
                i += 1
            else:
                opts[o] = True
    return lang, opts, cache, over, inp


@contextlib.contextmanager
def recorders():
    made, saved = [], []
    for key, (mod, name) in CLASSES.items():
        m = importlib.import_module(mod)
        cls = getattr(m, name)
        saved.append((m, name, cls))

        class Fake:
            real, which = cls, key

            def __init__(self, *a, **k):
                bound = inspect.signature(self.real.__init__).bind(self, *a, **k)
                bound.apply_defaults()
                made.append((self.which, {n: v for n, v in bound.arguments.items() if n != "self"}))
                self.texts = []

            def tag(self, text):
                self.texts.append(text)
                return "t"

            def verbalize(self, tagged):
                return "v"
        setattr(m, name, Fake)
    try:
        yield made
    finally:
        for m, name, cls in saved:
            setattr(m, name, cls)


def call(direction, argv, through_main):
    """-> exit code (None when it returned), recorded constructions, stdout, stderr"""
    from tn import cli
    out, err = io.StringIO(), io.StringIO()
    stdin, old_argv = sys.stdin, sys.argv
    code = None
    with recorders() as made, contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            sys.stdin = io.StringIO("")
            if through_main:
                sys.argv = [direction] + list(argv)
                importlib.import_module(direction + ".main").main()
            else:
                cli.run(direction, list(argv))
        except SystemExit as e:
            code = e.code if e.code is not None else 0
        finally:
            sys.stdin, sys.argv = stdin, old_argv
    return code, made, out.getvalue(), err.getvalue()


def chk(ctx, case):
    direction, argv, bad = case
    missing_file = "--file" in argv
    code, made, out, err = call(direction, argv, len(argv) % 2 == 0)
    what = "%s %s" % (direction, json.dumps(argv, ensure_ascii=False))
    if bad:
        if code in (None, 0):
            raise Violation("%s (%s) was accepted" % (what, bad))
        if made:
            raise Violation("%s (%s) was rejected after a grammar was constructed" % (what, bad))
        if "usage" not in err.lower() or out:
            raise Violation("%s (%s): exit %r, but no usage error: %r" % (what, bad, code, err[-200:]))
        ctx.nt(case)
        ctx.label(bad)
        return
    lang, opts, cache, over, inp = reading(direction, argv)
    if code is not None and not missing_file:
        raise Violation("%s was rejected: %s" % (what, err[-300:]))
    want = dict(OPTIONS[direction, lang], cache_dir=cache, overwrite_cache=over)
    want.update(opts)
    if len(made) != 1:
        raise Violation("%s constructed %d normalizers" % (what, len(made)))
    which, got = made[0]
    if which != (direction, lang):
        raise Violation("%s constructed the normalizer of %s %s" % (what, *which))
    if set(got) != set(want) or any(got[k] is not want[k] if isinstance(want[k], bool) or want[k] is None else got[k] != want[k] for k in want):
        diff = {k: (got.get(k, "absent"), want.get(k, "absent")) for k in set(got) | set(want) if got.get(k, "absent") != want.get(k, "absent")}
        raise Violation("%s: (got, given) differ: %s" % (what, diff))
    if inp and inp[0] == "text" and out != "t\nv\n":
        raise Violation("%s printed %r" % (what, out))
    if len(opts) >= 2:
        ctx.nt(case)
    ctx.label("%s %s" % (direction, lang))
    ctx.sample(case)


def helps():
    return [[d, lang, h] for d, lang in OPTIONS for h in ("--help", "-h")]


def help_(ctx, case):
    """--help names exactly the options of that pipeline, and exits without constructing anything."""
    import re
    d, lang, h = case
    code, made, out, err = call(d, ["--language", lang, h], True)
    shown = {x.replace("-", "_") for x in re.findall(r"--([a-z0-9_-]+)", out)}
    want = set(OPTIONS[d, lang]) | {"text", "file", "cache_dir", "overwrite_cache", "language", "help"}
    extra = {x for x in shown - want if x in ALL}
    if code != 0 or made or want - shown or extra:
        raise Violation("%s %s: exit %r, missing %s, foreign %s" % (d, case, code, sorted(want - shown), sorted(extra)))
    ctx.nt(case)


def parts(tier):
    k = 20 if tier == "thorough" else 1
    return [Part("argument vectors", chk, gen=vectors, n=6000 * k, shards=6), Part("help", help_, enum=helps)]

"""R02: the C++ runtime normalizes as Python does, through its C interface."""
import os

from hypothesis import strategies as st

from vlib import cpp
from vlib.core import Part, Violation, spec
from vlib.gens import ALL_KEYS, pipeline_text

PROPERTY = "R02"
LEVEL = "exploration"
RULE = ("Cases: histories of calls on the C interface (create for a language and direction with the files in any directory, tag, verbalize, normalize, missing arguments and files, destroy) with "
        "texts in the vocabulary of each pipeline; and UTF-8 strings for the string helpers. The C++ runtime runs under the address and undefined-behaviour "
        "sanitizers; the transducers behind it are played by the Python pipelines. Every call must ask the right transducer for the text Python would, return "
        "what Python returns, and never touch memory it must not. Non-trivial: a history with a normalized text whose output differs from it; a string with "
        "characters of two lengths.")
ASSUMPTIONS = ["OpenFst is replaced by a stand-in that asks the Python pipeline for the best output, so OpenFst's own composition is not part of the check."]

SPECS = {k: spec(k) for k in ALL_KEYS}
# directories the files lie in: the file name names the pipeline, not the directory
DIRS = [".", "zh_tn_models", "en_tn_", "my_zh_itn_files", "ja_itn_tagger.fst.d", "en_itn_a/zh_tn_b", "en_itn"]
WS = " \n\r\t\f\v"


def files(ctx):
    rt = cpp.runtime(ctx)
    rt.dir = ctx.scratch
    for d in DIRS:
        os.makedirs(os.path.join(ctx.scratch, d), exist_ok=True)
        for p in cpp.PREFIX.values():
            for f in ("tagger.fst", "verbalizer.fst"):
                open(os.path.join(ctx.scratch, d, p + f), "w").close()
    return rt


def fail(history, why):
    raise Violation("C interface, calls %r: %s" % (history, why))


def chk_calls(ctx, case):
    keys, ops = case
    rt = ctx.state
    key, paths, done, changed = None, None, [], False
    rt.call("C")
    for op in ops:
        done.append(op)
        if op[0] == "open":
            k = keys[op[1] % len(keys)]
            paths = [os.path.join(rt.dir, DIRS[op[3]], cpp.PREFIX[k] + f) for f in ("tagger.fst", "verbalizer.fst")]
            args = [cpp.hx(p) for p in paths]
            if op[2]:
                args[op[2] - 1] = "-"
            r = rt.call("O", *args)
            key = None if op[2] else k
            if r != ("R", ["1" if key else "0"]):
                fail(done, "create gives %r" % (r,))
            continue
        if op[0] == "close":
            rt.call("C")
            key = None
            continue
        what, text = op
        if text is not None and "\0" in text:
            text = text.replace("\0", "")
        cmd = {"tag": "T", "verbalize": "V", "normalize": "N"}[what]
        if key is None or text is None:
            r = rt.call(cmd, "-" if text is None else cpp.hx(text))
            if r != ("R", ["-"]):
                fail(done, "%s without a processor or text gives %r" % (what, r))
            continue
        p = ctx.pipe(SPECS[key])
        tagged = p.tag(text) if text else ""
        out = p.verbalize(tagged) if text else ""
        tagger, verbalizer = paths
        reordered = p.obj.token_parser().reorder(tagged) if tagged else None
        rt.answer = lambda path, t: tagged if path == tagger else out
        want_asked, want, arg = [], out, text
        if what in ("tag", "normalize") and text:
            want_asked.append((tagger, text.encode()))
        if what in ("verbalize", "normalize") and tagged:
            want_asked.append((verbalizer, reordered.encode()))
        if what == "tag":
            want = tagged
        if what == "verbalize":
            arg = tagged
        r = rt.call(cmd, cpp.hx(arg))
        if rt.asked != want_asked:
            fail(done, "%s(%r) applied %r, expected %r" % (what, arg, rt.asked, want_asked))
        if r[0] != "R" or r[1][0] == "-" or cpp.un(r[1][0]) != want.replace("\0", "").encode():
            fail(done, "%s(%r) gives %r, expected %r" % (what, arg, r[1][0] if r[0] == "E" or r[1][0] == "-" else cpp.un(r[1][0]), want))
        changed = changed or (what != "tag" and out != text)
    if changed:
        ctx.nt(str(case))
    ctx.sample(done)


def chk_string(ctx, s):
    r = ctx.state.call("S", cpp.hx(s))
    if len({len(c.encode()) for c in s}) > 1:
        ctx.nt(s)
    ctx.sample(s)
    want = ["%d" % len(s)] + [cpp.hx(x) for x in (s.lstrip(WS), s.rstrip(WS), s.strip(WS))] + [cpp.hx(c) for c in s]
    if r != ("R", want):
        raise Violation("string helpers on %r: %r, expected %r" % (s, r, want))


def chk_split(ctx, case):
    ps, d = case
    s = d.join(ps)
    r = ctx.state.call("D", cpp.hx(s), cpp.hx(d))
    if len(ps) > 1:
        ctx.nt(str(case))
    if r != ("R", [cpp.hx(x) for x in s.split(d)]):
        raise Violation("Split(%r, %r) gives %r, expected %r" % (s, d, r, s.split(d)))


def parts(tier):
    k = 10 if tier == "thorough" else 1
    text = lambda keys: st.one_of([pipeline_text(x) for x in keys]).filter(lambda s: "\0" not in s)

    def history(keys):
        call = st.tuples(st.sampled_from(["normalize", "normalize", "tag", "verbalize"]), st.one_of(*[text(keys)] * 4, st.none(), st.just("")))
        op = st.one_of(call, call, call, call, st.tuples(st.just("open"), st.integers(0, 5), st.sampled_from([0, 0, 0, 1, 2]), st.integers(0, len(DIRS) - 1)), st.just(("close",)))
        first = st.tuples(st.just("open"), st.integers(0, 5), st.just(0), st.integers(0, len(DIRS) - 1))
        return st.tuples(st.just(list(keys)), st.tuples(first, st.lists(op, min_size=1, max_size=8)).map(lambda t: [t[0]] + t[1]))
    ps = []
    for keys in (("zhtn", "jatn", "jaitn"), ("enitn",), ("zhitn",), ("entn",)):
        ps.append(Part("calls " + " ".join(keys), chk_calls, gen=lambda keys=keys: history(keys), needs=tuple(SPECS[x] for x in keys),
                       n=(600 if len(keys) > 1 else 250) * k, setup=files))
    chars = st.one_of(st.text(max_size=12), st.text("a é零😀\u3000 \t\n\v\f\r\x7f\u00ff\u0800\uffff\U0010ffff", max_size=12)).filter(
        lambda s: s.encode("utf-8", "ignore").decode() == s)
    ps.append(Part("strings", chk_string, gen=lambda: chars, n=2500 * k, setup=cpp.runtime))
    ps.append(Part("split", chk_split, gen=lambda: st.tuples(st.lists(chars, min_size=1, max_size=5), st.one_of(st.sampled_from([",", " ", "零", "::", "aa"]), chars.filter(len))), n=1000 * k,
                   setup=cpp.runtime))
    return ps

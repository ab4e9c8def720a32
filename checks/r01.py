"""R01: the C++ runtime parses and reorders tokens like Python."""
from hypothesis import strategies as st

from vlib import cpp, wire
from vlib.core import Part, Violation, spec
from vlib.gens import ALL_KEYS, pipeline_text

PROPERTY = "R01"
LEVEL = "exploration"
RULE = ("Cases: texts in the vocabulary of each pipeline, tagged by the real tagger, and generated token streams (any fields of the schema in any order, further "
        "fields, preserve_order, values with quotes, backslashes and any characters, runs of spaces, and damaged streams), given to the C++ token parser (built "
        "from runtime/ with the address and undefined-behaviour sanitizers) and to the pipeline's own Python parser. Both must give the same stream or both reject it. "
        "Non-trivial: the stream has a token with two fields, or is rejected.")
ASSUMPTIONS = ["OpenFst and glog headers are not installed: stand-ins replace them, and only the runtime's own code is compiled.",
               "Streams that no tagger writes (repeated fields, escapes of other characters than quote and backslash) are left out."]

SPECS = {k: spec(k) for k in ALL_KEYS}
NAMES = "date fraction measure money time telephone electronic cardinal char sport ordinal decimal whitelist word".split()
KEYS = ("year month day preserve_order text sign numerator denominator value units currency decimal quantity hour minute second noon zone country_code number_part "
        "username domain protocol integer_part fractional_part currency_maj era suf negative").split()


def python(ctx, key, stream):
    parser = ctx.pipe(SPECS[key]).obj.token_parser()
    try:
        return "R", parser.reorder(stream)
    except ValueError as e:
        return "E", str(e)


def same(ctx, key, stream):
    kind, out = ctx.state.call("P", str(cpp.TYPES[key]), cpp.hx(stream))
    if kind == "R":
        out = cpp.un(out[0]).decode("utf-8", "replace")
    want = python(ctx, key, stream)
    if (kind, out) != want and not (kind == want[0] == "E"):
        raise Violation("%s: the token parsers differ on %r: C++ gives %r, Python %r" % (key, stream, (kind, out), want))
    return want[0]


def chk_tagged(key):
    def check(ctx, text):
        stream = ctx.pipe(SPECS[key]).tag(text)
        if not stream:
            return
        if any(len(f) > 1 for _, f in wire.parse(stream)):
            ctx.nt(text)
        ctx.sample([text, stream])
        same(ctx, key, stream)
    return check


def chk_stream(ctx, case):
    key, tokens, spaces, cut = case
    if any(len(fs) > 1 for _, fs in tokens):
        ctx.nt(str(case))
    s = wire.write([(n, [tuple(f) for f in fs]) for n, fs in tokens])
    if spaces:
        s = " " * spaces[0] + s.replace(" } ", " " * (1 + spaces[1]) + "}" + " " * (1 + spaces[2]), 1) + " " * spaces[3]
    if cut:
        # damage: drop or insert characters
        a, n, ins = cut
        a = a % (len(s) + 1)
        s = s[:a] + ins + s[a + n:]
        if not s:
            return
        try:
            for _, fs in wire.parse(s):
                if len({k for k, _ in fs}) < len(fs):
                    return
        except wire.WireError as e:
            if "bad escape" in str(e):
                return
    if same(ctx, key, s) == "E":
        ctx.nt(str(case))
    ctx.sample([key, s])


def parts(tier):
    k = 10 if tier == "thorough" else 1
    value = st.one_of(st.sampled_from(["3", "true", "false", "十二", "$", "a.m.", "", "-"]), st.text(max_size=6).filter(lambda s: s.encode("utf-8", "ignore").decode() == s),
                      st.text('\\"{} :}a零', max_size=6))
    field = st.tuples(st.sampled_from(KEYS), value)
    token = st.tuples(st.sampled_from(NAMES + NAMES[:5] * 3), st.lists(field, min_size=1, max_size=6, unique_by=lambda f: f[0]))
    cut = st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 200), st.integers(0, 3), st.sampled_from(["", "", " ", '"', "}", "{", ":", "\\", "x", "é", "\n"])))
    sp = st.one_of(st.none(), st.tuples(*[st.integers(0, 2)] * 4))
    ps = [Part("tagged texts " + key, chk_tagged(key), gen=lambda key=key: pipeline_text(key), needs=(SPECS[key],), n=(1200 if key != "entn" else 500) * k, setup=cpp.runtime)
          for key in ALL_KEYS]
    cheap = ("zhtn", "jatn", "jaitn", "enitn", "zhitn", "entn")
    for key in cheap:
        ps.append(Part("streams " + key, chk_stream, gen=lambda key=key: st.tuples(st.just(key), st.lists(token, min_size=1, max_size=4), sp, cut), needs=(SPECS[key],),
                       n=1500 * k, setup=cpp.runtime))
    return ps

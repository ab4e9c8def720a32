"""P04: token wire format round-trips and rejects malformed streams."""
import re

from hypothesis import strategies as st

from vlib import wire
from vlib.core import Part, Violation

PROPERTY = "P04"
LEVEL = "exploration"
RULE = ("Cases: token lists (values with quotes, backslashes, braces, any Unicode) written by an independent writer; one or two "
        "random edits of a valid stream; random strings over the format's own characters. The oracle is an independent recognizer. "
        "Non-trivial: a value needs escaping, a field is reordered, or the stream is malformed.")
ASSUMPTIONS = ["A backslash before a character other than \\ and \" and any amount of white space where the format has one space are "
               "neither required to be accepted nor to be rejected."]

ORDERS = {
    "tn": {"date": ["year", "month", "day"], "fraction": ["denominator", "numerator"],
           "measure": ["denominator", "numerator", "value"], "money": ["value", "currency"],
           "time": ["noon", "hour", "minute", "second"]},
    "en_tn": {"date": ["preserve_order", "text", "day", "month", "year"],
              "money": ["integer_part", "fractional_part", "quantity", "currency_maj"]},
    "itn": {"date": ["year", "month", "day", "preserve_order"], "fraction": ["sign", "numerator", "denominator"],
            "measure": ["numerator", "denominator", "value", "units"], "money": ["currency", "value", "decimal", "quantity"],
            "time": ["hour", "minute", "second", "noon", "zone"], "telephone": ["country_code", "number_part"],
            "electronic": ["username", "domain", "protocol"]},
}
CUSTOM = {"abc": ["x", "y", "z"], "date": ["z", "x"]}

NAME = st.text("abcxyz_EOS", min_size=1, max_size=5)
VALUE = st.one_of(st.text('ab1年 "\\{}:<EOS>', max_size=6), st.text(st.characters(exclude_categories=("Cs",)), max_size=4),
                  st.sampled_from(["true", "12", "<EOS>", "\\", '"', "\\\\", '\\"', " ", "", "}", '" } x { a: "']))


@st.composite
def tokens(draw, max_tokens=4):
    out = []
    for _ in range(draw(st.integers(1, max_tokens))):
        kind = draw(st.sampled_from(["known", "known", "free"]))
        if kind == "known":
            ot = draw(st.sampled_from(["tn", "en_tn", "itn"]))
            typ = draw(st.sampled_from(sorted(ORDERS[ot])))
            keys = ORDERS[ot][typ] + ["style", "extra", "preserve_order", "kind"]
        else:
            typ = draw(NAME)
            keys = ["value", "x", "y", "z", "preserve_order", "team"]
        chosen = draw(st.lists(st.sampled_from(sorted(set(keys))), min_size=1, max_size=5, unique=True))
        out.append([typ, [[k, draw(st.sampled_from(["true", "false", "True"]) if k == "preserve_order" else VALUE)] for k in chosen]])
    return out


def reference_reorder(toks, orders):
    res = []
    for typ, fields in toks:
        d = dict(map(tuple, fields))
        if typ in orders and d.get("preserve_order") != "true":
            canon = [k for k in orders[typ] if k in d]
            keys = canon + [k for k, _ in fields if k not in orders[typ]]
        else:
            keys = [k for k, _ in fields]
        res.append([typ, [[k, d[k]] for k in keys]])
    return res


def parser(ot):
    from tn.token_parser import TokenParser
    return TokenParser(CUSTOM if ot == "custom" else ot)


def got_tokens(p):
    return [[t.name, [[k, t.members[k]] for k in t.order]] for t in p.tokens]


def roundtrip(ctx, case):
    from tn.token_parser import TokenParseError, escape_value
    toks, ot, warm = case
    stream = wire.write(toks)
    for _, fields in toks:
        for _, v in fields:
            if escape_value(v) != wire.escape(v):
                raise Violation("escape_value(%r) = %r" % (v, escape_value(v)))
    p = parser(ot)
    try:
        if warm:  # a parser may be used for many streams
            p.reorder(wire.write(warm))
            try:
                p.parse('broken { a: "')
            except TokenParseError:
                pass
        p.parse(stream)
        got = got_tokens(p)
        spans_in = [(t.start, t.end) for t in p.tokens]
        out, spans = p.reorder_with_spans(stream)
        again = p.reorder(stream)
    except Exception as e:
        raise Violation("TokenParser(%r) on %r raised %s: %s" % (ot, stream, type(e).__name__, e))
    if got != toks:
        raise Violation("TokenParser(%r).parse(%r) gives %r, written from %r" % (ot, stream, got, toks))
    pos = 0
    for (typ, fields), (a, b) in zip(toks, spans_in):
        piece = wire.write([[typ, fields]])
        if stream[a:b].strip(" ") != piece or a < pos:
            raise Violation("TokenParser(%r): token %r of %r is said to span %d..%d" % (ot, typ, stream, a, b))
        pos = b
    want = reference_reorder(toks, CUSTOM if ot == "custom" else ORDERS[ot])
    try:
        back = [[t, [list(f) for f in fs]] for t, fs in wire.parse(out)]
    except wire.WireError as e:
        raise Violation("TokenParser(%r).reorder(%r) = %r is not a token stream: %s" % (ot, stream, out, e))
    if back != want or again != out:
        raise Violation("TokenParser(%r).reorder(%r) = %r, expected %r" % (ot, stream, out, wire.write(want)))
    if len(spans) != len(toks) or any(wire.write([w]) != out[a:b] for w, (a, b) in zip(want, spans)):
        raise Violation("TokenParser(%r).reorder_with_spans(%r): spans %r do not cut %r at its tokens" % (ot, stream, spans, out))
    p2 = parser(ot)
    p2.parse(out)
    if got_tokens(p2) != want or p2.reorder(out) != out:
        raise Violation("TokenParser(%r): reordering %r again changes it" % (ot, out))
    if any(c in stream for c in "\\") or want != toks:
        ctx.nt(case)
    ctx.label("reordered" if want != toks else "order kept")
    ctx.label("escaped" if "\\" in stream else "plain")


NAME_RE = r"[A-Za-z_]+"
VAL_RE = r'"(?:[^"\\]|\\.)*"'
LENIENT = re.compile(r"\s*(?:%s\s*\{(?:\s*%s\s*:\s*%s)*\s*\}\s*)*\Z" % (NAME_RE, NAME_RE, VAL_RE), re.S)
TOKEN_RE = re.compile(r"(%s)\s*\{((?:\s*%s\s*:\s*%s)*)\s*\}" % (NAME_RE, NAME_RE, VAL_RE), re.S)
FIELD_RE = re.compile(r"(%s)\s*:\s*(%s)" % (NAME_RE, VAL_RE), re.S)


def must_reject(stream):
    """Empty, not even leniently a token stream, or a token with a repeated field."""
    if stream == "":
        return "empty"
    if not LENIENT.match(stream):
        return "syntax"
    for m in TOKEN_RE.finditer(stream):
        keys = [k for k, _ in FIELD_RE.findall(m.group(2))]
        if len(set(keys)) != len(keys):
            return "duplicate"
    return None


def strict(stream):
    try:
        toks = wire.parse(stream)
    except wire.WireError:
        return None
    if not toks or wire.write(toks) != stream or any(len({k for k, _ in fs}) != len(fs) for _, fs in toks):
        return None
    return [[t, [list(f) for f in fs]] for t, fs in toks]


def reject(ctx, case):
    from tn.token_parser import TokenParseError
    stream, ot = case
    p = parser(ot)
    why = must_reject(stream)
    ok = strict(stream)
    try:
        p.parse(stream)
        got = got_tokens(p)
    except TokenParseError as e:
        if not isinstance(e, ValueError):
            raise Violation("TokenParseError is not a ValueError")
        got = None
    except Exception as e:
        raise Violation("TokenParser.parse(%r) raised %s: %s" % (stream, type(e).__name__, e))
    if why and got is not None:
        raise Violation("TokenParser.parse(%r) accepts a malformed stream (%s) as %r" % (stream, why, got))
    if ok is not None and got != ok:
        raise Violation("TokenParser.parse(%r) gives %r for a well-formed stream of %r" % (stream, got, ok))
    try:
        r = parser(ot).reorder(stream)
    except TokenParseError:
        r = None
    except Exception as e:
        raise Violation("TokenParser.reorder(%r) raised %s: %s" % (stream, type(e).__name__, e))
    if (r is None) != (got is None):
        raise Violation("TokenParser on %r: parse %s but reorder %s" % (stream, "fails" if got is None else "works",
                                                                       "fails" if r is None else "works"))
    ctx.label("must reject: %s" % why if why else ("well-formed" if ok is not None else "either"))
    if why:
        ctx.nt(stream)


FRAG = st.sampled_from(['a', 'date', ' ', '{', '}', ' { ', ' }', ': "', '"', '" ', ':', '\\', '\\"', 'value', '1', 'x: "1" ', 'é', '<EOS>',
                        '-', '\n', '\t', 'x { a: "1" }', 'preserve_order: "true"'])


@st.composite
def mutated(draw):
    s = wire.write(draw(tokens(3)))
    for _ in range(draw(st.integers(1, 2))):
        op = draw(st.sampled_from(["cut", "del", "ins", "dup", "swap", "field"]))
        if not s:
            break
        i = draw(st.integers(0, len(s) - 1))
        if op == "cut":
            s = s[:i]
        elif op == "del":
            s = s[:i] + s[i + draw(st.integers(1, 3)):]
        elif op == "ins":
            s = s[:i] + draw(FRAG) + s[i:]
        elif op == "dup":
            j = draw(st.integers(i, len(s)))
            s = s[:j] + s[i:j] + s[j:]
        elif op == "swap":
            j = draw(st.integers(i, len(s) - 1))
            s = s[:i] + s[j] + s[i + 1:j] + s[i] + s[j + 1:] if i < j else s
        else:
            m = list(re.finditer(r'[A-Za-z_]+: "[^"\\]*"', s))
            if m:
                f = draw(st.sampled_from(m))
                s = s[:f.end()] + " " + f.group(0) + s[f.end():]
    return s


def ordertypes(ctx, case):
    from tn.token_parser import TokenParser
    try:
        TokenParser(case)
    except NotImplementedError:
        ctx.nt(case)
        return
    except Exception as e:
        raise Violation("TokenParser(%r) raised %s" % (case, type(e).__name__))
    if case not in ("tn", "itn", "en_tn"):
        raise Violation("TokenParser(%r) is accepted" % case)


def parts(tier):
    k = 40 if tier == "thorough" else 1
    ot = st.sampled_from(["tn", "itn", "en_tn", "custom"])
    return [
        Part("roundtrip", roundtrip, n=6000 * k, shards=8, gen=lambda: st.tuples(tokens(), ot, st.one_of(st.none(), tokens(2)))),
        Part("mutated", reject, n=9000 * k, shards=8, gen=lambda: st.tuples(mutated(), ot)),
        Part("random", reject, n=6000 * k, shards=4, gen=lambda: st.tuples(st.lists(FRAG, max_size=9).map("".join), ot)),
        Part("truncated", reject, n=1500 * k, shards=4,
             gen=lambda: st.tuples(tokens(2).map(wire.write), st.integers(1, 10**6), ot).map(lambda t: (t[0][:t[1] % len(t[0])], t[2]))),
        Part("ordertypes", ordertypes, enum=lambda: ["tn", "itn", "en_tn", "en_itn", "", "TN", "zh", "ja"]),
    ]

"""P07: verbalization depends on the tokens, not on how their stream is written."""
from hypothesis import strategies as st

from vlib import wire
from vlib.core import Part, Violation, spec
from vlib.gens import ALL_KEYS, FAST_KEYS, pipeline_text
from checks.p04 import ORDERS

PROPERTY = "P07"
LEVEL = "exploration"
RULE = ("Cases: a text of one of the pipelines, a permutation seed for the fields of each token of tag(text) and a choice of wider "
        "white space. Non-trivial: the rewritten stream differs from tag(text).")
ASSUMPTIONS = ["verbalize(tag(text)) and normalize(text) may resolve exact cost ties differently; membership among the n-best "
               "candidates is what is asserted, and only when fewer candidates than asked for were returned or it is found."]

PIPE_ORDERS = {"zhtn": ORDERS["tn"], "jatn": ORDERS["tn"], "entn": ORDERS["en_tn"], "zhitn": ORDERS["itn"], "enitn": ORDERS["itn"],
               "jaitn": ORDERS["itn"]}


def permute(fields, canon, picks):
    """Any order of the canonical fields; the other fields keep their relative order."""
    pool = list(fields)
    out = []
    i = 0
    while pool:
        # candidates: every canonical field, and only the first of the others
        cand = [f for f in pool if f[0] in canon] + [f for f in pool if f[0] not in canon][:1]
        f = cand[picks[i % len(picks)] % len(cand)]
        i += 1
        out.append(f)
        pool.remove(f)
    return out


def check_for(s):
    orders = PIPE_ORDERS[s[0]]

    def check(ctx, case):
        text, picks, gaps, cut = case
        p = ctx.pipe(s)
        stream = p.tag(text)
        if text == "":
            if stream != "" or p.verbalize("") != "":
                raise Violation("%s: empty text gives tag %r" % (p.name, stream))
            return
        try:
            toks = wire.parse(stream)
        except wire.WireError as e:
            raise Violation("%s.tag(%r): %s" % (p.name, text, e))
        base = p.verbalize(stream)
        pieces = []
        permuted = False
        for n, (typ, fields) in enumerate(toks):
            if typ in orders and ("preserve_order", "true") not in fields and len(fields) > 1:
                new = permute(fields, orders[typ], picks[n % len(picks):] + picks)
                permuted = permuted or new != fields
                fields = new
            sep = " " * gaps[n % len(gaps)]
            pieces.append("%s { %s%s}" % (typ, sep.join('%s: "%s" ' % (k, wire.escape(v)) for k, v in fields), sep))
        other = " " * gaps[0] + (" " + " " * gaps[-1]).join(pieces) + " " * gaps[1]
        out = p.verbalize(other)
        if out != base:
            raise Violation("%s.verbalize(%r) = %r but verbalize(%r) = %r" % (p.name, stream, base, other, out))
        if permuted:
            ctx.label("fields permuted")
            ctx.nt(other)
        elif other.strip() != stream.strip():
            ctx.nt(other)
        # two-stage agreement
        k = 12
        cands = p.norm(text, nbest=k) if len(text) <= 24 else None
        if cands is not None:
            if base in cands:
                ctx.label("candidate #%d" % min(cands.index(base), 3))
            elif len(cands) < k:
                raise Violation("%s: verbalize(tag(%r)) = %r is none of the %d candidates %r" % (p.name, text, base, len(cands), cands))
            else:
                ctx.label("candidate undecided")
    return check


def simple(s):
    """On short unambiguous texts both routes agree exactly."""
    def check(ctx, text):
        p = ctx.pipe(s)
        a, b = p.norm(text), p.verbalize(p.tag(text))
        if a != b:
            raise Violation("%s: normalize(%r) = %r, verbalize(tag()) = %r" % (p.name, text, a, b))
        if a != text:
            ctx.nt(text)
    return check


def parts(tier):
    from checks.p05 import typed_cases
    big = tier == "thorough"
    k = 15 if big else 1
    out = []
    for key in (ALL_KEYS if big else FAST_KEYS):
        s = spec(key)
        out.append(Part("stream-" + key, check_for(s), needs=(s,), n=1000 * k, shards=3 if not big else 6,
                        gen=lambda key=key: st.tuples(pipeline_text(key), st.lists(st.integers(0, 5), min_size=4, max_size=4),
                                                      st.lists(st.integers(0, 2), min_size=3, max_size=3), st.just(0))))
    for key in ("zhtn", "jatn", "zhitn", "jaitn"):
        out.append(Part("agree-" + key, simple(spec(key)), needs=(spec(key),), n=250 * k, shards=1,
                        gen=lambda key=key: typed_cases(key).map("".join)))
    return out

"""E01: English TN reads every number with its value."""
from hypothesis import strategies as st

from vlib import ennum
from vlib.core import Part, spec
from vlib.entn import context, spoken, wrong
from vlib.nums import shaped

PROPERTY = "E01"
LEVEL = "exploration"
RULE = ("Cases: integers up to 15 digits (with commas, signs, leading zeros), decimals, ordinals, fractions and mixed numbers, alone or "
        "in a sentence. An independent reader of English number words must recover the written value. Non-trivial: the number is 13 or "
        "more, or has a sign, point or slash.")
ASSUMPTIONS = ["Numbers of more than fifteen digits may be read digit by digit.",
               "Four-digit integers from 1000 to 2999 may be read as years."]


def suffix(v):
    return "th" if v // 10 % 10 == 1 else {1: "st", 2: "nd", 3: "rd"}.get(v % 10, "th")


def integers(lo=0, maxlen=15):
    free = st.integers(1, maxlen).flatmap(lambda k: st.integers(max(lo, 10 ** (k - 1) if k > 1 else lo), 10 ** k - 1))
    gaps = st.lists(st.sampled_from(["0", "0", "00", "000", "1", "7", "10", "12", "30", "99"]), min_size=1, max_size=6).map(
        lambda x: int("".join(x)[:maxlen])).filter(lambda v: v >= lo)
    roundish = st.tuples(st.integers(1, 999), st.integers(0, 12)).map(lambda x: x[0] * 10 ** x[1])
    return st.one_of(st.integers(lo, 120), st.integers(lo, 9999), free, gaps, roundish, shaped(maxlen, 3).map(lambda v: max(v, lo)))


def written(v, commas):
    return format(v, ",") if commas else str(v)


def chk_int(ctx, case):
    v, commas, neg, ci = case
    t = ("-" if neg else "") + written(v, commas)
    full, got = spoken(ctx["entn"], t, ci)
    if v > 12 or neg:
        ctx.nt(full)
    ctx.sample(full)
    ng, rest = ennum.signed(got)
    if ng != neg or not (v in ennum.values(rest) or (v >= 10 ** 15 and ennum.digits(rest) == str(v))):
        raise wrong(ctx["entn"], full, got, t)


def chk_decimal(ctx, case):
    v, frac, commas, neg, ci = case
    t = ("-" if neg else "") + written(v, commas) + "." + frac
    if v >= 100 and 7 <= len(frac) <= 11:
        return       # an area code and a telephone number, perhaps with an extension
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    ctx.sample(full)
    ng, rest = ennum.signed(got)
    a, _, b = rest.partition(" point ")
    if ng != neg or v not in ennum.values(a) or ennum.digits(b) != frac:
        raise wrong(ctx["entn"], full, got, t)


def chk_zeros(ctx, case):
    z, v, ci = case
    t = "0" * z + (str(v) if v else "")
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    w = got.split()
    ok = ennum.digits(got) == t or (ennum.digits(" ".join(w[:z])) == "0" * z and v in ennum.values(" ".join(w[z:])))
    if not ok:
        raise wrong(ctx["entn"], full, got, t)


def chk_ordinal(ctx, case):
    v, commas, ci = case
    t = written(v, commas) + suffix(v)
    full, got = spoken(ctx["entn"], t, ci)
    if v > 12:
        ctx.nt(full)
    if ennum.ordinal(got) != v:
        raise wrong(ctx["entn"], full, got, t)


def read_fraction(text):
    """All (numerator, denominator) the words denote."""
    w, out = text.split(), set()
    for k in range(1, len(w)):
        a = 1 if w[:k] == ["a"] else ennum.cardinal(w[:k])
        if a is None:
            continue
        d, many = " ".join(w[k:]), a != 1
        if d == "over one":
            out.add((a, 1))
        elif d == ("halves" if many else "half"):
            out.add((a, 2))
        elif d == ("quarters" if many else "quarter"):
            out.add((a, 4))
        elif not many:
            out.add((a, ennum.ordinal(d)))
        elif d.endswith("s"):
            out.add((a, ennum.ordinal(d[:-1])))
    return out


def read_mixed(text):
    parts = text.split(" and ")
    return {(ennum.cardinal(" and ".join(parts[:k]).split()),) + f for k in range(1, len(parts)) for f in read_fraction(" and ".join(parts[k:]))}


def chk_fraction(ctx, case):
    w, a, d, ci = case
    t = ("%d " % w if w else "") + "%d/%d" % (a, d)
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    ctx.sample(full)
    ok = ((w, a, d) in read_mixed(got)) if w else ((a, d) in read_fraction(got))
    if not ok:
        raise wrong(ctx["entn"], full, got, t)


VULGAR = {"½": (1, 2), "⅓": (1, 3), "⅔": (2, 3), "¼": (1, 4), "¾": (3, 4), "⅕": (1, 5), "⅖": (2, 5), "⅗": (3, 5), "⅘": (4, 5),
          "⅙": (1, 6), "⅚": (5, 6), "⅛": (1, 8), "⅜": (3, 8), "⅝": (5, 8), "⅞": (7, 8), "⅐": (1, 7), "⅑": (1, 9), "⅒": (1, 10)}


def chk_vulgar(ctx, case):
    w, s, ci = case
    t = ("%d " % w if w else "") + s
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    f = VULGAR[s]
    ok = ((w,) + f in read_mixed(got)) if w else f in read_fraction(got)
    if not ok:
        raise wrong(ctx["entn"], full, got, t)


def parts(tier):
    k = 10 if tier == "thorough" else 1
    n = (spec("entn"),)
    b = st.booleans()
    digs = st.one_of(*[st.text("0123456789", min_size=1, max_size=6)] * 3, st.text("0123456789", min_size=7, max_size=20))
    return [
        Part("integers", chk_int, gen=lambda: st.tuples(integers(), b, st.sampled_from([False, False, True]), context()), needs=n, n=2400 * k, shards=2),
        Part("all integers below 4000", chk_int, enum=lambda: [(v, False, False, 0) for v in range(0, 4000)], limit=None if k > 1 else 800, needs=n),
        Part("decimals", chk_decimal, gen=lambda: st.tuples(integers(0, 12), digs, b, st.sampled_from([False, False, True]), context()), needs=n, n=1500 * k, shards=2),
        Part("leading zeros", chk_zeros, gen=lambda: st.tuples(st.integers(1, 4), st.integers(0, 9999), context()), needs=n, n=300 * k),
        Part("ordinals", chk_ordinal, gen=lambda: st.tuples(integers(1, 9), b, context()), needs=n, n=800 * k),
        Part("fractions", chk_fraction, gen=lambda: st.tuples(st.one_of(st.just(0), st.integers(1, 9999)), integers(1, 6), integers(2, 4), context()), needs=n, n=1200 * k, shards=2),
        Part("vulgar fractions", chk_vulgar, gen=lambda: st.tuples(st.one_of(st.just(0), st.integers(1, 999)), st.sampled_from(sorted(VULGAR)), context()), needs=n, n=150 * k),
    ]

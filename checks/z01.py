"""Z01: Chinese TN reads every number with its value."""
import re

from hypothesis import strategies as st

from vlib import zhnum
from vlib.cjk import ZH_CONTEXTS, fold, pieces, spoken, wrong
from vlib.core import Part, spec
from vlib.nums import shaped

PROPERTY = "Z01"
LEVEL = "exploration"
RULE = ("Cases: integers of up to twelve digits, decimals, signs, percentages, service and phone numbers, dotted and hyphenated digit strings, "
        "long digit strings, alone or in a sentence. An independent reader of Chinese numerals must recover the value, or the digits in order. "
        "Non-trivial: more than two digits, or a sign, point or percent sign.")
ASSUMPTIONS = ["二 and 两 are both two, 一 and 幺 both one.", "Eleven digits are a phone number, runs of service numbers are codes, and yyyy.mm and mm.dd are dates."]

SERVICE = ("110 111 112 114 119 120 122 10086 10010 12306 12315 12345 12110 12320 12366 12333 12328 95110 95120 95188 95500 95511 95533 95555 "
           "95566 95588 95598 95599").split()
# 2008.08, 12.31 and 10.1000 are dates, also after service numbers or eleven digits
DATELIKE = re.compile(r"(?:%s|\d{11})*(?:\d{4}\.(?:0[1-9]|1[0-2])|(?:0[1-9]|1[0-2])\.(?:0?[1-9]|[12]\d|3[01]|[1-9]\d{3}))" % "|".join(SERVICE))
FULL = str.maketrans("0123456789", "０１２３４５６７８９")
CI = st.integers(0, len(ZH_CONTEXTS) - 1)


def integers():
    free = st.integers(1, 12).flatmap(lambda k: st.integers(10 ** (k - 1) if k > 1 else 0, 10 ** k - 1))
    gaps = st.lists(st.sampled_from(["0", "0", "00", "000", "1", "2", "7", "10", "12", "20", "22", "99"]), min_size=1, max_size=6).map(lambda x: int("".join(x)[:12]))
    roundish = st.tuples(st.integers(1, 9999), st.integers(0, 8)).map(lambda x: x[0] * 10 ** x[1])
    return st.one_of(st.integers(0, 130), st.integers(0, 9999), free, gaps, roundish, shaped(12))


def check_int(pipe, text, full, got, n):
    """A service number or eleven digits may be digits; everything else is the numeral of n."""
    if len(str(n)) == 11 or re.fullmatch("(%s)+" % "|".join(SERVICE), str(n)):
        if zhnum.digits(got) == str(n):
            return
        if len(str(n)) == 11:
            raise wrong(pipe, full, got, text)
    if zhnum.value(got) != n:
        raise wrong(pipe, full, got, text)


def chk_int(ctx, case):
    n, wide, ci = case
    t = str(n).translate(FULL) if wide == 7 else str(n)
    full, got = spoken(ctx["zhtn"], t, ci)
    check_int(ctx["zhtn"], t, full, got, n)
    if n > 99:
        ctx.nt(full)
    ctx.sample(full)


def chk_real(ctx, case):
    """sign, decimal, percent"""
    sign, n, frac, pct, ci = case
    t = sign + str(n) + ("." + frac if frac else "") + ("%" if pct else "")
    if not sign and not frac and not pct:
        return
    if frac and DATELIKE.fullmatch("%d.%s" % (n, frac)):
        return
    if len(frac) > 10 and DATELIKE.match("%d.%s" % (n, frac)):
        return       # a date and a telephone number of eleven digits
    full, got = spoken(ctx["zhtn"], t, ci)
    body = got
    if pct:
        if not got.startswith("百分之"):
            raise wrong(ctx["zhtn"], full, got, t)
        body = got[3:]
    r = zhnum.number(body)
    if r != (sign, n, frac):
        raise wrong(ctx["zhtn"], full, got, t)
    ctx.nt(full)
    ctx.label("%s%s%s" % (sign, "." if frac else "", "%" if pct else ""))
    ctx.sample(full)


def chk_codes(ctx, case):
    """Digit strings joined by points or hyphens are read digit by digit."""
    kind, groups, ci = case
    if kind == "ip":
        t = ".".join(groups)
        want = groups
        full, got = spoken(ctx["zhtn"], t, ci)
        if [zhnum.digits(x, one="一幺") for x in got.split("点")] != want:
            raise wrong(ctx["zhtn"], full, got, t)
    else:
        t = "-".join(groups)
        full, got = spoken(ctx["zhtn"], t, ci)
        if zhnum.digits(got) != "".join(groups):
            raise wrong(ctx["zhtn"], full, got, t)
    ctx.nt(full)
    ctx.label(kind)
    ctx.sample(full)


def codes():
    dig = lambda a, b: st.integers(a, b).flatmap(lambda k: st.text("0123456789", min_size=k, max_size=k))
    return st.one_of(
        st.tuples(st.just("ip"), st.lists(st.integers(0, 255).map(str), min_size=4, max_size=4), CI),
        st.tuples(st.just("area"), st.tuples(dig(3, 3), dig(8, 8)).map(list), CI),
        st.tuples(st.just("hyphens"), st.tuples(dig(3, 4), dig(3, 4), dig(4, 4)).map(list).filter(lambda g: not (len(g[0]) == 4 and g[0][0] != "0")), CI),
        st.tuples(st.just("mobile"), dig(9, 9).flatmap(lambda r: st.sampled_from("3456789").map(lambda c: ["1" + c + r])), CI),
        st.tuples(st.just("service"), st.sampled_from(SERVICE).map(lambda s: [s]), CI))


def chk_long(ctx, case):
    t, ci = case
    full, got = spoken(ctx["zhtn"], t, ci)
    if not pieces(t, got):
        raise wrong(ctx["zhtn"], full, got, t)
    ctx.nt(full)
    ctx.label("%d digits" % (len(t) // 5 * 5))
    ctx.sample(full)


def parts(tier):
    k = 12 if tier == "thorough" else 1
    need = (spec("zhtn"),)
    long_ = st.one_of(st.tuples(st.integers(1, 4), st.integers(0, 10 ** 6)).map(lambda x: "0" * x[0] + str(x[1])),
                      st.integers(13, 60).flatmap(lambda n: st.text("0123456789", min_size=n, max_size=n)),
                      st.integers(11, 30).flatmap(lambda n: st.sampled_from(["1", "10", "2", "100", "9"]).map(lambda a: (a + "0" * n)[:n])))
    reals = st.tuples(st.sampled_from(["", "", "-", "+", "±"]), integers().filter(lambda n: len(str(n)) <= 10),
                      st.one_of(st.just(""), *[st.text("0123456789", min_size=1, max_size=8)] * 3, st.text("0123456789", min_size=9, max_size=24)), st.booleans(), CI)
    ps = [
        Part("integers", chk_int, gen=lambda: st.tuples(integers(), st.integers(0, 7), CI), needs=need, n=6000 * k, shards=3),
        Part("signs, decimals, percentages", chk_real, gen=lambda: reals, needs=need, n=4000 * k, shards=2),
        Part("codes", chk_codes, gen=codes, needs=need, n=1600 * k, shards=1),
        Part("long digit strings", chk_long, gen=lambda: st.tuples(long_, CI), needs=need, n=1600 * k, shards=1),
    ]
    if tier == "thorough":
        ps.append(Part("all integers to 99999", chk_int, enum=lambda: [[n, 0, 0] for n in range(100000)], needs=need, shards=8))
    return ps

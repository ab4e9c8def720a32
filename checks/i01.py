"""I01: Chinese ITN writes every spoken number with its value."""
import re
from fractions import Fraction

from hypothesis import strategies as st

from vlib import written, zhnum
from vlib.cjk import ITN_CONTEXTS, spoken, wrong
from vlib.core import Part, spec
from vlib.nums import shaped

PROPERTY = "I01"
LEVEL = "exploration"
RULE = ("Cases: spoken integers below 10^16 (two as 二 or 两), colloquial forms, decimals, signs, percentages, digit-by-digit strings and repeats, and the "
        "output of Chinese TN on integers, alone or in a sentence, with two option settings; what is written, read by an independent reader, must have "
        "the spoken value. Non-trivial: the output has a digit.")
ASSUMPTIONS = ["Decimals and percentages are of numbers below a million.", "A sign or a scale word may stay in words; a part that is kept in words counts with its value.", "Digit strings have 3 to 40 digits."]

CI = st.integers(0, len(ITN_CONTEXTS) - 1)
DEFAULT = spec("zhitn")
ALL = spec("zhitn", enable_0_to_9=True, enable_million=True)


def integers(most=12):
    free = st.integers(1, most).flatmap(lambda k: st.integers(10 ** (k - 1) if k > 1 else 0, 10 ** k - 1))
    gaps = st.lists(st.sampled_from(["0", "0", "00", "000", "1", "2", "7", "10", "12", "20", "22", "99"]), min_size=1, max_size=7).map(lambda x: int("".join(x)[:most]))
    roundish = st.tuples(st.integers(1, 9999), st.integers(0, most - 4)).map(lambda x: x[0] * 10 ** x[1])
    return st.one_of(st.integers(0, 130), st.integers(0, 9999), free, gaps, roundish, shaped(most))


def say(n, two):
    """The numeral of n < 10^16."""
    hi, lo = divmod(n, 10 ** 12)
    if not hi:
        return zhnum.to_zh(lo, two)
    return zhnum.to_zh(hi, two) + "兆" + ("" if not lo else ("零" if lo < 10 ** 11 else "") + inner(lo, two))


def inner(n, two):
    t = zhnum.to_zh(n, two)
    return "一" + t if t[0] == "十" else t


def go(ctx, pipe, t, ci):
    full, got = spoken(pipe, t, ci, ITN_CONTEXTS)
    if re.search("[0-9]", got):
        ctx.nt(full)
    ctx.sample([full, got])
    return full, got


def converts(ctx, pipe, full, got, t, small):
    """Numbers beyond one digit are not just left as they were."""
    if not small and not re.search("[0-9]", got):
        raise wrong(pipe, full, got, t)


def chk_int(ctx, case):
    n, two, ci = case
    t = say(n, two)
    for s in (DEFAULT, ALL):
        pipe = ctx.pipe(s)
        full, got = go(ctx, pipe, t, ci)
        r = written.read(got)
        small = n < 10 or n >= 10 ** 8  # 六亿零五 may stay in words
        converts(ctx, pipe, full, got, t, small and s == DEFAULT)
        if r is None or r[1:] != (n, "", False) or r[0]:
            raise wrong(pipe, full, got, t)


def chk_tn(ctx, case):
    n, ci = case
    t = str(n)
    if len(t) == 11:
        return
    heard = ctx["zhtn"].norm(t)
    pipe = ctx.pipe(ALL)
    full, got = go(ctx, pipe, heard, ci)
    r = written.read(got)
    if r != ("", n, "", False) and not (heard == "".join(zhnum.DIGITS[int(c)].replace("一", "幺") for c in t) and got.replace(" ", "") == t):
        raise wrong(pipe, full, got, "%s, which Chinese TN reads from %s," % (heard, t))


def chk_real(ctx, case):
    sign, n, frac, pct, two, ci = case
    if not (sign or frac or pct):
        return
    t = zhnum.to_zh(n, two) + ("点" + "".join(zhnum.DIGITS[int(c)] for c in frac) if frac else "")
    t = ("百分之" if pct else "") + t
    t = {"": "", "-": "负", "+": "正", "±": "正负"}[sign] + t
    ctx.label("%s%s%s" % (sign, "." if frac else "", "%" if pct else ""))
    for s in (DEFAULT, ALL):
        pipe = ctx.pipe(s)
        full, got = go(ctx, pipe, t, ci)
        r = written.read(got)
        converts(ctx, pipe, full, got, t, s == DEFAULT and (n < 10 or n >= 10 ** 8) and not frac and not pct)
        if r != (sign, Fraction("%d.%s" % (n, frac or "0")), frac, pct):
            raise wrong(pipe, full, got, t)


def chk_scaled(ctx, case):
    """三点五万, 十点零五亿"""
    n, frac, scale, ci = case
    t = zhnum.to_zh(n) + "点" + "".join(zhnum.DIGITS[int(c)] for c in frac) + scale
    for s in (DEFAULT, ALL):
        pipe = ctx.pipe(s)
        full, got = go(ctx, pipe, t, ci)
        r = written.read(got)
        if r is None or r[0] or r[3] or r[1] != Fraction("%d.%s" % (n, frac)) * {"万": 10 ** 4, "亿": 10 ** 8}[scale]:
            raise wrong(pipe, full, got, t)


def chk_colloquial(ctx, case):
    """一百一 is 110, 三千五 is 3500, 一万二 is 12000."""
    d, unit, e, head, ci = case
    k = {"百": 100, "千": 1000, "万": 10000}[unit]
    t = zhnum.DIGITS[d] + unit + zhnum.DIGITS[e]
    n = d * k + e * k // 10
    if head and unit == "百":
        t = zhnum.DIGITS[head] + "千" + t
        n += head * 1000
    if head and unit == "万":
        t = zhnum.DIGITS[head] + "十" + t
        n += head * 100000
    for s in (DEFAULT, ALL):
        pipe = ctx.pipe(s)
        full, got = go(ctx, pipe, t, ci)
        r = written.read(got)
        if r != ("", n, "", False):
            raise wrong(pipe, full, got, t)


def chk_digits(ctx, case):
    ds, one, tail, ci = case
    t = "".join(one if c == "1" else zhnum.DIGITS[int(c)] for c in ds)
    want = ds
    if tail:
        t += "零一两三四五六七八九"[tail[0]] + "个" + zhnum.DIGITS[tail[1]]
        want += str(tail[1]) * tail[0]
    for s in (DEFAULT, ALL):
        pipe = ctx.pipe(s)
        full, got = go(ctx, pipe, t, ci)
        body = got.replace(" ", "")
        # a digit or two at the end may stay in words
        body = "".join(str(zhnum.D[c]) if c in zhnum.D else "1" if c == "幺" else c for c in body)
        if body != want or (s == ALL and re.search("[^0-9 ]", got)):
            raise wrong(pipe, full, got, t)


def chk_ip(ctx, case):
    groups, ci = case
    t = "点".join("".join(zhnum.DIGITS[int(c)] for c in g) for g in groups)
    for s in (DEFAULT, ALL):
        full, got = go(ctx, ctx.pipe(s), t, ci)
        if got != ".".join(groups):
            raise wrong(ctx.pipe(s), full, got, t)


def parts(tier):
    k = 12 if tier == "thorough" else 1
    need = (DEFAULT, ALL)
    frac = st.one_of(st.just(""), *[st.text("0123456789", min_size=1, max_size=6)] * 3, st.text("0123456789", min_size=7, max_size=24))
    two = st.sampled_from("二两")
    ds = st.integers(3, 40).flatmap(lambda n: st.text("0123456789", min_size=n, max_size=n))
    ps = [
        Part("integers", chk_int, gen=lambda: st.tuples(integers(), two, CI), needs=need, n=2500 * k, shards=2),
        Part("integers with 兆", chk_int, gen=lambda: st.tuples(st.tuples(st.integers(1, 9999), integers(12)).map(lambda x: x[0] * 10 ** 12 + x[1]), two, CI), needs=need, n=600 * k),
        Part("what Chinese TN says", chk_tn, gen=lambda: st.tuples(integers(), CI), needs=need + (spec("zhtn"),), n=1000 * k, shards=1),
        Part("signs, decimals, percentages", chk_real, gen=lambda: st.tuples(st.sampled_from(["", "", "-", "+", "±"]), integers(6), frac, st.booleans(), two, CI), needs=need, n=2000 * k, shards=2),
        Part("scaled decimals", chk_scaled, gen=lambda: st.tuples(st.integers(0, 99), st.text("0123456789", min_size=1, max_size=4), st.sampled_from("万亿"), CI), needs=need, n=500 * k),
        Part("colloquial", chk_colloquial, gen=lambda: st.tuples(st.integers(1, 9), st.sampled_from("百千万"), st.integers(1, 9), st.integers(0, 9), CI), needs=need, n=700 * k),
        Part("digit strings", chk_digits, gen=lambda: st.tuples(ds, st.sampled_from("一幺"), st.one_of(st.none(), st.tuples(st.integers(3, 9), st.integers(0, 9))), CI), needs=need, n=1000 * k),
        Part("dotted", chk_ip, gen=lambda: st.tuples(st.lists(st.integers(0, 255).map(str), min_size=3, max_size=4), CI), needs=need, n=500 * k),
    ]
    if tier == "thorough":
        ps.append(Part("all integers to 99999", chk_int, enum=lambda: [[n, "二两"[n % 2], 0] for n in range(100000)], needs=need, shards=8))
    return ps

"""J01: Japanese TN reads every number with its value."""
import re

from hypothesis import strategies as st

from vlib import janum
from vlib.cjk import JA_CONTEXTS, pieces, readings_ja, spoken, wrong
from vlib.core import Part, spec
from vlib.nums import shaped

PROPERTY = "J01"
LEVEL = "exploration"
RULE = ("Cases: integers up to eight digits with and without commas and in full width, longer ones, decimals, signs, percentages, fractions, IP, "
        "phone, room and No. digit strings, alone or in a sentence; an independent reader of Japanese numerals must recover the value or the digits. "
        "Non-trivial: more than two digits, or a sign, point, slash or percent sign.")
ASSUMPTIONS = ["Nine or more digits may be read digit by digit; with commas they are in the domain only as multiples of 億 plus a number below 万.",
               "yyyy.0m, 0m.yyyy and 0m.dd are dates."]

CI = st.integers(0, len(JA_CONTEXTS) - 1)
FULL = str.maketrans("0123456789.-+%/", "０１２３４５６７８９．－＋％／")
M, D, SEP = "(0?[1-9]|1[0-2])", "(0?[1-9]|[12]\\d|3[01])", "[-/.]"
DATES = re.compile("(?<!\\d)(\\d{4}{s}{m}{s}{d}|{d}{s}{m}{s}\\d{4}|\\d{4}{s}0[1-9]|0[1-9]{s}\\d{1,4})(?!\\d)".replace("{s}", SEP).replace("{m}", M).replace("{d}", D))


def integers(most=8):
    free = st.integers(1, most).flatmap(lambda k: st.integers(10 ** (k - 1) if k > 1 else 0, 10 ** k - 1))
    gaps = st.lists(st.sampled_from(["0", "0", "00", "000", "1", "2", "7", "10", "11", "12", "20", "22", "99"]), min_size=1, max_size=6).map(lambda x: int("".join(x)[:most]))
    roundish = st.tuples(st.integers(1, 999), st.integers(0, most - 3)).map(lambda x: x[0] * 10 ** x[1])
    return st.one_of(st.integers(0, 130), st.integers(0, 9999), free, gaps, roundish, shaped(most))


def go(ctx, t, ci):
    full, got = spoken(ctx["jatn"], t, ci, JA_CONTEXTS)
    ctx.sample(full)
    return full, got


def chk_int(ctx, case):
    n, style, ci = case
    t = "{:,}".format(n) if style == 1 else str(n)
    if style == 2:
        t = t.translate(FULL)
    full, got = go(ctx, t, ci)
    if n > 99:
        ctx.nt(full)
    if janum.value(got) != n and not (n >= 10 ** 8 and style != 1 and janum.digits(got) == str(n)):
        raise wrong(ctx["jatn"], full, got, t)


def chk_real(ctx, case):
    sign, n, frac, pct, style, ci = case
    t = sign + ("{:,}".format(n) if style == 1 else str(n)) + ("." + frac if frac else "") + ("%" if pct else "")
    if not (sign or frac or pct) or DATES.search(t):
        return
    if style == 2:
        t = t.translate(FULL)
    full, got = go(ctx, t, ci)
    ctx.nt(full)
    ctx.label("%s%s%s" % (sign, "." if frac else "", "%" if pct else ""))
    body = got
    if pct:
        if not got.endswith("パーセント"):
            raise wrong(ctx["jatn"], full, got, t)
        body = got[:-5]
    if janum.number(body) != (sign, n, frac):
        raise wrong(ctx["jatn"], full, got, t)


def chk_fraction(ctx, case):
    x, y, s1, s2, ci = case
    t = x[0] + str(x[1]) + ("." + x[2] if x[2] else "") + s1 + "/" + s2 + y[0] + str(y[1]) + ("." + y[2] if y[2] else "")
    if DATES.search(t):
        return
    full, got = go(ctx, t, ci)
    ctx.nt(full)
    b, _, a = got.partition("分の")
    if janum.number(a) != tuple(x) or janum.number(b) != tuple(y):
        raise wrong(ctx["jatn"], full, got, t)


def chk_codes(ctx, case):
    kind, groups, ci = case
    if kind == "ip":
        t = ".".join(groups)
        full, got = go(ctx, t, ci)
        ok = [janum.digits(x) for x in got.split("点")] == groups
    elif kind == "phone":
        t = "-".join(groups)
        full, got = go(ctx, t, ci)
        ok = [janum.digits(x) for x in got.split("の")] == groups
    elif kind == "mobile":
        t = groups[0]
        full, got = go(ctx, t, ci)
        ok = janum.digits(got) == t
    elif kind == "room":
        t = groups[0] + "号室"
        full, got = go(ctx, t, ci)
        ok = got.endswith("号室") and janum.digits(got[:-2]) == groups[0]
    else:
        t = kind + groups[0]
        full, got = go(ctx, t, ci)
        ok = got.startswith(kind) and janum.digits(got[len(kind):]) == groups[0]
    ctx.nt(full)
    ctx.label(kind)
    if not ok:
        raise wrong(ctx["jatn"], full, got, t)


def codes():
    dig = lambda a, b: st.integers(a, b).flatmap(lambda k: st.text("0123456789", min_size=k, max_size=k))
    d1 = st.sampled_from("123456789")
    area = st.tuples(d1, st.sampled_from(["", "0"])).map(lambda x: "0" + x[0] + x[1])
    return st.one_of(
        st.tuples(st.just("ip"), st.lists(st.integers(0, 255).map(str), min_size=4, max_size=4), CI),
        st.tuples(st.just("phone"), st.tuples(area, dig(3, 4), dig(4, 4)).map(list), CI),
        st.tuples(st.just("mobile"), st.tuples(area, dig(8, 8)).map(lambda x: ["".join(x)]), CI),
        st.tuples(st.just("room"), dig(2, 4).map(lambda s: [s]), CI),
        st.tuples(st.sampled_from(["No.", "番号", "番号は"]), dig(1, 7).map(lambda s: [s]), CI))


def chk_long(ctx, case):
    t, ci = case
    full, got = go(ctx, t, ci)
    ctx.nt(full)
    if not pieces(t, got.replace("ゼロ", "〇"), readings_ja):
        raise wrong(ctx["jatn"], full, got, t)


def parts(tier):
    k = 12 if tier == "thorough" else 1
    need = (spec("jatn"),)
    style = st.sampled_from([0, 0, 1, 1, 2])
    frac = st.one_of(st.just(""), *[st.text("0123456789", min_size=1, max_size=8)] * 3, st.text("0123456789", min_size=9, max_size=24))
    signs = st.sampled_from(["", "", "-", "+", "±"])
    num = st.tuples(st.sampled_from(["", "", "", "-"]), integers(6), st.sampled_from(["", "", "5", "25", "05"])).map(list)
    pos = st.tuples(st.just(""), integers(6), st.sampled_from(["", "", "5", "25", "05"])).map(list)
    oku = st.tuples(st.integers(1, 9999), st.integers(0, 9999)).map(lambda x: x[0] * 10 ** 8 + x[1])
    long_ = st.one_of(st.tuples(st.integers(1, 4), st.integers(0, 10 ** 6)).map(lambda x: "0" * x[0] + str(x[1])),
                      st.integers(9, 40).flatmap(lambda n: st.text("0123456789", min_size=n, max_size=n)),
                      st.integers(9, 30).flatmap(lambda n: st.sampled_from(["1", "10", "2", "100", "9"]).map(lambda a: (a + "0" * n)[:n])))
    ps = [
        Part("integers", chk_int, gen=lambda: st.tuples(integers(), style, CI), needs=need, n=6000 * k, shards=2),
        Part("from a hundred million", chk_int, gen=lambda: st.tuples(oku, style, CI), needs=need, n=1000 * k, shards=1),
        Part("signs, decimals, percentages", chk_real, gen=lambda: st.tuples(signs, integers(), frac, st.booleans(), style, CI), needs=need, n=4000 * k, shards=2),
        Part("fractions", chk_fraction, gen=lambda: st.tuples(num, pos, st.sampled_from(["", "", " "]), st.sampled_from(["", "", " "]), CI), needs=need, n=2000 * k, shards=1),
        Part("codes", chk_codes, gen=codes, needs=need, n=2000 * k, shards=1),
        Part("long digit strings", chk_long, gen=lambda: st.tuples(long_, CI), needs=need, n=1500 * k, shards=1),
    ]
    if tier == "thorough":
        ps.append(Part("all integers to 99999", chk_int, enum=lambda: [[n, n % 2, 0] for n in range(100000)], needs=need, shards=8))
    return ps

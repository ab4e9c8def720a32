"""I06: Japanese ITN writes spoken numbers and expressions losslessly."""
import itertools
import re

from hypothesis import strategies as st

from vlib import cjk, janum
from vlib.core import Part, Violation, spec
from vlib.nums import shaped

PROPERTY = "I06"
LEVEL = "exploration"
RULE = ("Cases: Japanese numerals to the trillions (signs, decimals, percentages, with and without 一 before 百 and 千), digit strings and IP addresses, dates and date "
        "ranges, clock times, fractions with roots, ordinals, units, amounts and arithmetic, alone or in a sentence, for each setting of the number options; the "
        "written form is predicted. Non-trivial: the output has a digit.")
ASSUMPTIONS = ["Numbers below ten stay in words outside dates, times, ordinals, fractions and arithmetic unless enable_0_to_9 is set."]

NAMES = ("enable_0_to_9", "enable_million", "enable_standalone_number")
SPECS = {o: spec("jaitn", **dict(zip(NAMES, o))) for o in itertools.product((False, True), (False, True), (True,))}
BASE = spec("jaitn", **dict(zip(NAMES, (False, False, True))))
CI = st.integers(0, len(cjk.JITN_CONTEXTS) - 1)
D = janum.DIGITS
ZERO = ["〇", "零", "ゼロ", "れい"]
SIGN = {"マイナス": "-", "プラス": "+", "プラスマイナス": "±"}


def words(n, one=0):
    """The numeral; one: say 一百 (1), 一千 (2) too. n may reach 兆."""
    if n == 0:
        return "〇"

    def sec(k):
        out = ""
        for p, u, bit in ((1000, "千", 2), (100, "百", 1), (10, "十", 0), (1, "", 0)):
            d = k // p % 10
            if d:
                out += (D[d] if d > 1 or p == 1 or one & bit else "") + u
        return out
    return "".join(sec(n // k % 10000) + u for k, u in ((10 ** 12, "兆"), (10 ** 8, "億"), (10 ** 4, "万"), (1, "")) if n // k % 10000)


def written(n, million):
    """How the number n is written."""
    if n < 10 ** 6 or (million and n < 10 ** 8):
        return str(n)
    return "".join("%d%s" % (n // k % 10000, u) for k, u in ((10 ** 12, "兆"), (10 ** 8, "億"), (10 ** 4, "万"), (1, "")) if n // k % 10000)


def run(ctx, sp, t, ci, *wants):
    full, got = cjk.spoken(ctx.pipe(sp), t, ci, cjk.JITN_CONTEXTS)
    if re.search("[0-9]", got):
        ctx.nt((sp, full))
    ctx.sample([full, got])
    if got not in wants:
        raise Violation("%s.normalize(%r): %r is written %r, expected %r" % (ctx.pipe(sp).name, full, t, got, wants[0] if len(wants) == 1 else wants))


def opts(a, b):
    return SPECS[bool(a), bool(b), True]


def chk_integer(ctx, case):
    n, sign, one, z, m, ci = case
    t = words(n, one)
    if n < 10 and not z:
        want = sign + t      # stays in words
    else:
        want = SIGN.get(sign, "") + written(n, m)
    run(ctx, opts(z, m), sign + t, ci, want)


def spell(ds, zs, i=0):
    return "".join(ZERO[zs[k % len(zs)]] if c == "0" else D[int(c)] for k, c in enumerate(ds, i))


def chk_decimal(ctx, case):
    n, frac, sign, pct, zs, z, m, ci = case
    w = ZERO[zs[0]] if n == 0 else words(n)
    run(ctx, opts(z, m), sign + w + "点" + spell(frac, zs) + ("パーセント" if pct else ""), ci, SIGN.get(sign, "") + written(n, m) + "." + frac + ("%" if pct else ""))


def chk_percent(ctx, case):
    n, sign, z, m, ci = case
    run(ctx, opts(z, m), sign + words(n) + "パーセント", ci, SIGN.get(sign, "") + written(n, m) + "%")


def chk_digits(ctx, case):
    ds, zs, z, ci = case
    run(ctx, opts(z, False), spell(ds, zs), ci, ds)


def chk_ip(ctx, case):
    gs, zs, ci = case
    run(ctx, BASE, "点".join(spell(str(g), zs) for g in gs), ci, ".".join(map(str, gs)))


def chk_date(ctx, case):
    form, y, mo, d, y2, mo2, d2, one, ci = case
    Y, M, DD = words(y, one), words(mo), words(d)
    if form == "ymd":
        t, w = Y + "年" + M + "月" + DD + "日", "%d年%d月%d日" % (y, mo, d)
    elif form == "ym":
        t, w = Y + "年" + M + "月", "%d年%d月" % (y, mo)
    elif form == "md":
        t, w = M + "月" + DD + "日", "%d月%d日" % (mo, d)
    elif form == "days":
        t, w = M + "月" + DD + "から" + words(d2) + "日", "%d月%d〜%d日" % (mo, d, d2)
    elif form == "months":
        t, w = Y + "年" + M + "から" + words(mo2) + "月", "%d年%d〜%d月" % (y, mo, mo2)
    elif form == "years":
        t, w = Y + "から" + words(y2) + "年" + M + "月", "%d〜%d年%d月" % (y, y2, mo)
    else:
        era = "RHSTM"[y % 5]
        full = dict(zip("RHSTM", ["令和", "平成", "昭和", "大正", "明治"]))[era]
        n = 1 + y % 64
        when = ["今年は", "来年は", "再来年は", "去年は", "一昨年は", "おととしは"][mo % 6]
        t, w = when + era + words(n), when + full + str(n)
    ctx.label(form)
    run(ctx, BASE, t, ci, w)


def chk_time(ctx, case):
    form, h, m, s, ci = case
    use = {"hms": "hms", "hm": "hm", "ms": "ms", "h": "h", "m": "m", "s": "s"}[form]
    vals = {"h": (h, "時"), "m": (m, "分"), "s": (s, "秒")}
    t = "".join(("零" if vals[c][0] == 0 else words(vals[c][0])) + vals[c][1] for c in use)
    w = "".join("%d%s" % vals[c] for c in use)
    ctx.label(form)
    run(ctx, BASE, t, ci, w)


def chk_fraction(ctx, case):
    a, b, sign, ra, rb, pb, ci = case
    d = words(b)
    wd = str(b)
    if pb:
        d, wd = d + "点" + D[pb], wd + ".%d" % pb
    elif rb:
        d, wd = "ルート" + d, "√" + wd
    nu, wn = words(a), str(a)
    if ra:
        nu, wn = ["ルート", "√"][ra - 1] + nu, "√" + wn
    run(ctx, BASE, sign + d + "分の" + nu, ci, SIGN.get(sign, "") + wn + "/" + wd)


def chk_ordinal(ctx, case):
    n, form, m, ci = case
    t, w = words(n), written(n, m)
    run(ctx, opts(False, m), *((("第" + t), ci, "第" + w) if form else (t + "番目", ci, w + "番目")))


UNITS = {"メートル": "m", "キロメートル": "km", "センチメートル": "cm", "センチ": "cm", "ミリメートル": "mm", "リットル": "L", "ミリリットル": "ml", "グラム": "g", "キログラム": "kg",
         "ミリグラム": "mg", "度": "℃", "平方メートル": "m²", "平方キロメートル": "km²", "立方メートル": "m³", "立方センチメートル": "cm³", "ヘルツ": "hz", "ワット": "W",
         "キロワット": "kw", "ボルト": "V|v", "アンペア": "A", "ビット": "bit", "バイト": "Byte", "メガバイト": "MB|mb", "ギガバイト": "GB|gb", "ヘクタール": "ha",
         "マイル": "mi", "ヤード": "yd", "ヘクトパスカル": "", "キロカロリー": "kcal", "デシベル": "dB", "インチ": "インチ"}
del UNITS["ヘクトパスカル"]
COUNTERS = "枚 部 台 杯 匹 本 階 個 面 名 人 歳 冊 話 泊 時間 ヶ月 週 倍 畳 回 年前 年後 年以内 世紀 円".split()
RATES = {"毎時": "/h", "毎分": "/min", "毎秒": "/s"}


def numeral(n, frac, sign, m):
    return sign + (words(n) if n or not frac else "零") + ("点" + spell(frac, [0]) if frac else ""), SIGN.get(sign, "") + written(n, m) + ("." + frac if frac else "")


def chk_measure(ctx, case):
    n, frac, sign, unit, rate, z, m, ci = case
    num, w = numeral(n, frac, sign, m)
    if n < 10 and not frac and not z:
        return
    if n >= 1000 and unit == "キロメートル" and n % 1000 == 0 and not frac:
        return       # 二千キロメートル may name the unit 千キロメートル
    t = num + unit + rate
    ctx.label("counter" if unit in COUNTERS else "unit")
    if unit in COUNTERS:
        return run(ctx, opts(z, m), num + unit, ci, w + unit)
    wants = [w + u + RATES.get(rate, "") for u in UNITS[unit].split("|")]
    run(ctx, opts(z, m), t, ci, *wants)


def chk_small(ctx, case):
    n, unit, z, ci = case
    t = words(n) + unit
    if z:
        run(ctx, opts(z, False), t, ci, *(["%d%s" % (n, u) for u in UNITS.get(unit, unit).split("|")] + (["%d%s" % (n, unit)] if n in (1, 3, 6) else [])))
    else:
        run(ctx, opts(z, False), t, ci, t, *(["%d時間" % n] if unit == "時間" else []))


MONEY = {"ドル": "$", "ポンド": "£|￡", "バーツ": "฿", "ユーロ": "€", "インドルピー": "₹", "ルーブル": "₽", "スイスフラン": "CHF", "レアル": "R$"}


def chk_money(ctx, case):
    n, frac, sign, cur, z, m, ci = case
    num, w = numeral(n, frac, sign, m)
    if n < 10 and not frac and not z:
        return
    wants = [c + w for c in MONEY[cur].split("|")]
    run(ctx, opts(z, m), num + cur, ci, *wants)


OPS = {"プラス": "+", "マイナス": "-", "カケル": "×", "ワル": "÷", "イコール": "=", "から": "~", "対": ":"}


def chk_math(ctx, case):
    first, rest, m, ci = case
    t, w = words(first), written(first, m)
    for op, n in rest:
        t, w = t + op + words(n), w + OPS[op] + written(n, m)
    run(ctx, opts(False, m), t, ci, w)


def parts(tier):
    k = 8 if tier == "thorough" else 1
    need = tuple(SPECS.values())
    B = st.booleans()
    zs = st.lists(st.integers(0, 3), min_size=1, max_size=4)
    sg = st.sampled_from(["", "", "マイナス", "プラス"])
    frac = st.one_of(*[st.text("0123456789", min_size=1, max_size=5)] * 3, st.text("0123456789", min_size=6, max_size=20))
    ofrac = st.one_of(st.just(""), frac)
    up = lambda top, lo=0: st.one_of(st.integers(lo, min(top, 99)), st.integers(lo, min(top, 9999)), st.integers(lo, top),
                                     st.builds(lambda a, p: min(max(a * 10 ** p, lo), top), st.integers(1, 999), st.integers(0, 10)),
                                     shaped(len(str(top)) - (str(top).strip("9") != "")).map(lambda v: max(v, lo)))
    one = st.integers(0, 3)
    big = up(10 ** 16 - 1)
    mid = up(10 ** 8 - 1)
    year, mon, day = st.integers(1, 9999), st.integers(1, 12), st.integers(1, 31)
    units = st.sampled_from(sorted(UNITS) + COUNTERS)

    def P(name, check, strat, n, shards=1):
        return Part(name, check, gen=lambda: strat, needs=need, n=n * k, shards=shards)
    ps = [
        P("integers", chk_integer, st.tuples(big, st.sampled_from(["", "", "マイナス", "プラス", "プラスマイナス"]), one, B, B, CI), 3000, 2),
        P("decimals", chk_decimal, st.tuples(mid, frac, sg, B, zs, B, B, CI), 1500),
        P("percentages", chk_percent, st.tuples(mid, sg, B, B, CI), 500),
        P("digit strings", chk_digits, st.tuples(st.text("0123456789", min_size=3, max_size=16), zs, B, CI), 1200),
        P("IP addresses", chk_ip, st.tuples(st.lists(st.integers(1, 255), min_size=4, max_size=4), zs, CI), 300),
        P("dates", chk_date, st.tuples(st.sampled_from(["ymd", "ym", "md", "days", "months", "years", "era"]), year, mon, day, year, mon, day, one, CI), 1800),
        P("times", chk_time, st.tuples(st.sampled_from(["hms", "hm", "ms", "h", "m", "s"]), st.integers(0, 24), st.integers(1, 59), st.integers(1, 59), CI), 1500),
        Part("every clock field", chk_time, needs=need, enum=lambda: [[f, v % 25, v, v, 0] for f in ("h", "m", "s", "hm", "ms", "hms") for v in range(1, 60)] + [["hms", 7, m, 60 - m, 0] for m in range(1, 60)]),
        Part("every date field", chk_date, needs=need, enum=lambda: [[f, 1900 + 7 * d, 1 + d % 12, d, 2000 + d, 1 + d % 5, 1 + d % 28, one, 0] for f in ("ymd", "ym", "md", "days", "months", "years", "era") for d in range(1, 32) for one in (False, True)]),
        P("fractions", chk_fraction, st.tuples(up(99999, 1), up(99999, 2), st.sampled_from(["", "", "マイナス", "プラス"]), st.sampled_from([0, 0, 1, 2]), B, st.sampled_from([0, 0, 0, 5, 9]), CI), 1000),
        P("ordinals", chk_ordinal, st.tuples(st.one_of(up(10 ** 8 - 1, 1)), B, B, CI), 700),
        P("measures", chk_measure, st.tuples(mid, ofrac, sg, units, st.sampled_from(["", "", "毎時", "毎分", "毎秒"]), B, B, CI), 2500, 2),
        P("small measures", chk_small, st.tuples(st.integers(1, 9), units, B, CI), 500),
        P("money", chk_money, st.tuples(mid, ofrac, sg, st.sampled_from(sorted(MONEY)), B, B, CI), 1200),
        P("arithmetic", chk_math, st.tuples(up(10 ** 8 - 1, 1), st.lists(st.tuples(st.sampled_from(sorted(OPS)), up(10 ** 8 - 1, 1)), min_size=1, max_size=3), B, CI), 800),
    ]
    if tier == "thorough":
        for z, m in ((False, False), (True, True)):
            ps.append(Part("every integer %d%d" % (z, m), chk_integer, enum=lambda z=z, m=m: [[n, "", n % 4, z, m, 0] for n in range(0, 120000)], needs=(opts(z, m),), shards=8))
        ps.append(Part("all times", chk_time, enum=lambda: [["hm", h, m, 1, 0] for h in range(25) for m in range(1, 60)] + [["ms", 0, m, s, 0] for m in range(1, 60) for s in range(1, 60)],
                       needs=need, shards=4))
    return ps

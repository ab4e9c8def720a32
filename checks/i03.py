"""I03: the options of Chinese and Japanese ITN change exactly what they name."""
import itertools

from hypothesis import strategies as st

from vlib import janum, zhnum
from vlib.core import Part, Violation, spec

PROPERTY = "I03"
LEVEL = "exploration"
RULE = ("Cases: sentences of words, interjections, single digits, numerals of all sizes, digit strings, measures, amounts, dates, times, fractions, percentages and "
        "full-width characters, under combinations of all options; a model predicts each piece from the options alone and the whole sentence must be "
        "the pieces joined. Plus: any text is the same with and without remove_interjections except for the interjections, and with and without "
        "enable_million if it has no 万. Non-trivial: at least two kinds of pieces, one of which depends on an option.")
ASSUMPTIONS = ["Pieces are separated by commas.", "The quick tier uses four option combinations for Chinese, thorough all sixteen; Japanese always all sixteen.",
               "Interjections are 呃 and 啊; full-width characters are the letters, digits and punctuation of vlib's own table."]

NAMES_ZH = ("enable_standalone_number", "enable_0_to_9", "enable_million", "remove_interjections")
NAMES_JA = ("enable_standalone_number", "enable_0_to_9", "enable_million", "full_to_half")
QUICK_ZH = [(True, False, False, True), (False, True, True, False), (True, False, False, False), (True, False, True, True)]
FULL = {chr(0xFF01 + i): chr(0x21 + i) for i in range(94) if chr(0x21 + i) not in "#,.[]\\"}
HAN = "我你他们们在说来去看好天气很大小学校朋友今明昨晚饭吃喝"
KANA = "わたしはがのをにでとますねよカタナ"


def specs(key, names, combos):
    return [spec(key, **dict(zip(names, c))) for c in combos]


def zh_specs(tier):
    return specs("zhitn", NAMES_ZH, list(itertools.product((True, False), repeat=4)) if tier == "thorough" else QUICK_ZH)


JA_SPECS = specs("jaitn", NAMES_JA, list(itertools.product((True, False), repeat=4)))


def written_(n, million):
    """How a bare integer below 10^8 is written: from a million 万 stays unless enable_million."""
    if n < 10 ** 6 or million:
        return str(n)
    hi, lo = divmod(n, 10 ** 4)
    return "%d万%s" % (hi, lo or "")


def dig(s):
    return "".join(zhnum.DIGITS[int(c)] for c in s)


def zh_piece(kind, a, o):
    """-> (spoken, written)"""
    stand, small, million, clean = (o[n] for n in NAMES_ZH)
    if kind == "word":
        return a, a
    if kind == "interjection":
        w, fill = a
        return fill + w + fill, w if clean else fill + w + fill
    if kind == "digit":
        t = zhnum.DIGITS[a]
        return t, str(a) if stand and small else t
    if kind == "signed digit":
        t = "负" + zhnum.DIGITS[a]
        return t, "-%d" % a if stand and small else t
    if kind == "number":
        t = zhnum.to_zh(a)
        return t, written_(a, million) if stand else t
    if kind == "signed number":
        t = "负" + zhnum.to_zh(a)
        return t, "-" + written_(a, million) if stand else t
    if kind == "digits":
        return dig(a), a
    if kind == "decimal":
        n, f = a
        return zhnum.to_zh(n) + "点" + dig(f), "%d.%s" % (n, f)
    if kind == "small measure":
        t = zhnum.DIGITS[a] + "公里"
        return t, "%dkm" % a if small else t
    if kind == "measure":
        return zhnum.to_zh(a) + "公里", "%dkm" % a
    if kind == "small money":
        t = zhnum.DIGITS[a] + "美元"
        return t, "$%d" % a if small else t
    if kind == "money":
        return zhnum.to_zh(a) + "美元", "$" + written_(a, million)
    if kind == "percent":
        return "百分之" + zhnum.to_zh(a), "%d%%" % a
    if kind == "fraction":
        return zhnum.to_zh(a[1]) + "分之" + zhnum.to_zh(a[0]), "%d/%d" % tuple(a)
    if kind == "date":
        y, m, d = a
        return dig(str(y)) + "年" + zhnum.to_zh(m) + "月" + zhnum.to_zh(d) + "日", "%d/%02d/%02d" % (y, m, d)
    if kind == "time":
        return zhnum.to_zh(a[0]) + "点" + zhnum.to_zh(a[1]) + "分", "%d:%d" % tuple(a)
    assert kind == "sum"
    return zhnum.to_zh(a[0]) + "加" + zhnum.to_zh(a[1]), "%d+%d" % tuple(a)


def ja_piece(kind, a, o):
    stand, small, million, half = (o[n] for n in NAMES_JA)
    num = janum.to_ja
    if kind == "word":
        return a, a
    if kind == "wide":
        return a, "".join(FULL.get(c, c) for c in a) if half else a
    if kind == "digit":
        t = janum.DIGITS[a]
        return t, str(a) if stand and small else t
    if kind == "number":
        t = num(a)
        return t, written_(a, million) if stand else t
    if kind == "signed number":
        t = "マイナス" + num(a)
        return t, "-" + written_(a, million) if stand else t
    if kind == "digits":
        return "".join(janum.DIGITS[int(c)] for c in a), a
    if kind == "decimal":
        n, f = a
        return num(n) + "点" + "".join(janum.DIGITS[int(c)] for c in f), "%d.%s" % (n, f)
    if kind == "small measure":
        t = janum.DIGITS[a] + "メートル"
        return t, "%dm" % a if small else t
    if kind == "measure":
        return num(a) + "メートル", "%dm" % a
    if kind == "percent":
        return num(a) + "パーセント", "%d%%" % a
    if kind == "fraction":
        return num(a[1]) + "分の" + num(a[0]), "%d/%d" % tuple(a)
    if kind == "date":
        y, m, d = a
        return num(y) + "年" + num(m) + "月" + num(d) + "日", "%d年%d月%d日" % (y, m, d)
    if kind == "time":
        return num(a[0]) + "時" + num(a[1]) + "分", "%d時%d分" % tuple(a)
    assert kind == "ordinal"
    return "第" + num(a), "第%d" % a


def tens(draw_hi=6):
    return st.one_of(st.integers(10, 99), st.integers(10, 9999), st.integers(10, 10 ** draw_hi - 1))


def pieces(ja):
    pair = st.tuples(st.integers(1, 98), st.integers(2, 99)).filter(lambda x: x[0] < x[1])
    words = st.text(KANA if ja else HAN, min_size=1, max_size=4)
    wide = st.text(sorted(FULL) + list("あア亜"), min_size=1, max_size=5)
    fill = st.sampled_from(["呃", "啊", "呃啊", "啊啊"])
    big = st.one_of(tens(), tens(8))
    out = {
        "word": words, "digit": st.integers(1 if ja else 0, 9), "number": big, "signed number": big, "decimal": st.tuples(st.integers(0, 999), st.text("0123456789", min_size=1, max_size=3)),
        "digits": st.text("0123456789", min_size=3, max_size=5), "small measure": st.integers(1, 9), "measure": tens(), "percent": st.integers(1, 99999), "fraction": pair,
        "date": st.tuples(st.integers(1000, 2999), st.integers(1, 12), st.integers(1, 31)), "time": st.tuples(st.integers(3, 23), st.integers(10, 59)),
    }
    if ja:
        out.update({"wide": wide, "ordinal": st.integers(1, 9999)})
    else:
        out.update({"interjection": st.tuples(words, fill), "signed digit": st.integers(1, 9), "small money": st.integers(1, 9), "money": big,
                    "sum": st.tuples(tens(4), tens(4))})
    return st.sampled_from(sorted(out)).flatmap(lambda k: st.tuples(st.just(k), out[k]))


OPTIONAL = {"interjection", "digit", "signed digit", "number", "signed number", "small measure", "small money", "money", "wide"}



def sentence(piece, names, needs, sep):
    def check(ctx, case):
        kinds = {k for k, _ in case}
        if len(kinds) > 1 and kinds & OPTIONAL:
            ctx.nt(case)
        for k in kinds:
            ctx.label(k)
        for s in needs:
            ps = [piece(k, a, dict(s[1])) for k, a in case]
            t, want = sep.join(p[0] for p in ps), sep.join(p[1] for p in ps)
            got = ctx.pipe(s).norm(t)
            ctx.sample([t, got])
            if got != want:
                raise Violation("%s.normalize(%r) = %r, expected %r" % (ctx.pipe(s).name, t, got, want))
    return check


def zh(*combo):
    return spec("zhitn", **dict(zip(NAMES_ZH, combo)))


def chk_interjections(ctx, t):
    """The option removes the interjections of any text and touches nothing else."""
    on, raw = ctx.pipe(zh(True, False, False, True)).norm(t), ctx.pipe(zh(True, False, False, False)).norm(t)
    if "呃" in t or "啊" in t:
        ctx.nt(t)
    ctx.sample([t, raw])
    if on != raw.replace("呃", "").replace("啊", ""):
        raise Violation("with remove_interjections %r becomes %r, without %r" % (t, on, raw))
    if raw.count("呃") != t.count("呃") or raw.count("啊") != t.count("啊"):
        raise Violation("without remove_interjections %r becomes %r" % (t, raw))


def chk_million(ctx, t):
    """enable_million changes only texts with 万."""
    if "万" in t:
        return
    a, b = ctx.pipe(zh(True, False, False, True)).norm(t), ctx.pipe(zh(True, False, True, True)).norm(t)
    if a != t:
        ctx.nt(t)
    ctx.sample([t, a])
    if a != b:
        raise Violation("%r has no 万, but enable_million turns %r into %r" % (t, a, b))


def chk_million_ja(ctx, case):
    i, t = case
    if "万" in t:
        return
    combos = [c for c in itertools.product((True, False), repeat=4) if not c[2]]
    c = combos[i % len(combos)]
    a, b = [ctx.pipe(spec("jaitn", **dict(zip(NAMES_JA, c[:2] + (m,) + c[3:])))).norm(t) for m in (False, True)]
    if a != t:
        ctx.nt([i, t])
    ctx.sample([t, a])
    if a != b:
        raise Violation("%r has no 万, but enable_million turns %r into %r (other options %r)" % (t, a, b, c))


def parts(tier):
    k = 8 if tier == "thorough" else 1
    zhs = zh_specs(tier)
    zt = st.lists(st.sampled_from(list("零一二两三四五六七八九十百千亿兆点负正半年月日号元毛角分秒个公里米千克到每百分之加减比高动京A呃啊啊，。我a ") + ["分之", "美元", "公里", "小时", "百分之", "两点", "下午"]),
                  min_size=1, max_size=14).map("".join)
    jt = st.lists(st.sampled_from(list("〇一二三四五六七八九十百千億兆点年月日時分秒円個米第番目の、。あアＡ３！") + ["マイナス", "分の", "メートル", "ドル", "パーセント"]),
                  min_size=1, max_size=14).map("".join)
    return [
        Part("Chinese sentences", sentence(zh_piece, NAMES_ZH, zhs, "，"), gen=lambda: st.lists(pieces(False), min_size=1, max_size=6), needs=zhs, n=900 * k, shards=2),
        Part("interjections in any text", chk_interjections, gen=lambda: zt, needs=zhs, n=1200 * k),
        Part("texts without 万", chk_million, gen=lambda: zt, needs=zhs, n=1200 * k),
        Part("Japanese sentences", sentence(ja_piece, NAMES_JA, JA_SPECS, "、"), gen=lambda: st.lists(pieces(True), min_size=1, max_size=6), needs=JA_SPECS, n=500 * k, shards=2),
        Part("Japanese texts without 万", chk_million_ja, gen=lambda: st.tuples(st.integers(0, 7), jt), needs=JA_SPECS, n=1200 * k),
    ]

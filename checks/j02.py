"""J02: Japanese TN reads dates, times, amounts and expressions, and its options edit only what they name."""
import itertools
import os
import re
import string

from hypothesis import strategies as st

from vlib import janum
from vlib.cjk import JA_CONTEXTS, spoken, wrong
from vlib.core import VERIF, Part, Violation, spec
from vlib.nums import shaped

PROPERTY = "J02"
LEVEL = "exploration"
RULE = ("Cases: dates, times, ranges, money, measures, rates, scores and arithmetic over every unit and currency, alone or in a sentence, read back by "
        "an independent reader of Japanese numerals; and mixed sentences under option combinations against reference edits. Non-trivial: every "
        "expression; option cases whose text is edited.")
ASSUMPTIONS = ["Years are 1000 to 9999; hours up to 24.", "Character tables are the snapshots in vlib/data.", "Rates have one operand."]

CI = st.integers(0, len(JA_CONTEXTS) - 1)
NOONS = {"am": "午前", "a.m.": "午前", "AM": "午前", "A M": "午前", "a m": "午前", "pm": "午後", "p.m.": "午後", "PM": "午後", "P M": "午後", "p m": "午後"}
CURRENCY = {"$": "ドル", "£": "ポンド", "￡": "ポンド", "¥": "円", "￥": "円", "฿": "バーツ", "€": "ユーロ", "₹": "インドルピー", "₽": "ルーブル", "CHF": "スイスフラン", "R$": "レアル",
            "A$": "豪ドル", "AED": "UAEディルハム", "ARS": "アルゼンチンペソ", "AUD": "豪ドル", "CAD$": "カナダドル", "CAD": "カナダドル", "CNY": "人民元", "EUR": "ユーロ", "GBP": "ポンド",
            "HKD": "香港ドル", "HK$": "香港ドル", "HK＄": "香港ドル", "INR": "インドルピー", "J￥": "円", "JPY￥": "円", "JPY": "円", "KRW": "ウォン", "RUB": "ロシアルーブル", "SAR": "サウジリヤル",
            "SEK": "スウェーデンクローナ", "SGD": "シンガポールドル", "THB": "タイバーツ", "TRY": "トルコリラ", "USD": "アメリカドル"}
EN = dict(x.split("=") for x in (
    "g=グラム kg=キログラム mg=ミリグラム µg=マイクログラム oz=オンス t=トン lb=ポンド cm=センチメートル m=メートル km=キロメートル dm=デシメートル mm=ミリメートル μm=マイクロメートル nm=ナノメートル ft=フィート "
    "min=分 sec=秒 s=秒 ms=ミリ秒 °C=摂氏 ℃=摂氏 °F=華氏 mm²=平方ミリメートル cm²=平方センチメートル m²=平方メートル ㎡=平方メートル km²=平方キロメートル ha=ヘクタール ml=ミリリットル L=リットル "
    "mm³=立方ミリメートル cm³=立方センチメートル gal=ガロン m³=立方メートル mol=モル μmol=マイクロモル nmol=ナノモル mmol=ミリモル cd=カンデラ Lm=ルーメン Lux=ルクス lm=ルーメン mph=マイル毎時 in=インチ "
    "mi=マイル kn=ノット °=度 Pa=パスカル N=ニュートン mmHg=水銀柱ミリメートル hPa=ヘクトパスカル MPa=メガパスカル mbar=ミリバール bar=バール J=ジュール kcal=キロカロリー cal=カロリー W=ワット "
    "kWh=キロワット時 kW=キロワット A=アンペア V=ボルト Ω=オーム Wb=ウェーバ mAh=ミリアンペアアワー Bq=ベクレル Gy=グレイ rad=ラド Sv=シーベルト rem=レム kat=カタール Np=ネーパ Hz=ヘルツ dB=デシベル "
    "hz=ヘルツ bit=ビット Byte=バイト byte=バイト MB=メガバイト KB=キロバイト GB=ギガバイト TB=テラバイト").split())
JA = "つ 枚 部 台 杯 匹 本 階 個 箇 面 名 人 歳 才 冊 話 秒 分 泊 時間 日 ヶ月 箇月 年 週 倍 番 度 畳 回 年前 年後 年以内 平方メートル 立方メートル キロ".split()
UNITS = dict(EN, **{u: u for u in JA})
OPS = {"×": "カケル", "-": "マイナス", "+": "プラス", "=": "イコール", ">": "大なり", "<": "小なり", "≥": "大なりイコール", "≤": "小なりイコール", ">=": "大なりイコール", "<=": "小なりイコール", "÷": "ワル", "~": "から"}
TEAMS = open(os.path.join(VERIF, "data", "ja_teams.txt"), encoding="utf-8").read().split("\n")[:-1]


def fin(ctx, full, got, t, ok):
    ctx.nt(full)
    ctx.sample(full)
    if not ok:
        raise wrong(ctx["jatn"], full, got, t)


def go(ctx, t, ci):
    return spoken(ctx["jatn"], t, ci, JA_CONTEXTS)


# ---------------------------------------------------------------- dates and times

ALL = ("ymd", "ymd", "dmy", "ym0", "my0", "md0")
SIMPLE = ("ym", "my", "md")


@st.composite
def dates(draw, forms=ALL):
    y = draw(st.one_of(st.integers(1000, 9999), st.integers(1900, 2100), st.sampled_from([2000, 2008, 1100, 2020, 1000, 2100])))
    return [draw(st.sampled_from(forms)), y, draw(st.integers(1, 12)), draw(st.integers(1, 31)), draw(st.sampled_from("/-.")), draw(st.booleans()), draw(st.booleans())]


def write(c):
    form, y, m, d, sep, pm, pd = c
    if form.endswith("0"):
        m, pm = (m - 1) % 9 + 1, True
    M = "%02d" % m if pm else str(m)
    D = "%02d" % d if pd else str(d)
    Y = str(y)
    ym, md = janum.to_ja(y) + "年" + janum.to_ja(m) + "月", janum.to_ja(m) + "月" + janum.to_ja(d) + "日"
    kind = form.rstrip("0")
    if kind == "ymd":
        return sep.join([Y, M, D]), janum.to_ja(y) + "年" + md
    if kind == "dmy":
        return sep.join([D, M, Y]), janum.to_ja(y) + "年" + md
    if kind == "ym":
        return sep.join([Y, M]), ym
    if kind == "my":
        return sep.join([M, Y]), ym
    return sep.join([M, D]), md


def chk_date(ctx, case):
    c, ci = case
    t, want = write(c)
    full, got = go(ctx, t, ci)
    ctx.label(c[0])
    fin(ctx, full, got, t, got == want)


def chk_date_range(ctx, case):
    a, b, sep, joiner, ci = case
    if joiner == "-" and sep == "-":
        sep = "/"
    a[4] = b[4] = sep
    ta, wa = write(a)
    tb, wb = write(b)
    t = ta + joiner + tb
    full, got = go(ctx, t, ci)
    fin(ctx, full, got, t, got == wa + "から" + wb)


@st.composite
def times(draw):
    h = draw(st.integers(0, 24))
    return [h, draw(st.one_of(st.just(0), st.integers(0, 59))), draw(st.one_of(st.none(), st.none(), st.integers(0, 59))), draw(st.booleans()),
            draw(st.sampled_from([None, None] + sorted(NOONS))), draw(st.sampled_from(["", " "])), draw(st.sampled_from([":", ":", "："]))]


def write_time(c):
    h, m, s, pad, noon, sp, colon = c
    t = ("%02d" if pad else "%d") % h + colon + "%02d" % m + (colon + "%02d" % s if s is not None else "")
    want = NOONS.get(noon, "") + janum.to_ja(h) + "時" + (janum.to_ja(m) + "分" if m else "") + (janum.to_ja(s) + "秒" if s else "")
    return t + (sp + noon if noon else ""), want


def chk_time(ctx, case):
    c, ci = case
    t, want = write_time(c)
    full, got = go(ctx, t, ci)
    fin(ctx, full, got, t, got == want)


def chk_time_range(ctx, case):
    a, b, joiner, ci = case
    ta, wa = write_time(a)
    tb, wb = write_time(b)
    t = ta + joiner + tb
    full, got = go(ctx, t, ci)
    fin(ctx, full, got, t, got == wa + "から" + wb)


def chk_hour(ctx, case):
    h, noon, ci = case
    t = "%d%s" % (h, noon)
    full, got = go(ctx, t, ci)
    fin(ctx, full, got, t, got == NOONS[noon] + janum.to_ja(h) + "時")


# ---------------------------------------------------------------- amounts

@st.composite
def numbers(draw, signs=("", "", "", "-", "+"), most=8):
    n = draw(st.one_of(st.integers(0, 99), st.integers(0, 99), st.integers(1, 9999), st.integers(1, most).flatmap(lambda k: st.integers(10 ** (k - 1), 10 ** k - 1)), shaped(most),
                       st.sampled_from([10, 11, 20, 100, 101, 110, 1000, 1001, 1010, 1100, 10000, 100000, 1000000, 10000000])))
    return [draw(st.sampled_from(signs)), n, draw(st.sampled_from(["", "", "", "5", "25", "05", "0"]))]


def w(x, comma=False):
    return x[0] + ("{:,}".format(x[1]) if comma else str(x[1])) + ("." + x[2] if x[2] else "")


def is_(got, x):
    return got is not None and janum.number(got) == tuple(x)


def chk_money(ctx, case):
    cur, sp, x, comma, ci = case
    t = cur + sp + w(x, comma)
    full, got = go(ctx, t, ci)
    name = CURRENCY[cur]
    fin(ctx, full, got, t, got.endswith(name) and is_(got[:-len(name)], x))


def measured(got, x, u):
    return got.endswith(UNITS[u]) and is_(got[:-len(UNITS[u])], x)


def chk_measure(ctx, case):
    x, u, sp, comma, per, ci = case
    t = w(x, comma) + sp + u + ("/" + per if per else "")
    full, got = go(ctx, t, ci)
    body = got
    ok = True
    if per:
        ok = got.endswith("毎" + UNITS[per])
        body = got[:-1 - len(UNITS[per])]
    fin(ctx, full, got, t, ok and measured(body, x, u))


M, D, SEP = "(0?[1-9]|1[0-2])", "(0?[1-9]|[12]\\d|3[01])", "[-/.]"
DATES = re.compile("(?<!\\d)(\\d{4}{s}{m}{s}{d}|{d}{s}{m}{s}\\d{4}|\\d{4}{s}0[1-9]|0[1-9]{s}\\d{1,4})(?!\\d)".replace("{s}", SEP).replace("{m}", M).replace("{d}", D))


def chk_range(ctx, case):
    x, y, u, inner, joiner, ci = case
    t = w(x) + (u if inner else "") + joiner + w(y) + u
    if DATES.search(w(x) + "-" + w(y)):
        return
    full, got = go(ctx, t, ci)
    a, _, b = got.partition("から")
    fin(ctx, full, got, t, (measured(a, x, u) if inner else is_(a, x)) and measured(b, y, u))


def chk_score(ctx, case):
    team, sp, a, sep, b, ci = case
    t = team + sp + "%d%s%d" % (a, sep, b)
    if sep == ":" and a <= 24 and 10 <= b <= 59:
        return
    full, got = go(ctx, t, ci)
    x, _, y = got[len(team):].partition("対")
    fin(ctx, full, got, t, got.startswith(team) and janum.value(x) == a and janum.value(y) == b)


def plain(case):
    """101-1 is a known finding: 0m-d after a digit."""
    xs = [case[0]] + [y for _, y in case[1]]
    return not any(op == "-" and re.search("[0-9]0[1-9]$", str(x[1])) for x, (op, _) in zip(xs, case[1]))


def chk_math(ctx, case):
    first, rest, sp, ci = case
    t = w(first)
    want = [first]
    names = []
    for op, y in rest:
        t += sp + op + sp + w(y)
        names.append(OPS[op])
        want.append(y)
    joined = t.replace(" ", "")
    if "." in t and any(op in "-~" for op, _ in rest):
        return
    if DATES.search(joined) or re.search(r"(?<!\d)0\d0?-?\d{3}|\d-\d+-\d", joined):  # dates and phone numbers
        return
    full, got = go(ctx, t, ci)
    num = "([〇一二三四五六七八九十百千万億点]+|(?:プラス|マイナス)[〇一二三四五六七八九十百千万億点]+)"
    m = re.fullmatch(num + "".join(n + num for n in names), got)
    fin(ctx, full, got, t, bool(m) and all(is_(g, x) for g, x in zip(m.groups(), want)))


# ---------------------------------------------------------------- options

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "data")
ROWS = lambda name: [x.rstrip("\n") for x in open(os.path.join(DATA, name), encoding="utf-8")]
CHARS = set(ROWS("kana.txt")) | set(ROWS("kanji.txt"))
PUNCTS = set(ROWS("puncts_ja.txt")) | set(string.punctuation)
HALF = dict(zip("，。．“”！＂＃％＆＇（）＊＋－／：；＜＝＞？＠＼＾＿｀｛｜｝～＄", ",..\"\"!\"#%&'()*+-/:;<=>?@\\^_`{|}~$"))
HALF.update({chr(ord(c) + 0xFEE0): c for c in string.digits + string.ascii_letters})
SPACES = set(" \t\n\r\v\f\u00a0")
OPTS = ("remove_interjections", "remove_puncts", "full_to_half", "tag_oov")


def sp_(on):
    return spec("jatn", **{o: o in on for o in OPTS})


BASE = sp_(())


def half(t):
    return "".join(HALF.get(c, c) for c in t)


def chk_options(ctx, case):
    on, text = case
    base = ctx.pipe(BASE).norm(half(text) if "full_to_half" in on else text)
    want = half(base) if "full_to_half" in on else base
    if "remove_puncts" in on:
        want = "".join(c for c in want if c not in PUNCTS)
    if "tag_oov" in on:
        ok = lambda c: c in CHARS or c in PUNCTS or c in SPACES or (c < "\x80" and c.isalnum())
        want = "".join(c if ok(c) else "<oov>%s</oov>" % c for c in want)
    got = ctx.pipe(sp_(on)).norm(text)
    if want != text:
        ctx.nt(repr(case))
    ctx.sample([on, text, got])
    if got != want:
        raise Violation("jatn with %s: normalize(%r) = %r instead of %r" % (", ".join(on) or "no options", text, got, want))


def option_texts():
    com = "わたしはこれをのむアイウカキクケ日本語人大小山川今学生"
    piece = st.one_of(st.text(com, min_size=1, max_size=4), st.text(com, min_size=1, max_size=4), st.sampled_from(sorted(CHARS)), st.sampled_from(sorted(PUNCTS)), st.sampled_from("、。！？「」『』（）・ー～："),
                      st.sampled_from("éüßЖяαΩあ한글龘𠀀😀　•们这说ｱｲヷ"), st.sampled_from(sorted(HALF)), st.sampled_from(["hello", " ", "ok", "abc"]),
                      st.sampled_from(["3", "25", "2024年", "¥5", "1/2", "3kg", "8:30", "2008-08-08", "-5%", "1.5", "3個", "５", "１／２", "２％"]))
    return st.lists(piece, min_size=1, max_size=10).map("".join).filter(lambda t: t.strip())


def parts(tier):
    k = 12 if tier == "thorough" else 1
    need = (spec("jatn"),)
    uns = ("",)
    unit = st.sampled_from(sorted(UNITS))
    per = st.sampled_from(["m", "s", "分", "日", "kg", "秒", "個", "人", "回", "m²", "年"])
    combos = [c for n in range(len(OPTS) + 1) for c in itertools.combinations(OPTS, n)]
    groups = [combos[i::4] for i in range(4)]
    ps = [
        Part("dates", chk_date, gen=lambda: st.tuples(dates(), CI), needs=need, n=2500 * k, shards=1),
        Part("date ranges", chk_date_range, gen=lambda: st.tuples(dates(ALL), dates(ALL), st.sampled_from("/-."), st.sampled_from(["-", "~", "から"]), CI), needs=need, n=1200 * k, shards=1),
        Part("simple date ranges", chk_date_range, gen=lambda: st.tuples(dates(SIMPLE), dates(SIMPLE), st.sampled_from("/"), st.sampled_from(["-", "~", "から"]), CI), needs=need, n=600 * k, shards=1),
        Part("times", chk_time, gen=lambda: st.tuples(times(), CI), needs=need, n=2000 * k, shards=1),
        Part("every clock field", chk_time, needs=need, enum=lambda: [[[h, m, s, p, None, "", ":"], 0] for h in range(25) for m, s in ((8, None), (20, 9)) for p in (True, False)]
             + [[[6, m, None, True, n, "", ":"], 0] for m in range(60) for n in (None, "pm")] + [[[21, 30, s, True, None, "", ":"], 0] for s in range(60)]
             + [[[h, 15, s, True, n, sp, ":"], 0] for h in (3, 11) for s in (None, 40) for n in sorted(NOONS) for sp in ("", " ")]),
        Part("every date field", chk_date, needs=need, enum=lambda: [[[f, 2021, m, 17, s, p, True], 0] for f in ALL for m in range(1, 13) for s in "/-." for p in (True, False)]
             + [[[f, 1987, 10, d, s, True, p], 0] for f in ALL for d in range(1, 32) for s in "/-." for p in (True, False)]),
        Part("time ranges", chk_time_range, gen=lambda: st.tuples(times(), times(), st.sampled_from(["-", "~", "から"]), CI), needs=need, n=1000 * k, shards=1),
        Part("hours", chk_hour, needs=need, enum=lambda: [[h, n, c] for h in range(25) for n in sorted(NOONS) for c in (0, 1)]),
        Part("money", chk_money, gen=lambda: st.tuples(st.sampled_from(sorted(CURRENCY)), st.sampled_from(["", "", " "]), numbers(), st.booleans(), CI), needs=need, n=1500 * k, shards=1),
        Part("measures", chk_measure, gen=lambda: st.tuples(numbers(), unit, st.sampled_from(["", "", " "]), st.booleans(), st.one_of(st.none(), st.none(), per), CI), needs=need, n=2500 * k, shards=1),
        Part("every unit", chk_measure, enum=lambda: [[["", n, ""], u, "", False, p, 0] for u in sorted(UNITS) for n in (5, 100) for p in (None, "s")], needs=need),
        Part("ranges", chk_range, gen=lambda: st.tuples(numbers(), numbers(uns), unit, st.booleans(), st.sampled_from(["-", "~", "から"]), CI), needs=need, n=1500 * k, shards=1),
        Part("scores", chk_score, gen=lambda: st.tuples(st.sampled_from(TEAMS), st.sampled_from(["", " "]), st.integers(0, 199), st.sampled_from("/-:"), st.integers(0, 199), CI), needs=need, n=800 * k, shards=1),
        Part("every team", chk_score, enum=lambda: [[t, "", 3, "-", 12, 0] for t in TEAMS], needs=need, shards=2),
        Part("arithmetic", chk_math, gen=lambda: st.tuples(numbers(), st.lists(st.tuples(st.sampled_from(sorted(OPS)), numbers(uns)), min_size=1, max_size=4), st.sampled_from(["", "", " "]), CI).filter(plain), needs=need, n=2000 * k, shards=1),
    ]
    for i, g in enumerate(groups):
        g = [list(v) for v in g]
        ps.append(Part("options %d" % i, chk_options, gen=lambda g=g: st.tuples(st.sampled_from(g), option_texts()), needs=(BASE,) + tuple(sp_(v) for v in g), n=1200 * k, shards=1))
    a = list(OPTS)
    chunk = lambda chars, n: ["".join(sorted(chars)[i:i + n]) for i in range(0, len(chars), n)]
    ps.append(Part("whole tables", chk_options, needs=(BASE, sp_(a), sp_(["tag_oov"]), sp_(["full_to_half"])),
                   enum=lambda: [[v, t] for v in (a, ["tag_oov"], ["full_to_half"]) for t in chunk(CHARS - set("年月日時分秒"), 40) + chunk(PUNCTS, 8) + chunk(HALF, 6)]))
    return ps

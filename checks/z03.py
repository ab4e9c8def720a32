"""Z03: Chinese TN keeps the value and the unit of amounts, measures, fractions, scores and expressions."""
import os
import re

from hypothesis import strategies as st

from vlib import zhnum
from vlib.cjk import ZH_CONTEXTS, spoken, wrong
from vlib.core import VERIF, Part, spec
from vlib.nums import shaped

PROPERTY = "Z03"
LEVEL = "exploration"
RULE = ("Cases: currency amounts over every symbol and code, measures over every unit (prefixes, ranges, rates, years), fractions, scores of listed "
        "teams and arithmetic chains, with signed and decimal operands, alone or in a sentence; an independent reader of numerals recovers each "
        "operand, in place, with its unit. Non-trivial: every case with two operands, a unit or a currency.")
ASSUMPTIONS = ["The unit and currency names are the tables in vlib/zhunits.py.", "Operands have at most ten digits; amounts (not measurements) have no thousands commas.",
               "Digit strings that are also dates, times or phone numbers are left out of ranges and arithmetic."]

CI = st.integers(0, len(ZH_CONTEXTS) - 1)
SP = st.sampled_from(["", "", " "])
COMMA = st.sampled_from(["", ",", "，"])
SYMBOLS = {"$": "美元", "£": "英镑", "￡": "英镑", "¥": "元", "￥": "元", "฿": "泰铢", "€": "欧元", "₹": "印度卢比", "₽": "卢布", "CHF": "瑞士法郎", "R$": "巴西雷亚尔",
           "A$": "澳元", "AED": "阿联酋迪拉姆", "ARS": "阿根廷比索", "AUD": "澳元", "CAD$": "加元", "CAD": "加元", "CNY": "人民币", "EUR": "欧元", "GBP": "英镑",
           "HKD": "港元", "HK$": "港元", "HK＄": "港元", "INR": "印度卢比", "J￥": "日元", "JPY￥": "日元", "JPY": "日元", "KRW": "韩元", "RUB": "俄罗斯卢布", "SAR": "沙特阿拉伯里亚尔",
           "SEK": "瑞典克朗", "SGD": "新加坡元", "THB": "泰铢", "TRY": "土耳其里拉", "USD": "美元"}
EN = dict(x.split("=") for x in (
    "bar=巴|cm2=平方厘米|cm²=平方厘米|cm3=立方厘米|cm³=立方厘米|cm=厘米|cwt=美担|°c=摄氏度|°C=摄氏度|℃=摄氏度|db=分贝|dm3=立方分米|dm³=立方分米|dm=分米|ds=分秒|ft=英尺|"
    "°f=华氏度|°F=华氏度|℉=华氏度|gb=吉字节|ghz=吉赫兹|gpa=吉帕斯卡|gwh=吉瓦时|gw=吉瓦|gy=戈瑞|h=小时|ha=公顷|hz=赫兹|kbps=千比特每秒|kcal=千卡|kgf=千克力|kg=千克|"
    "khz=千赫兹|km2=平方千米|km²=平方千米|km=公里|kpa=千帕|kwh=千瓦时|kw=千瓦|kW=千瓦|lbs=磅|lb=磅|L=升|m2=平方米|m²=平方米|m3=立方米|m³=立方米|mbps=兆比特每秒|"
    "mg=毫克|mhz=兆赫兹|mi2=平方英里|mi²=平方英里|min=分钟|mi=英里|ml=毫升|mm2=平方毫米|mm²=平方毫米|mm=毫米|mol=摩尔|mpa=兆帕|mph=英里每小时|ms=毫秒|mv=毫伏|"
    "mw=毫瓦|m=米|ng=纳克|nm=纳米|ns=纳秒|ºc=摄氏度|ºC=摄氏度|oz=盎司|º=度|pa=帕斯卡|pg=皮克|ps=皮秒|rad=弧度|rpm=转每分|sq ft=平方英尺|sq mi=平方英里|s=秒|"
    "tb=太字节|tj=万亿焦耳|tl=台两|v=伏特|yd=码|μg=微克|μm=微米|μs=微秒|°=度").split("|"))
ZH = ("年前 年后 年内 平方 平米 立方 公里 票 多 余 集 档 人 篇 帧 把 封 艘 套 段 号 匹 张 座 回 场 尾 条 个 首 网 顶 棵 只 支 辆 颗 曲 墙 群 客 捆 令 手 溪 队 双 口 头 脚 板 枝 件 "
      "贴 针 线 管 名 位 课 本 页 家 户 层 丝 分 钱 两 斤 担 石 克 寸 尺 丈 里 米 升 斗 盘 碗 碟 叠 桶 笼 盆 盒 杯 锅 篮 瓶 壶 箱 袋 月 日 季 刻 时 小时 周 天 秒 旬 岁 夜 代 丸 泡 粒 幢 "
      "堆 根 道 面 片 块 架 千米 分米 厘米 毫米 微米 纳米 万块 千块 百块 角 毛 亿元 千万元 百万元 万元 千元 百元 元 吨 度 摄氏度 字").split()
ZH = [u for u in ZH if u not in ("角", "毛")]
OPS = {"×": "乘", "-": "减", "+": "加", "=": "等于", "÷": "除", "≥": "大于等于", "≤": "小于等于", ">=": "大于等于", "<=": "小于等于", "~": "到", ":": "比", "<": "小于", ">": "大于"}
TEAMS = open(os.path.join(VERIF, "data", "zh_teams.txt"), encoding="utf-8").read().split("\n")[:-1]


@st.composite
def numbers(draw, signs=("", "", "", "", "-", "+"), dec=True, most=10):
    n = draw(st.one_of(st.integers(0, 99), st.integers(0, 99), st.integers(1, 9999), st.integers(1, most).flatmap(lambda k: st.integers(10 ** (k - 1), 10 ** k - 1)), shaped(most),
                       st.sampled_from([2, 2, 12, 20, 22, 100, 102, 120, 200, 202, 1000, 2000, 2222, 10000, 20000, 100000, 1000000, 200000000])))
    f = draw(st.sampled_from(["", "", ""] + (["5", "25", "0", "05", "02", "222", "3456"] if dec else [])))
    return [draw(st.sampled_from(signs)), n, f]


def w(x, comma=False):
    n = "{:,}".format(x[1]).replace(",", "，" if comma == "，" else ",") if comma else str(x[1])
    return x[0] + n + ("." + x[2] if x[2] else "")


def is_(got, x):
    return got is not None and zhnum.number(got) == (x[0], x[1], x[2])


def fin(ctx, full, got, t, ok):
    ctx.nt(full)
    ctx.sample(full)
    if not ok:
        raise wrong(ctx["zhtn"], full, got, t)


def chk_money(ctx, case):
    cur, sp, x, ci = case
    t = cur + sp + w(x)
    full, got = spoken(ctx["zhtn"], t, ci)
    name = SYMBOLS[cur]
    fin(ctx, full, got, t, got.endswith(name) and is_(got[:-len(name)], x))


def units():
    return st.one_of(st.sampled_from(sorted(EN)), st.sampled_from(ZH), st.tuples(st.sampled_from("kw"), st.sampled_from(["人", "元", "个", "张", "斤", "户", "票"])).map("".join))


def name(u):
    if u in EN:
        return EN[u]
    return {"k": "千", "w": "万"}.get(u[0], u[0]) + u[1:]


def read_measure(got, x, u):
    return got.endswith(name(u)) and is_(got[:-len(name(u))], x)


def chk_measure(ctx, case):
    x, u, sp, comma, ci = case
    t = w(x, comma) + sp + u
    full, got = spoken(ctx["zhtn"], t, ci)
    fin(ctx, full, got, t, read_measure(got, x, u))


def chk_list(ctx, case):
    """A comma joins groups of three digits only: 3，5个 are two numbers."""
    n, sep, x, u, sp, ci = case
    t = str(n) + sep + w(x) + sp + u
    full, got = spoken(ctx["zhtn"], t, ci)
    ok = False
    for s in (sep, {"，": ",", "、": "、"}.get(sep, sep)):
        a, found, b = got.partition(s)
        ok = ok or bool(found) and is_(a, ["", n, ""]) and read_measure(b, x, u)
    fin(ctx, full, got, t, ok)


M, D, SEP = "(0?[1-9]|1[0-2])", "(0?[1-9]|[12]\\d|3[01])", "[-/.]"
MM = "(0[1-9]|1[0-2])"
DATES = re.compile("(?<!\\d)(\\d{4}{s}{m}{s}{d}|{d}{s}{m}{s}\\d{4}|\\d{4}{s}{mm}|{mm}{s}\\d{4}|{mm}{s}{d})(?!\\d)".replace("{s}", SEP).replace("{m}", M).replace("{d}", D).replace("{mm}", MM))


def chk_range(ctx, case):
    x, y, u, inner, joiner, (s1, s2, comma), ci = case
    t = w(x, comma) + (s1 + u if inner else "") + joiner + w(y, comma) + s2 + u
    if not inner and joiner in "-~" and DATES.search(w(x) + "-" + w(y)):
        return
    full, got = spoken(ctx["zhtn"], t, ci)
    a, _, b = got.partition("到")
    fin(ctx, full, got, t, (read_measure(a, x, u) if inner else is_(a, x)) and read_measure(b, y, u))


def chk_rate(ctx, case):
    x, x2, u, y, v, (s1, s2, s3, s4, comma), ci = case
    t = w(x, comma) + ("-" + w(x2, comma) if x2 else "") + s1 + u + s2 + "/" + s3 + (w(y, comma) + s4 if y else "") + v
    if x2 and DATES.search(w(x) + "-" + w(x2)):
        return
    full, got = spoken(ctx["zhtn"], t, ci)
    # 每 [y] v x [到 x2] u
    rest = got[1:] if got.startswith("每") else None
    ok = rest is not None and rest.endswith(name(u))
    if ok:
        rest = rest[:-len(name(u))]
        v = name(v)
        cuts = [i for i in range(len(rest)) if rest.startswith(v, i)]
        both = lambda z: is_(z.partition("到")[0], x) and is_(z.partition("到")[2], x2) if x2 else is_(z, x)
        ok = any((is_(rest[:i], y) if y else i == 0) and both(rest[i + len(v):]) for i in cuts)
    fin(ctx, full, got, t, ok)


def chk_annual(ctx, case):
    y1, u1, sep, y2, u2, ci = case
    t = ("%04d" % y1 + u1 + sep if y1 is not None else "") + "%04d" % y2 + u2
    full, got = spoken(ctx["zhtn"], t, ci)
    dig = lambda y: "".join(zhnum.DIGITS[int(c)] for c in "%04d" % y)
    want = (dig(y1) + u1 + "到" if y1 is not None else "") + dig(y2) + u2
    fin(ctx, full, got, t, got == want)


def chk_fraction(ctx, case):
    x, y, s1, s2, ci = case
    t = w(x) + s1 + "/" + s2 + w(y)
    if DATES.search(t):
        return
    full, got = spoken(ctx["zhtn"], t, ci)
    b, _, a = got.partition("分之")
    fin(ctx, full, got, t, is_(a, x) and is_(b, y))


def chk_score(ctx, case):
    team, sp, x, sep, y, ci = case
    if team[-1].isdigit():
        sp = " "
    t = team + sp + str(x) + sep + str(y)
    if re.fullmatch(r"\d{1,2}:\d\d", t[len(team):].strip()):
        return
    full, got = spoken(ctx["zhtn"], t, ci)
    if not got.startswith(team):
        team = ctx["zhtn"].norm(team)       # names with traditional characters
    a, _, b = got[len(team):].partition("比")
    fin(ctx, full, got, t, got.startswith(team) and is_(a, ["", x, ""]) and is_(b, ["", y, ""]))


PHONISH = re.compile(r"(?<!\d)\d{3,4}-\d{3,8}|\d-\d+-\d")
TIMEISH = re.compile(r"(?<!\d)\d{1,2}:\d\d(?!\d)")


def chk_math(ctx, case):
    first, rest, sp, ci = case
    t = w(first)
    want = [first]
    names = []
    for op, y in rest:
        t += sp + op + sp + w(y)
        names.append(OPS[op])
        want.append(y)
    joined = t.replace(" ", "")
    if PHONISH.search(joined) or TIMEISH.search(joined) or DATES.search(joined) or (joined != t and re.search(r"\d -|~", t) and len(rest) == 1):
        return
    full, got = spoken(ctx["zhtn"], t, ci)
    num = "([^乘减加等除大小到比于]+)"
    m = re.fullmatch(num + "".join(n + num for n in names), got)
    fin(ctx, full, got, t, bool(m) and all(is_(g, x) for g, x in zip(m.groups(), want)))


def parts(tier):
    k = 12 if tier == "thorough" else 1
    need = (spec("zhtn"),)
    uns = ("",)
    ps = [
        Part("money", chk_money, gen=lambda: st.tuples(st.sampled_from(sorted(SYMBOLS)), st.sampled_from(["", "", " "]), numbers(), CI), needs=need, n=2000 * k, shards=1),
        Part("measures", chk_measure, gen=lambda: st.tuples(numbers(), units(), st.sampled_from(["", "", " "]), COMMA, CI), needs=need, n=4000 * k, shards=2),
        Part("lists", chk_list, gen=lambda: st.tuples(st.integers(0, 99), st.sampled_from("，,、"), numbers(uns).filter(lambda x: len(str(x[1])) != 3), units(), SP, CI), needs=need, n=800 * k, shards=1),
        Part("ranges", chk_range, gen=lambda: st.tuples(numbers(), numbers(uns), units(), st.booleans(), st.sampled_from("-~到"), st.tuples(SP, SP, COMMA), CI), needs=need, n=2000 * k, shards=1),
        Part("rates", chk_rate, gen=lambda: st.tuples(numbers(), st.one_of(st.none(), st.none(), st.none(), numbers(uns)), units(), st.one_of(st.none(), numbers(uns)), units(), st.tuples(SP, SP, SP, SP, COMMA), CI), needs=need, n=2000 * k, shards=1),
        Part("years", chk_annual, gen=lambda: st.tuples(st.one_of(st.none(), st.integers(1000, 9999)), st.sampled_from(["", "年", "年度", "赛季"]), st.sampled_from("-~到"),
                                                        st.integers(1000, 9999), st.sampled_from(["年", "年度", "赛季"]), CI), needs=need, n=1000 * k, shards=1),
        Part("fractions", chk_fraction, gen=lambda: st.tuples(numbers(("", "", "-")), numbers(uns), st.sampled_from(["", "", " "]), st.sampled_from(["", "", " "]), CI), needs=need, n=1600 * k, shards=1),
        Part("scores", chk_score, gen=lambda: st.tuples(st.sampled_from(TEAMS), st.sampled_from(["", " "]), st.integers(0, 199), st.sampled_from("/-:"), st.integers(0, 199), CI), needs=need, n=1000 * k, shards=1),
        Part("every team", chk_score, enum=lambda: [[t, "", 3, "-", 12, i % 8] for i, t in enumerate(TEAMS)], needs=need, shards=2),
        Part("arithmetic", chk_math, gen=lambda: st.tuples(numbers(), st.lists(st.tuples(st.sampled_from(sorted(OPS)), numbers(("",))), min_size=1, max_size=4), st.sampled_from(["", "", " "]), CI), needs=need, n=2400 * k, shards=1),
        Part("every currency", chk_money, enum=lambda: [[c, s, ["", n, f], 0] for c in sorted(SYMBOLS) for s in ("", " ") for n, f in ((2, ""), (10, "5"), (200, ""))], needs=need),
        Part("every unit", chk_measure, enum=lambda: [[["", n, f], u, s, False, 0] for u in sorted(EN) + ZH for n, f, s in ((2, "", ""), (12, "", " "), (0, "5", ""), (20000, "", ""))], needs=need),
    ]
    return ps

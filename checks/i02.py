"""I02: Chinese ITN writes dates, times, amounts and expressions with their values."""
import re
from fractions import Fraction

from hypothesis import strategies as st

from vlib import written, zhnum
from vlib.cjk import ITN_CONTEXTS, spoken, wrong
from vlib.core import Part, spec

PROPERTY = "I02"
LEVEL = "exploration"
RULE = ("Cases: spoken dates, clock times, measures over every unit (with 万/亿, ranges, rates), currency amounts over every currency, percentage ranges, "
        "approximate ranges, fractions, arithmetic chains, plates and train numbers, alone or in a sentence, with two option settings; the written form "
        "is predicted, or taken apart by an independent reader of written numbers. Non-trivial: the output has a digit.")
ASSUMPTIONS = ["With default options a single digit before a unit or a currency stays in words.", "Measures and amounts are below 10^12, decimals below a million.",
               "Zero is said 零, not 〇."]

CI = st.integers(0, len(ITN_CONTEXTS) - 1)
DEFAULT = spec("zhitn")
ALL = spec("zhitn", enable_0_to_9=True, enable_million=True)
UNITS = dict(x.split("=") for x in (
    "巴=bar|平方厘米=cm²|立方厘米=cm³|厘米=cm|美担=cwt|摄氏度=°C|分贝=db|立方分米=dm³|分米=dm|英尺=ft|华氏度=°F|吉字节=gb|吉赫兹=ghz|吉帕斯卡=gpa|吉瓦时=gwh|"
    "吉瓦=gw|戈瑞=gy|小时=h|公顷=ha|赫兹=hz|千比特每秒=kbps|千卡=kcal|千克力=kgf|千克=kg|公斤=kg|千赫兹=khz|平方千米=km²|公里=km|公里每小时=km/h|公里一小时=km/h|"
    "千米=km|千米每小时=km/h|千帕=kpa|千瓦时=kwh|千瓦=kw|磅=lbs|平方米=m²|立方米=m³|兆比特每秒=mbps|克=g|毫克=mg|兆赫兹=mhz|平方英里=mi²|分钟=min|英里=mi|"
    "毫升=ml|平方毫米=mm²|毫米=mm|摩尔=mol|兆帕=mpa|英里每小时=mph|毫秒=ms|毫伏=mv|毫瓦=mw|千伏=kv|米=m|纳克=ng|纳米=nm|纳秒=ns|盎司=oz|帕斯卡=pa|"
    "皮克=pg|皮秒=ps|弧度=rad|转每分=rpm|平方英尺=sq ft|系沃特=sv|秒=s|太字节=tb|台两=tl|伏特=v|码=yd|微克=μg|微米=μm|微秒=μs|度=°").split("|"))
KEPT = ("人 篇 帧 把 封 艘 套 段 匹 张 座 回 场 条 个 首 棵 只 支 辆 颗 曲 群 客 队 双 口 头 枝 件 贴 名 位 本 页 家 户 层 斤 担 寸 尺 丈 里 升 斗 盘 碗 碟 桶 笼 盆 盒 杯 篮 瓶 壶 箱 袋 "
        "年 月 周 天 岁 夜 代 粒 幢 堆 根 道 片 块 架 字 吨 次 号 年前 年后 年内 年之前 年之后").split()
SYMBOLS = {}
for x in ("美元=$|英镑=£|元=¥|泰铢=฿|欧元=€|朝鲜园=₩|越南东=₫|印度卢比=₹|土耳其里拉=₺|卢布=₽|瑞士法郎=CHF|丹麦克朗=kr|巴西雷亚尔=R$|马来西亚令吉=RM|印尼盾=Rp|菲律宾比索=₱|"
          "澳元=A$|澳元=AUD|阿联酋迪拉姆=AED|阿根廷比索=ARS|加元=CAD$|加元=CAD|人民币=CNY|埃及镑=EGP|港元=HK＄|港元=HK$|港元=HKD|日元=J￥|日元=JPY￥|日元=JPY|韩元=KRW|"
          "墨西哥比索=MXN|挪威克朗=NOK|新西兰元=NZD|俄罗斯卢布=RUB|沙特阿拉伯里亚尔=SAR|瑞典克朗=SEK|新加坡元=SGD|新台币=TWD|英镑=GBP|美元=USD|泰铢=THB|瑞士法郎=CHF|"
          "越南东=VND|印度卢比=INR|土耳其里拉=TRY|巴西雷亚尔=BRL|丹麦克朗=DKK|马来西亚令吉=MYR|印尼盾=IDR|菲律宾比索=PHP|朝鲜园=KPW").split("|"):
    SYMBOLS.setdefault(x.split("=")[0], []).append(x.split("=")[1])
OPS = {"乘": "×", "减": "-", "加": "+", "比": ":", "等于": "=", "除": "÷", "到": "~"}
NOON = {"上午": "a.m.", "早上": "a.m.", "早晨": "a.m.", "下午": "p.m.", "晚上": "p.m.", "傍晚": "p.m."}


def zh(s):
    return "".join(zhnum.DIGITS[int(c)] for c in s)


def say(x, two="二"):
    """[sign, integer, decimals]"""
    return {"": "", "-": "负", "+": "正"}[x[0]] + zhnum.to_zh(x[1], two) + ("点" + zh(x[2]) if x[2] else "")


def plain(x):
    return x[0] + str(x[1]) + ("." + x[2] if x[2] else "")


def is_(got, x):
    return written.read(got) == (x[0], Fraction("%d.%s" % (x[1], x[2] or "0")), x[2], False)


def with_unit(got, x, names):
    """number + (W for 万, M for million) + unit"""
    for n in names:
        if got.endswith(n):
            v = got[:-len(n)]
            if v.endswith("W") or v.endswith("M"):
                r = written.read(v[:-1] + "万")
                if r and (r[0], r[1] * (1 if v[-1] == "W" else 100)) == (x[0], x[1]) and not x[2] and not r[3]:
                    return True
            elif is_(v, x):
                return True
    return False


def ambiguous(x, u):
    """十万五千克 is 105000 g or, for some, 105 kg."""
    return x[1] % 1000 == 0 and not x[2] and say(x)[-1] == "千" and "千" + u in UNITS


def both(ctx, t, ci, ok, words=False):
    """words: with default options the text may stay as it is."""
    for s in (DEFAULT, ALL):
        pipe = ctx.pipe(s)
        full, got = spoken(pipe, t, ci, ITN_CONTEXTS)
        if re.search("[0-9]", got):
            ctx.nt(full)
        ctx.sample([full, got])
        if not (ok(got) or (words and s == DEFAULT and got == t)):
            raise wrong(pipe, full, got, t)


@st.composite
def numbers(draw, signs=("", "", "", "-", "+"), dec=True, least=10, big=True):
    f = draw(st.sampled_from(["", "", ""] + (["5", "25", "05", "314"] if dec else [])))
    n = draw(st.one_of(st.integers(least, 99), st.integers(least, 9999), st.integers(10, 99999), st.sampled_from([10, 12, 20, 22, 100, 102, 110, 200, 1000, 1200, 2000, 2222, 10000, 20000, 120000]),
                       st.integers(100000, 999999)))
    if not f:
        n = draw(st.one_of(st.just(n), st.just(n), st.just(n % 10000 * 10000 or n), st.integers(10, 999).map(lambda k: k * 10 ** 8) if big else st.just(n)))
    elif least == 10:
        n = draw(st.one_of(st.just(n), st.integers(0, 9)))
    return [draw(st.sampled_from(signs)), n, f]


def chk_date(ctx, case):
    y, m, d, suf, form, ci = case
    month, day = zhnum.to_zh(m) + "月", zhnum.to_zh(d) + suf
    if form == "y":
        t, want = zh(y) + "年", y + "年"
    elif form == "ym":
        t, want = zh(y) + "年" + month, "%s/%02d" % (y, m)
    elif form == "md":
        t, want = month + day, "%02d/%02d" % (m, d)
    else:
        t, want = zh(y) + "年" + month + day, "%s/%02d/%02d" % (y, m, d)
    ctx.label(form)
    both(ctx, t, ci, lambda got: got == want)


def chk_time(ctx, case):
    noon, h, m, s, fen, ci = case
    hour = ("两" if h == 2 else zhnum.to_zh(h)) + "点"
    if m == 0:
        return
    minute = "半" if m == 30 and not fen else ("零" if m < 10 else "") + zhnum.to_zh(m) + ("分" if fen else "")
    if s and (minute == "半" or not fen):
        return
    if m < 10 and not fen and not noon:
        return      # 三点零五 is 3.05
    second = zhnum.to_zh(s) + "秒" if s else ""
    t = noon + hour + minute + second
    both(ctx, t, ci, lambda got: re.fullmatch("%s:%02d%s%s" % ("00" if h == 0 else "0?%d" % h, m, ":%02d" % s if s else "", re.escape(NOON.get(noon, ""))), got))


def chk_measure(ctx, case):
    x, two, u, ci = case
    if ambiguous(x, u):
        return
    t = say(x, two) + u
    # 一亿伏特 counts as a single digit and a unit
    both(ctx, t, ci, lambda got: with_unit(got, x, [UNITS[u]] if u in UNITS else [u]), words=x[1] in range(0, 10 ** 9, 10 ** 8))


def chk_small(ctx, case):
    n, u, ci = case
    if u[0] == "千":
        return      # 一千克 is 1000 g
    if u in ("号", "月", "日", "点", "个", "分", "秒", "周", "年"):
        return      # 三号, 一个, ... are dates or fixed words
    t = ("两" if n == 2 else zhnum.to_zh(n)) + u
    both(ctx, t, ci, lambda got: with_unit(got, ["", n, ""], [UNITS[u]] if u in UNITS else [u]), words=True)


def chk_range(ctx, case):
    x, y, u, ci = case
    if ambiguous(y, u):
        return
    t = say(x) + "到" + say(y) + u
    names = [UNITS[u]] if u in UNITS else [u]

    def ok(got):
        a, sep, b = got.partition("到" if "到" in got and x[1] % 10 ** 8 == 0 else "~")
        return sep and is_(a, x) and with_unit(b, y, names)
    both(ctx, t, ci, ok)


def chk_rate(ctx, case):
    x, u, v, ci = case
    if ambiguous(x, u) or "每" in v or "一小时" in v:
        return
    t = "每" + v + say(x) + u

    def ok(got):
        a, sep, b = got.rpartition("/")
        return sep and b == UNITS.get(v, v) and with_unit(a, x, [UNITS.get(u, u)])
    both(ctx, t, ci, ok)


def chk_percent(ctx, case):
    x, y, again, ci = case
    if max(x[1], y[1]) >= 10 ** 8:
        return
    t = "百分之" + say(x) + "到" + ("百分之" if again else "") + say(y)

    def ok(got):
        a, sep, b = got.partition("~")
        return sep and b.endswith("%") and is_(a, x) and is_(b[:-1], y)
    both(ctx, t, ci, ok)


def chk_money(ctx, case):
    x, two, cur, jiao, fen, name, ci = case
    if jiao and (x[2] or x[1] >= 10 ** 6):
        return
    cents = (zhnum.DIGITS[jiao] + name + (zhnum.DIGITS[fen] + "分" if fen else "")) if jiao else ""
    t = say(x, two) + cur + cents
    y = [x[0], x[1], str(jiao) + (str(fen) if fen else "") if jiao else x[2]]

    def ok(got):
        if (cur == "元" or x[1] % 10 ** 8 == 0) and not jiao and got.endswith(cur) and is_(got[:-len(cur)], y):
            return True
        if cur == "元" and jiao and re.fullmatch("%d%s" % (jiao, name) + ("%d分" % fen if fen else ""), got.partition("元")[2]) and is_(got.partition("元")[0], x):
            return True     # 10万元1毛
        return any(got.startswith(s) and is_(got[len(s):], y) for s in SYMBOLS[cur])
    both(ctx, t, ci, ok)


def chk_colloquial_money(ctx, case):
    n, jiao, mao, ci = case
    t = zhnum.to_zh(n) + "块" + zhnum.DIGITS[jiao] + mao
    both(ctx, t, ci, lambda got: got == "%d块%d%s" % (n, jiao, mao))


def chk_fraction(ctx, case):
    sign, a, b, two, ci = case
    t = sign + zhnum.to_zh(b, two) + "分之" + zhnum.to_zh(a, two)
    both(ctx, t, ci, lambda got: got == {"": "", "负": "-", "正": "+"}[sign] + "%d/%d" % (a, b))


def chk_math(ctx, case):
    xs, ops, ci = case
    t = say(xs[0]) + "".join(o + say(x) for o, x in zip(ops, xs[1:]))

    def ok(got):
        # operators are found from left to right; a sign belongs to the operand after an operator
        m = re.fullmatch("([-+]?[^-+×÷=:~]+)" + "".join(re.escape(OPS[o]) + "([-+]?[^-+×÷=:~]+)" for o, x in zip(ops, xs[1:])), got)
        return m and all(is_(g, x) for g, x in zip(m.groups(), xs))
    both(ctx, t, ci, ok)


def chk_plate(ctx, case):
    prov, letter, rest, ci = case
    t = prov + letter + "".join(zhnum.DIGITS[int(c)] if c.isdigit() else c for c in rest)
    both(ctx, t, ci, lambda got: got == prov + letter + rest)


def chk_train(ctx, case):
    kind, ds, one, ci = case
    t = kind + zh(ds).replace("一", one)
    both(ctx, t, ci, lambda got: got == {"高": "G", "动": "D", "特": "T", "快": "K", "直": "Z", "慢": "L", "临": "L"}[kind] + ds)


def chk_approx(ctx, case):
    """七八十, 三四千万 and so on"""
    d, unit, scale, u, ci = case
    if unit == "千" and not scale and "千" + u in UNITS:
        return      # 二三千米 is 2~3 km
    t = zhnum.DIGITS[d] + zhnum.DIGITS[d + 1] + unit + scale + u
    k = {"十": 10, "百": 100, "千": 1000}[unit]
    names = [UNITS[u]] if u in UNITS else [u]

    def ok(got):
        m = re.fullmatch("%d[~-](.*)" % (d * k), got)
        x = ["", (d + 1) * k * {"": 1, "万": 10 ** 4, "亿": 10 ** 8}[scale], ""]
        return m and (with_unit(m[1], x, names) if u else is_(m[1], x))
    both(ctx, t, ci, ok)


def chk_approx_money(ctx, case):
    """七八美元 is $7~8"""
    d, unit, cur, ci = case
    k = {"": 1, "十": 10, "百": 100, "千": 1000}[unit]
    t = zhnum.DIGITS[d] + zhnum.DIGITS[d + 1] + unit + cur
    both(ctx, t, ci, lambda got: got in ["%s%d%s%d" % (s, d * k, j, (d + 1) * k) for s in SYMBOLS[cur] for j in "~-"])


def parts(tier):
    k = 10 if tier == "thorough" else 1
    need = (DEFAULT, ALL)
    two = st.sampled_from("二两")
    units = st.sampled_from(sorted(UNITS) + KEPT)
    ops = st.lists(st.sampled_from(["加", "减", "乘", "除"]), min_size=1, max_size=4).flatmap(lambda o: st.sampled_from([o, o, o + ["等于"], ["比"]]))
    any_ = numbers(least=0, big=False)

    def P(name, check, strat, n, **kw):
        return Part(name, check, gen=lambda: strat, needs=need, n=n * k, shards=kw.pop("shards", 1), **kw)
    year = st.one_of(st.integers(1000, 2999).map(str), st.integers(100, 999).map(str), st.integers(0, 99).map("{:02d}".format))
    cur = st.sampled_from(sorted(SYMBOLS))
    ascii_ = "ABCDEFGHJKLMNPQRSTUVWXYZ"
    ps = [
        P("dates", chk_date, st.tuples(year, st.integers(1, 12), st.integers(1, 31), st.sampled_from("日号"), st.sampled_from(["ymd", "ymd", "ym", "md", "y"]), CI), 1000),
        P("times", chk_time, st.tuples(st.sampled_from([""] * 3 + sorted(NOON)), st.integers(0, 24), st.integers(1, 59), st.one_of(st.just(0), st.integers(1, 59)), st.booleans(), CI), 1000),
        P("measures", chk_measure, st.tuples(numbers(), two, units, CI), 2500, shards=2),
        P("small measures", chk_small, st.tuples(st.integers(1, 9), units, CI), 400),
        P("ranges", chk_range, st.tuples(numbers(("",)), numbers(("",)), units, CI), 800),
        P("rates", chk_rate, st.tuples(numbers(("",)), units, st.sampled_from(sorted(UNITS) + ["人", "天", "个", "年", "次"]), CI), 800),
        P("percentages", chk_percent, st.tuples(numbers(("",), least=0), numbers(("",), least=0), st.booleans(), CI), 500),
        P("money", chk_money, st.tuples(numbers(("",)), two, cur, st.integers(0, 9), st.integers(0, 9), st.sampled_from("毛角"), CI).filter(
            lambda c: not (c[2] == "巴西雷亚尔" and c[0][1] % 10 ** 8 == 0)), 1200),
        P("块", chk_colloquial_money, st.tuples(st.integers(10, 9999), st.integers(1, 9), st.sampled_from(["", "毛"]), CI), 300),
        P("fractions", chk_fraction, st.tuples(st.sampled_from(["", "", "负", "正"]), st.integers(1, 9999), st.integers(2, 9999), two, CI), 700),
        P("arithmetic", chk_math, ops.flatmap(lambda o: st.tuples(st.lists(any_, min_size=len(o) + 1, max_size=len(o) + 1), st.just(o), CI)), 800),
        P("plates", chk_plate, st.tuples(st.sampled_from("京津沪渝冀豫云辽黑湘皖鲁新苏浙赣鄂桂甘晋蒙陕吉闽贵粤青藏川宁琼"), st.sampled_from(ascii_),
                                         st.text(ascii_ + "0123456789", min_size=5, max_size=6), CI), 500),
        P("trains", chk_train, st.tuples(st.sampled_from("高动特快直慢临"), st.text("0123456789", min_size=2, max_size=4), st.sampled_from("一幺"), CI), 400),
        Part("every clock field", chk_time, needs=need, enum=lambda: [["", h, m, 0, True, 0] for h in range(25) for m in (1, 45)] + [[n, 9, m, 0, f, 0] for n in ("", "晚上") for m in range(1, 60) for f in (True, False)]
             + [["", 5, 59, s, True, 0] for s in range(1, 60)] + [[n, 11, 20, 0, True, 0] for n in sorted(NOON)]),
        Part("every date field", chk_date, needs=need, enum=lambda: [["2023", m, 17, s, f, 0] for m in range(1, 13) for s in "日号" for f in ("ymd", "ym", "md")] + [["1998", 10, d, s, f, 0] for d in range(1, 32) for s in "日号" for f in ("ymd", "md")]),
        Part("approximate money", chk_approx_money, needs=need, enum=lambda: [[d, unit, u, 0] for d in range(1, 9) for unit in ["", "十", "百", "千"] for u in sorted(SYMBOLS)]),
        P("approximations", chk_approx, st.tuples(st.integers(2, 8), st.sampled_from("十百千"), st.sampled_from(["", "", "万", "亿"]), st.one_of(st.just(""), units), CI), 600),
    ]
    if tier == "thorough":
        ps.append(Part("all times", chk_time, enum=lambda: [[n, h, m, s, True, 0] for n in ["", "上午", "晚上"] for h in range(25) for m in range(60) for s in range(0, 60, 7)], needs=need, shards=8))
        ps.append(Part("all dates", chk_date, enum=lambda: [["2023", m, d, s, f, 0] for m in range(1, 13) for d in range(1, 32) for s in "日号" for f in ("ymd", "md", "ym")], needs=need, shards=8))
    return ps

"""Z02: Chinese TN reads every date and time correctly."""
import re

from hypothesis import strategies as st

from vlib import zhnum
from vlib.cjk import ZH_CONTEXTS, spoken, wrong
from vlib.core import Part, spec

PROPERTY = "Z02"
LEVEL = "exploration"
RULE = ("Cases: dates in the five documented digit orders with / - . and padded or plain fields, 年月日 forms, clock times with and without "
        "seconds and am/pm, ranges and date-time pairs, alone or in a sentence; the fields read back must be the written ones. "
        "Non-trivial: every case (each has at least two fields).")
ASSUMPTIONS = ["Years are 1000 to 9999; hours are 1 to 24 or two digits; days up to 31 in every month."]

NUMERIC = ("ymd", "ymd", "dmy", "ym", "my", "md")  # ranges join dates in digits
CI = st.integers(0, len(ZH_CONTEXTS) - 1)
NOONS = {"am": "上午", "a.m.": "上午", "AM": "上午", "A M": "上午", "a m": "上午", "pm": "下午", "p.m.": "下午", "PM": "下午", "P M": "下午", "p m": "下午"}


def year(y):
    return "".join(zhnum.DIGITS[int(c)] for c in str(y)) + "年"


@st.composite
def dates(draw, forms=("ymd", "ymd", "dmy", "ym", "my", "md", "zh")):
    y = draw(st.one_of(st.integers(1000, 9999), st.integers(1900, 2100), st.sampled_from([2000, 2008, 1999, 2020, 1000, 2100, 2222])))
    m, d = draw(st.integers(1, 12)), draw(st.integers(1, 31))
    form = draw(st.sampled_from(forms))
    sep = draw(st.sampled_from("/-."))
    pm, pd = draw(st.booleans()), draw(st.booleans())
    return [form, y, m, d, sep, pm, pd]


def write(case):
    """-> (written, expected reading)"""
    form, y, m, d, sep, pm, pd = case
    M = "%02d" % m if pm else str(m)
    Dd = "%02d" % d if pd else str(d)
    if form == "ymd":
        return sep.join([str(y), M, Dd]), year(y) + zhnum.to_zh(m) + "月" + zhnum.to_zh(d) + "日"
    if form == "dmy":
        return sep.join([Dd, M, str(y)]), year(y) + zhnum.to_zh(m) + "月" + zhnum.to_zh(d) + "日"
    if form == "ym":
        return sep.join([str(y), "%02d" % m]), year(y) + zhnum.to_zh(m) + "月"
    if form == "my":
        return sep.join(["%02d" % m, str(y)]), year(y) + zhnum.to_zh(m) + "月"
    if form == "md":
        return sep.join(["%02d" % m, Dd]), zhnum.to_zh(m) + "月" + zhnum.to_zh(d) + "日"
    return "%d年%d月%d日" % (y, m, d), year(y) + zhnum.to_zh(m) + "月" + zhnum.to_zh(d) + "日"


def same(got, want):
    return got.replace("两", "二") == want


def chk_date(ctx, case):
    c, ci = case
    t, want = write(c)
    full, got = spoken(ctx["zhtn"], t, ci)
    ctx.nt(full)
    ctx.label(c[0])
    ctx.sample(full)
    if not same(got, want):
        raise wrong(ctx["zhtn"], full, got, t)


def chk_date_range(ctx, case):
    a, b, sep, joiner, ci = case
    if joiner == "-" and sep == "-":
        sep = "/"
    a[4] = b[4] = sep
    ta, wa = write(a)
    tb, wb = write(b)
    full, got = spoken(ctx["zhtn"], ta + joiner + tb, ci)
    ctx.nt(full)
    ctx.sample(full)
    if not same(got, wa + "到" + wb):
        raise wrong(ctx["zhtn"], full, got, ta + joiner + tb)


@st.composite
def times(draw):
    h = draw(st.integers(0, 24))
    pad = draw(st.booleans()) or h == 0
    return [h, draw(st.integers(0, 59)), draw(st.one_of(st.none(), st.integers(0, 59))), pad, draw(st.sampled_from([None, None] + sorted(NOONS))),
            draw(st.sampled_from(["", " "])), draw(st.sampled_from([":", ":", "："]))]


def write_time(c):
    h, m, s, pad, noon, sp, colon = c
    t = ("%02d" if pad else "%d") % h + colon + "%02d" % m + (colon + "%02d" % s if s is not None else "")
    return t + (sp + noon if noon else "")


def read_time(got):
    """-> (noon, hour, minute, second) or None"""
    r = re.fullmatch("(上午|下午|)([^点分秒]+)点(?:零?([^点分秒零]+)分)?(?:零?([^点分秒零]+)秒)?", got)
    if not r:
        return None
    vals = [zhnum.value(x) if x else 0 for x in r.groups()[1:]]
    return (r.group(1),) + tuple(vals)


def chk_time(ctx, case):
    c, ci = case
    t = write_time(c)
    full, got = spoken(ctx["zhtn"], t, ci)
    ctx.nt(full)
    ctx.sample(full)
    if read_time(got) != (NOONS.get(c[4], ""), c[0], c[1], c[2] or 0):
        raise wrong(ctx["zhtn"], full, got, t)


def chk_time_range(ctx, case):
    a, b, joiner, ci = case
    t = write_time(a) + joiner + write_time(b)
    full, got = spoken(ctx["zhtn"], t, ci)
    x, _, y = got.partition("到")
    ctx.nt(full)
    ctx.sample(full)
    if [read_time(x), read_time(y)] != [(NOONS.get(c[4], ""), c[0], c[1], c[2] or 0) for c in (a, b)]:
        raise wrong(ctx["zhtn"], full, got, t)


def chk_both(ctx, case):
    d, c, sep, ci = case
    t, want = write(d)
    full, got = spoken(ctx["zhtn"], t + sep + write_time(c), ci)
    ctx.nt(full)
    ctx.sample(full)
    got2 = got.replace("两", "二")
    sep2 = {"，": ","}.get(sep, sep)
    if not got2.startswith(want + sep2) or read_time(got2[len(want + sep2):]) != (NOONS.get(c[4], ""), c[0], c[1], c[2] or 0):
        raise wrong(ctx["zhtn"], full, got, t)


def parts(tier):
    k = 12 if tier == "thorough" else 1
    need = (spec("zhtn"),)
    noon_tail = times()
    ps = [
        Part("dates", chk_date, gen=lambda: st.tuples(dates(), CI), needs=need, n=4000 * k, shards=2),
        Part("date ranges", chk_date_range, gen=lambda: st.tuples(dates(NUMERIC), dates(NUMERIC), st.sampled_from("/-."), st.sampled_from("-~"), CI), needs=need, n=2000 * k, shards=2),
        Part("times", chk_time, gen=lambda: st.tuples(times(), CI), needs=need, n=3000 * k, shards=2),
        Part("time ranges", chk_time_range, gen=lambda: st.tuples(times(), times(), st.sampled_from("-~"), CI), needs=need, n=1200 * k, shards=1),
        Part("every clock field", chk_time, needs=need, enum=lambda: [[[h, m, s, True, None, "", ":"], 0] for h in range(25) for m, s in ((8, None), (20, 9))] + [[[h, m, s, False, None, "", "："], 0] for h in range(1, 10) for m, s in ((8, None), (20, 9))]
             + [[[h, m, None, True, n, "", ":"], 0] for h in (0, 7, 18) for m in range(60) for n in (None, "pm")] + [[[h, 30, s, True, None, "", ":"], 0] for h in (0, 21) for s in range(60)]
             + [[[h, 15, s, True, n, sp, ":"], 0] for h in (3, 11) for s in (None, 40) for n in sorted(NOONS) for sp in ("", " ")]),
        Part("every date field", chk_date, needs=need, enum=lambda: [[[f, 2021, m, 17, s, p, True], 0] for f in NUMERIC[1:] for m in range(1, 13) for s in "/-." for p in (True, False)]
             + [[[f, 1987, 10, d, s, True, p], 0] for f in NUMERIC[1:] if "d" in f for d in range(1, 32) for s in "/-." for p in (True, False)]
             + [[["zh", 2014, m, d, "/", True, True], 0] for m in range(1, 13) for d in range(1, 32) if m == 6 or d == 21 or m == d]),
        Part("date and time", chk_both, gen=lambda: st.tuples(dates(), noon_tail, st.sampled_from([" ", "，", "的"]), CI), needs=need, n=1200 * k, shards=1),
    ]
    if tier == "thorough":
        ps.append(Part("every day", chk_date, enum=lambda: [[[f, 2000 + m * d % 99, m, d, s, bool(p & 1), bool(p & 2)], 0] for f in ("ymd", "dmy", "ym", "my", "md", "zh")
                                                           for m in range(1, 13) for d in range(1, 32) for s in "/-." for p in range(4)], needs=need, shards=4))
        ps.append(Part("every time", chk_time, enum=lambda: [[[h, m, s, True, n, "", ":"], 0] for h in range(25) for m in range(60) for s in (None, 0, 7, 30)
                                                            for n in (None, "am", "p.m.")], needs=need, shards=4))
    return ps

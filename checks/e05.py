"""E05: English TN reads ranges, lists of operands and numbered items with every operand's value."""
import re

from hypothesis import strategies as st

from checks.e01 import integers, written
from checks.e02 import is_time
from vlib import ennum
from vlib.core import Part, spec
from vlib.entn import context, spoken, wrong

PROPERTY = "E05"
LEVEL = "exploration"
RULE = ("Cases: ranges of numbers, clock times, percentages, multiples and weekdays, approximate numbers and times, sums, products, quotients, ratios, "
        "multiples, numbered items and parts of decades, alone or in a sentence. An independent reader must recover every operand, in order, and "
        "the word for the sign between. Non-trivial: every case.")
ASSUMPTIONS = ["Operands that make a date (2012-10), a telephone number (555-1234), a fraction (8/2) or a clock time (2:30) of the expression are left out.",
               "Percent and multiple ranges may keep the written hyphen between the two numbers."]

WEEK = {"Mon": "Monday", "Tu": "Tuesday", "Wed": "Wednesday", "Th": "Thursday", "Thur": "Thursday", "Thurs": "Thursday", "Fri": "Friday", "Sat": "Saturday", "Sun": "Sunday"}
SIGN = {"+": ["plus"], "*": ["times"], "/": ["divided by"], "x": ["by", "times"], ":": ["to"], "-": ["to", "minus"], "...": ["..."]}
NAMES = {"No": "Number", "NO": "Number", "no": "number"}


def is_(words, v):
    return v in ennum.values(words)


def operands(ctx, t, ci, vals, joiners):
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    ctx.sample(full)
    for j in joiners:
        ws = got.split(" %s " % j)
        if len(ws) == len(vals) and all(is_(w, v) for w, v in zip(ws, vals)):
            return
    raise wrong(ctx["entn"], full, got, t)


def chk_range(ctx, case):
    a, b, ca, sep, ci = case
    if len(str(a)) == 3 and len(str(b)) == 4 and not ca or 1000 <= a < 3000 and b <= 31 and not ca or len(str(a)) + len(str(b)) >= 10 and not ca:
        return
    operands(ctx, written(a, ca) + sep + written(b, ca), ci, [a, b], ["to"])


def chk_chain(ctx, case):
    op, vals, sp, ci = case
    if op == "/" and len(vals) == 2:
        vals = vals + [5]
    if op in ("x", ":", "..."):
        vals = vals[:2]
    if op == ":" and vals[0] < 25:
        vals[1] += 60
    if op == "/" and not sp and len(vals) == 3 and vals[0] < 32 and vals[1] < 32 or op == "..." and min(vals) < 1:
        return
    ctx.label(op)
    operands(ctx, (" %s " % op if sp else op).join(map(str, vals)), ci, vals, SIGN[op])


def chk_multiple(ctx, case):
    a, b, form, ci = case
    t = {"x": "%dx" % a, " x": "%d x" % a, "to": "%dx to %dx" % (a, b), "-": "%dx-%dx" % (a, b), " - ": "%dx - %dx" % (a, b)}[form]
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    ctx.sample(full)
    if form in ("x", " x"):
        ok = got.endswith(" times") and is_(got[:-6], a)
    else:
        m = re.fullmatch("(.+?)(?: to |-| - )(.+) (x|times)", got)
        ok = m and is_(m[1], a) and is_(m[2], b)
    if not ok:
        raise wrong(ctx["entn"], full, got, t)


def chk_percent(ctx, case):
    a, b, pc, sep, ci = case
    t = "%d%s%s%d%%" % (a, "%" if pc else "", sep, b)
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    ctx.sample(full)
    m = re.fullmatch("(.+?)(?: percent)?(?: to |-| - )(.+) percent", got)
    if not m or not is_(m[1], a) or not is_(m[2], b):
        raise wrong(ctx["entn"], full, got, t)


def chk_item(ctx, case):
    name, sep, a, ci = case
    t = name + sep + str(a)
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    ctx.sample(full)
    w, _, rest = got.partition(" ")
    if w != NAMES[name] or not is_(rest, a):
        raise wrong(ctx["entn"], full, got, t)


def chk_approx(ctx, case):
    kind, a, m, commas, ci = case
    t = "~" + (written(a, commas) if kind == "int" else "%d:%02d" % (a % 24, m))
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    ctx.sample(full)
    w, _, rest = got.partition(" ")
    if w != "approximately" or not (is_(rest, a) if kind == "int" else is_time(rest, (a % 24, m, None, None, None))):
        raise wrong(ctx["entn"], full, got, t)


def chk_week(ctx, case):
    a, b, sep, dots, ci = case
    t = a + "." * (dots & 1) + sep + b + "." * (dots >> 1)
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    ctx.sample(full)
    if got.rstrip(".") != "%s to %s" % (WEEK[a], WEEK[b]):
        raise wrong(ctx["entn"], full, got, t)


def chk_mid(ctx, case):
    y, ci = case
    t = "mid-%ds" % y if y < 100 else "mid-%d" % y
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    ctx.sample(full)
    rest = got[4:] if got.startswith("mid ") else ""
    if not (rest.endswith("ies") and is_(rest[:-3] + "y", y) if y < 100 else is_(rest, y)):
        raise wrong(ctx["entn"], full, got, t)


def parts(tier):
    k = 10 if tier == "thorough" else 1
    n = (spec("entn"),)
    b = st.booleans()
    num, small = integers(0, 9), st.one_of(st.integers(0, 120), st.integers(0, 99999))
    dash = st.sampled_from(["-", "-", " - ", "- ", " -"])
    chain = st.sampled_from(["+", "+", "*", "*", "/", "x", ":", "..."]).flatmap(
        lambda op: st.tuples(st.just(op), st.lists(st.one_of(st.integers(1, 99), st.integers(1, 99999)), min_size=2, max_size=5), b, context(False)))
    return [
        Part("ranges", chk_range, gen=lambda: st.tuples(num, num, b, dash, context(False)), needs=n, n=1500 * k, shards=2),
        Part("small ranges", chk_range, gen=lambda: st.tuples(st.integers(0, 999), st.integers(0, 999), st.just(False), dash, context(False)), needs=n, n=600 * k),
        Part("chains", chk_chain, gen=lambda: chain, needs=n, n=1500 * k, shards=2),
        Part("multiples", chk_multiple, gen=lambda: st.tuples(small, small, st.sampled_from(["x", " x", "to", "-", " - "]), context(False)), needs=n, n=600 * k),
        Part("percent ranges", chk_percent, gen=lambda: st.tuples(small, small, b, st.sampled_from([" to ", "-", " - "]), context(False)), needs=n, n=600 * k),
        Part("numbered items", chk_item, gen=lambda: st.tuples(st.sampled_from(sorted(NAMES)), st.sampled_from(["", " ", ". "]), small, context(False)), needs=n, n=500 * k),
        Part("approximations", chk_approx, gen=lambda: st.tuples(st.sampled_from(["int", "int", "time"]), num, st.integers(0, 59), b, context(False)), needs=n, n=600 * k),
        Part("weekdays", chk_week, enum=lambda: [(x, y, s, d, 0) for x in WEEK for y in WEEK for s in ("-", " - ", "~") for d in (0, 3 if s == "-" else 0)], needs=n),
        Part("decades and years", chk_mid, enum=lambda: [(y, 0) for y in list(range(20, 100, 10)) + list(range(1000, 2100, 1 if k > 1 else 7))], needs=n),
    ]

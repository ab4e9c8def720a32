"""E02: English TN reads every date and time with its value."""
import re

from hypothesis import strategies as st

from vlib import ennum
from vlib.core import Part, spec
from vlib.entn import context, spoken, wrong

PROPERTY = "E02"
LEVEL = "exploration"
RULE = ("Cases: calendar dates 1000-2999 in ten written forms, years with suffix, decades, fiscal periods, clock times with seconds, "
        "am/pm and zone, and ranges, alone or in a sentence. An independent reader must recover day, month, year, hour, minute, second. "
        "Non-trivial: every case.")
ASSUMPTIONS = ["Punctuation directly after a date or time may be absorbed by it.",
               "Capitalized May is no month name (it is ambiguous and left out by the data).",
               "nn/nn/yyyy is month first unless the first part exceeds 12."]

MONTHS = "january february march april may june july august september october november december".split()
ABBR = {1: ["jan"], 2: ["feb"], 3: ["mar"], 4: ["apr"], 5: [], 6: ["jun"], 7: ["jul"], 8: ["aug"], 9: ["sep", "sept"], 10: ["oct"],
        11: ["nov"], 12: ["dec"]}
DAYS = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def suffix(v):
    return "th" if v // 10 % 10 == 1 else {1: "st", 2: "nd", 3: "rd"}.get(v % 10, "th")


def names(m):
    if m == 5:
        return ["may"]
    out = []
    for x in [MONTHS[m - 1]] + ABBR[m]:
        out += [x, x.capitalize(), x.upper()]
    return out + [a.capitalize() + "." for a in ABBR[m]]


def read_date(text):
    """(day, month, {years}) of "the fifth of january[,] twenty twelve"; None parts when absent."""
    w = text.replace(",", " ").split()
    day = None
    if w and w[0] == "the" and "of" in w:
        k = w.index("of")
        day, w = ennum.ordinal(" ".join(w[1:k])), w[k + 1:]
        if day is None:
            return None
    if not w or w[0] not in MONTHS:
        return None
    return day, MONTHS.index(w[0]) + 1, ennum.values(" ".join(w[1:])) if w[1:] else None


def matches(got, d, m, y):
    r = read_date(got)
    return bool(r) and r[0] == d and r[1] == m and ((y is None and r[2] is None) or (y is not None and r[2] is not None and y in r[2]))


@st.composite
def numeric(draw):
    m = draw(st.integers(1, 12))
    y, d = draw(st.integers(1000, 2999)), draw(st.integers(1, DAYS[m - 1]))
    sep = draw(st.sampled_from("-/."))
    mm, dd = draw(st.sampled_from(["%d", "%02d"])) % m, draw(st.sampled_from(["%d", "%02d"])) % d
    form = draw(st.sampled_from(["ymd", "mdy"] + (["dmy"] if d > 12 else [])))
    t = sep.join({"y": str(y), "m": mm, "d": dd}[c] for c in form)
    return t, d, m, y, draw(context(False))


@st.composite
def named(draw):
    m = draw(st.integers(1, 12))
    y, d = draw(st.integers(1000, 2999)), draw(st.integers(1, DAYS[m - 1]))
    mn = draw(st.sampled_from(names(m)))
    ds = draw(st.sampled_from(["%d", "%02d"])) % d
    if draw(st.booleans()):
        ds = "%d%s" % (d, suffix(d))
    c = draw(st.sampled_from([" ", ", "]))
    form = draw(st.sampled_from(["mdy", "md", "my", "dmy", "dm", "ymd", "m-d"]))
    t = {"mdy": "%s %s%s%d" % (mn, ds, c, y), "md": "%s %s" % (mn, ds), "my": "%s%s%d" % (mn, c, y), "dmy": "%s %s%s%d" % (ds, mn, c, y),
         "dm": "%s %s" % (ds, mn), "ymd": "%d %s %s" % (y, mn, ds), "m-d": "%s-%d" % (mn, d)}[form]
    return t, None if form == "my" else d, m, y if "y" in form else None, draw(context(False))


def chk_date(ctx, case):
    t, d, m, y, ci = case
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    ctx.sample(full)
    if not matches(got, d, m, y):
        raise wrong(ctx["entn"], full, got, "day %s month %s year %s" % (d, m, y))


SUFFIXES = {"a.m.": "AM", "am": "AM", "AM": "AM", "A.M.": "AM", "p.m.": "PM", "pm": "PM", "PM": "PM", "P.M.": "PM", "a.m": "AM", "p.m": "PM"}
ZONES = {z: z.upper() for z in ("cst", "cet", "pst", "est", "gmt")}


def read_time(got):
    """(hour, minute, second, suffix, zone)"""
    w = got.split()
    zone = w.pop() if w and w[-1] in ZONES.values() else None
    suf = w.pop() if w and w[-1] in ("AM", "PM") else None
    s = " ".join(w)
    m = re.match("^(.+) hours? (.+) minutes? and (.+) seconds?$", s)
    if m:
        return tuple(ennum.cardinal(x.split()) for x in m.groups()) + (suf, zone)
    if w and w[-1] == "o'clock":
        return ennum.cardinal(w[:-1]), 0, None, suf, zone
    v = ennum.cardinal(w)
    out = set()
    if v is not None and suf:
        out.add((v, 0, None, suf, zone))
    for k in range(1, len(w)):
        h, r = ennum.cardinal(w[:k]), w[k:]
        if r[0] in ("o", "oh"):
            mi = ennum.UNITS.get(r[1]) if len(r) == 2 else None
        else:
            mi = ennum.below100(r)
            if mi is not None and mi < 10:
                mi = None
        if h is not None and h < 24 and mi is not None:
            out.add((h, mi, None, suf, zone))
    return out


@st.composite
def clock(draw, plain=False):
    h, mi, s = draw(st.integers(0, 23)), draw(st.one_of(st.just(0), st.integers(0, 59))), draw(st.integers(0, 59))
    hh = draw(st.sampled_from(["%d", "%02d"])) % h
    if plain:
        return "%s:%02d" % (hh, mi), h, mi, None, None, None
    form = draw(st.sampled_from(["hm", "hm", "hms", "h", "h.m"]))
    suf = draw(st.sampled_from(sorted(SUFFIXES))) if form in ("h", "h.m") or draw(st.booleans()) else None
    zone = draw(st.sampled_from([None, None] + sorted(ZONES)))
    t = {"hm": "%s:%02d" % (hh, mi), "hms": "%s:%02d:%02d" % (hh, mi, s), "h": hh, "h.m": "%s.%02d" % (hh, mi)}[form]
    if suf:
        t += draw(st.sampled_from([" ", ""])) + suf
    if zone:
        t += " " + zone
    return t, h, 0 if form == "h" else mi, s if form == "hms" else None, SUFFIXES.get(suf), ZONES.get(zone)


def is_time(got, want):
    r = read_time(got)
    return want in (r if isinstance(r, set) else {r})


def chk_time(ctx, case):
    (t, *want), ci = case
    full, got = spoken(ctx["entn"], t, ci)
    ctx.nt(full)
    ctx.sample(full)
    if not is_time(got, tuple(want)):
        raise wrong(ctx["entn"], full, got, "the time %s" % (want,))


def chk_range(ctx, case):
    (t1, *w1), (t2, *w2), sep, ci = case
    full, got = spoken(ctx["entn"], t1 + sep + t2, ci)
    ctx.nt(full)
    ab = got.split(" to ")
    if len(ab) != 2 or not is_time(ab[0], tuple(w1)) or not is_time(ab[1], tuple(w2)):
        raise wrong(ctx["entn"], full, got, "%s to %s" % (w1, w2))


def chk_years(ctx, case):
    kind, a, b, ci = case
    p = ctx["entn"]
    if kind == "range":
        full, got = spoken(p, "%d-%d" % (a, b), ci)
        ab = got.split(" to ")
        ok = len(ab) == 2 and a in ennum.values(ab[0]) and b in ennum.values(ab[1])
    elif kind == "era":
        suf, say = [("B.C.", "BC"), ("A.D.", "AD")][b % 2]
        a = 100 + a % 900
        full, got = spoken(p, "%d %s" % (a, suf), ci)
        w = got.split()
        v = {ennum.cardinal(w[:-1])}
        if len(w) > 2 and ennum.UNITS.get(w[0]):
            r = ennum.below100(w[1:-1])
            v.add(ennum.UNITS[w[0]] * 100 + r if r is not None else None)
        ok = w[-1] == say and a in v
    elif kind == "decade":
        a = 20 + a % 8 * 10
        full, got = spoken(p, "'%ds" % a, ci)
        ok = got.endswith("ies") and ennum.cardinal([got[:-3] + "y"]) == a
    else:
        h, y = b % 4 + 1, 10 + a % 90
        q = "Q" if kind == "Q" or h > 2 else "H"
        full, got = spoken(p, "%d%s%d" % (h, q, y), ci)
        m = re.match("^the (\\w+) (half|quarter) of (.+)$", got)
        ok = bool(m) and ennum.ordinal(m.group(1)) == h and m.group(2) == ("half" if q == "H" else "quarter") and y in ennum.values(m.group(3))
    ctx.nt(full)
    if not ok:
        raise wrong(p, full, got, "%s %d %d" % (kind, a, b))


def chk_decade(ctx, case):
    y, pre, ci = case
    p = ctx["entn"]
    full, got = spoken(p, "%s%ds" % (pre, y), ci)
    ctx.nt(full)
    ctx.sample(full)
    say = {"": "", "mid-": "mid ", "the ": "the ", "early ": "early "}[pre]
    ok = got.startswith(say) and got.endswith("s")
    if ok:
        rest = got[len(say):]
        ok = y in ennum.values(rest[:-3] + "y" if rest.endswith("ies") else rest[:-1])
    if not ok:
        raise wrong(p, full, got, "the decade of %d" % y)


def all_numeric(stride):
    out = []
    for m in range(1, 13):
        for d in range(1, DAYS[m - 1] + 1):
            y = 1000 + (m * 331 + d * 61) % 2000
            out += [("%d-%02d-%02d" % (y, m, d), d, m, y, 0), ("%d/%d/%d" % (m, d, y), d, m, y, 0), ("%s %d" % (MONTHS[m - 1], d), d, m, None, 0)]
    return out


def all_times():
    return [(("%d:%02d" % (h, m), h, m, None, None, None), 0) for h in range(24) for m in range(60)]


def parts(tier):
    k = 10 if tier == "thorough" else 1
    n = (spec("entn"),)
    return [
        Part("numeric dates", chk_date, gen=numeric, needs=n, n=1200 * k, shards=2),
        Part("named dates", chk_date, gen=named, needs=n, n=1800 * k, shards=2),
        Part("every month and day", chk_date, enum=lambda: all_numeric(1), needs=n),
        Part("times", chk_time, gen=lambda: st.tuples(clock(), context(False)), needs=n, n=1800 * k, shards=2),
        Part("every h:mm", chk_time, enum=all_times, needs=n),
        Part("every h:mm:ss", chk_time, needs=n, enum=lambda: [(("%d:%02d:%02d" % (h, m, s), h, m, s, None, None), 0) for h, m, s in [(h, 34, 51) for h in range(24)] + [(9, m, 10) for m in range(60)] + [(18, 5, s) for s in range(60)]]
             + [(("%d:20 %s %s" % (h, x, z), h, 20, None, SUFFIXES[x], ZONES[z]), 0) for h in (1, 10) for x in sorted(SUFFIXES) for z in sorted(ZONES)]),
        Part("time ranges", chk_range, gen=lambda: st.tuples(clock(True), clock(True), st.sampled_from(["-", " - "]), context(False)), needs=n, n=500 * k),
        Part("years and periods", chk_years, gen=lambda: st.tuples(st.sampled_from(["range", "era", "decade", "Q", "H"]), st.integers(1000, 2999), st.integers(1000, 2999), context(False)), needs=n, n=500 * k),
        Part("every decade", chk_decade, enum=lambda: [(y, "", 0) for y in range(1000, 3000, 10) if y < 2100 or y % 100 == 0] + [(y, a, 0) for y in range(1700, 2100, 10) for a in ("mid-", "the ", "early ")]
             + [(y, "the ", c) for y in (1980, 1900, 2010) for c in range(6)], needs=n),
    ]

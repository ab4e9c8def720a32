"""E03: English TN keeps value and unit of amounts."""
from hypothesis import strategies as st

from checks.e01 import integers, read_fraction, read_mixed
from vlib import ennum
from vlib.core import Part, spec
from vlib.entn import context, spoken, wrong

PROPERTY = "E03"
LEVEL = "exploration"
RULE = ("Cases: currency amounts (integer, cents, with million/billion...), measurements (integer, decimal, negative, fraction, range, per "
        "unit), percentages and arithmetic, alone or in a sentence. The number words must denote the written value and the name must be "
        "that currency's or unit's, plural unless the number is one. Non-trivial: every case.")
ASSUMPTIONS = ["The table of unit and currency names in this check (unambiguous symbols only)."]

CURRENCY = {"$": ("dollar", "dollars"), "€": ("euro", "euros"), "£": ("pound", "pounds"), "¥": ("yen", "yen"), "₩": ("won", "won"),
            "US$": ("us dollar", "us dollars"), "hk$": ("hong kong dollar", "hong kong dollars"), "nzd": ("new zealand dollar", "new zealand dollars"),
            "chf": ("swiss franc", "swiss francs"), "rs": ("rupee", "rupees"), "cad": ("canadian dollar", "canadian dollars"),
            "php": ("philippine peso", "philippine pesos"), "sar": ("saudi riyal", "saudi riyals")}
UNITS = {"kg": "kilogram", "km": "kilometer", "cm": "centimeter", "mg": "milligram", "ml": "milliliter", "km2": "square kilometer",
         "km²": "square kilometer", "m²": "square meter", "m3": "cubic meter", "m2": "square meter", "cm3": "cubic centimeter", "cm2": "square centimeter",
         "lb": "pound", "oz": "ounce", "yd": "yard", "mi": "mile", "sq mi": "square mile", "nm": "nanometer", "ns": "nanosecond", "dm": "decimeter",
         "kcal": "kilo calory", "kw": "kilowatt", "kW": "kilowatt", "kwh": "kilowatt hour", "mpa": "megapascal", "kpa": "kilopascal", "db": "decibel",
         "min": "minute", "rad": "radian", "mol": "mole", "bar": "bar", "gw": "gigawatt", "tj": "terajoule", "μg": "microgram", "μm": "micrometer",
         "cm³": "cubic centimeter", "km³": "cubic kilometer", "mi2": "square mile", "mm2": "square millimeter", "cu mi": "cubic mile"}
PLURAL = {"ft": ("foot", "feet"), "sq ft": ("square foot", "square feet"), "%": ("percent", "percent"), "hz": ("hertz", "hertz"),
          "ghz": ("gigahertz", "gigahertz"), "khz": ("kilohertz", "kilohertz"), "mhz": ("megahertz", "megahertz"),
          "mph": ("mile per hour", "miles per hour"), "°C": ("degree Celsius", "degrees Celsius"), "℃": ("degree Celsius", "degrees Celsius"),
          "°F": ("degree Fahrenheit", "degrees Fahrenheit"), "mbps": ("megabit per second", "megabits per second"),
          "kbps": ("kilobit per second", "kilobits per second"), "rpm": ("revolution per minute", "revolutions per minute")}
NAMES = {u: (n, (n[:-1] + "ies") if n.endswith("y") else n + "s") for u, n in UNITS.items()}
NAMES.update(PLURAL)
QUANTITY = ["million", "billion", "trillion"]
ABBR = {"M": "million", "B": "billion", "bn": "billion", "mln": "million"}


def strip_name(got, name):
    return got[:-len(name) - 1] if got.endswith(" " + name) else None


def read_decimal(words):
    """(integer or None, fraction digits) of "twelve point oh five" (zero point five, half)"""
    a, sep, b = words.partition("point ")
    if not sep:
        return None
    return (ennum.values(a.strip()) if a.strip() else {None}), ennum.digits(b)


def decimal_ok(words, v, frac):
    """The words denote v.frac (v may be None); colloquial halves and quarters included."""
    r = read_decimal(words)
    if r:
        return v in r[0] and r[1] == frac
    for tail, f in ((" and a half", "5"), (" and a quarter", "25")):
        if words.endswith(tail):
            return frac == f and v in ennum.values(words[:-len(tail)])
    return (words == "half" and v == 0 and frac == "5") or (words == "quarter" and v == 0 and frac == "25")


def chk_money(ctx, case):
    cur, v, commas, frac, q, ci = case
    p = ctx["entn"]
    t = cur + (format(v, ",") if commas else str(v)) + ("." + frac if frac else "") + ((" " + q) if q else "")
    full, got = spoken(p, t, ci)
    ctx.nt(full)
    ctx.sample(full)
    sing, plur = CURRENCY[cur]
    trimmed = frac.rstrip("0")
    one = v == 1 and not trimmed and not q
    body = strip_name(got, sing if one else plur)
    if body is None and q:
        body = strip_name(got, plur)
    if body is None:
        raise wrong(p, full, got, "an amount of %s" % plur)
    if q:
        body = strip_name(body, q)
        if body is None:
            raise wrong(p, full, got, "an amount of %s %s" % (q, plur))
    ok = decimal_ok(body, v, trimmed) if trimmed else (v in ennum.values(body) or (q and frac and decimal_ok(body, v, frac)))
    if not ok:
        raise wrong(p, full, got, t)


def chk_measure(ctx, case):
    kind, u, v, commas, frac, neg, sp, ci = case
    p = ctx["entn"]
    sing, plur = NAMES[u]
    num = format(v, ",") if commas else str(v)
    if kind == "int":
        t = ("-" if neg else "") + num
    elif kind == "dec":
        t = ("-" if neg else "") + num + "." + frac
        if v >= 100 and not sp and u.isalpha() and 7 <= len(frac + u) <= 11:
            return       # a telephone number may have letters (800.2255all)
    else:
        t = "." + frac
    full, got = spoken(p, t + " " * sp + u, ci)
    ctx.nt(full)
    ctx.sample(full)
    ng, rest = ennum.signed(got)
    body = strip_name(rest, sing if kind == "int" and v == 1 else plur)
    if body is None or ng != (neg and kind != "point"):
        raise wrong(p, full, got, "%s %s" % (t, plur))
    ok = v in ennum.values(body) if kind == "int" else decimal_ok(body, v if kind == "dec" else None, frac)
    if not ok:
        raise wrong(p, full, got, t + " " + u)


def chk_fraction(ctx, case):
    w, a, d, u, ci = case
    p = ctx["entn"]
    full, got = spoken(p, ("%d " % w if w else "") + "%d/%d %s" % (a, d, u), ci)
    ctx.nt(full)
    body = strip_name(got, NAMES[u][1])
    if body is None or not (((w, a, d) in read_mixed(body)) if w else ((a, d) in read_fraction(body))):
        raise wrong(p, full, got, "%s %d/%d %s" % (w, a, d, u))


def chk_range(ctx, case):
    a, b, u, ci = case
    p = ctx["entn"]
    full, got = spoken(p, "%d-%d %s" % (a, b, u), ci)
    ctx.nt(full)
    body = strip_name(got, NAMES[u][1])
    ab = body.split(" to ") if body else []
    if len(ab) != 2 or a not in ennum.values(ab[0]) or b not in ennum.values(ab[1]):
        raise wrong(p, full, got, "%d to %d %s" % (a, b, u))


def chk_per(ctx, case):
    v, u, w, ci = case
    p = ctx["entn"]
    full, got = spoken(p, "%d %s/%s" % (v, u, w), ci)
    ctx.nt(full)
    body = strip_name(got, "per " + NAMES[w][0])
    body = body and strip_name(body, NAMES[u][0] if v == 1 else NAMES[u][1])
    if not body or v not in ennum.values(body):
        raise wrong(p, full, got, "%d %s per %s" % (v, u, w))


def chk_math(ctx, case):
    a, op, b, c, sp, ci = case
    p = ctx["entn"]
    names = {"+": ["plus"], "*": ["times"], "x": ["times", "by"]}[op]
    s = " " * sp
    t = "%d%s%s%s%d" % (a, s, op, s, b)
    if op == "+" and c:
        t += "%s=%s%d" % (s, s, c)
    full, got = spoken(p, t, ci)
    ctx.nt(full)
    ok = False
    for nm in names:
        ab = got.split(" %s " % nm)
        if len(ab) == 2:
            rest = ab[1].split(" equals ")
            want = [a, b] + ([c] if op == "+" and c else [])
            ok = ok or (len(want) == len(rest) + 1 and all(x in ennum.values(y) for x, y in zip(want, [ab[0]] + rest)))
    if not ok:
        raise wrong(p, full, got, t)


def parts(tier):
    k = 10 if tier == "thorough" else 1
    n = (spec("entn"),)
    b = st.booleans()
    cur, unit = st.sampled_from(sorted(CURRENCY)), st.sampled_from(sorted(NAMES))
    frac = st.text("0123456789", min_size=1, max_size=4)
    num = st.one_of(st.sampled_from([1, 1, 2, 0]), integers(0, 9))
    small = st.integers(1, 9999)
    return [
        Part("money", chk_money, gen=lambda: st.tuples(cur, num, b, st.one_of(st.just(""), frac), st.just(""), context()), needs=n, n=1600 * k, shards=2),
        Part("money with quantity", chk_money, gen=lambda: st.tuples(cur, st.integers(1, 999), st.just(False), st.one_of(st.just(""), st.text("123456789", min_size=1, max_size=2)), st.sampled_from(QUANTITY), context()), needs=n, n=500 * k),
        Part("measures", chk_measure, gen=lambda: st.tuples(st.sampled_from(["int", "int", "dec", "point"]), unit, num, b, frac, st.sampled_from([False, False, True]), st.integers(0, 1), context()), needs=n, n=2400 * k, shards=3),
        Part("every unit", chk_measure, enum=lambda: [("int", u, v, False, "5", False, sp, 0) for u in sorted(NAMES) for v in (1, 2, 37, 1500) for sp in (0, 1)], needs=n),
        Part("every currency", chk_money, enum=lambda: [(c, v, False, f, "", 0) for c in sorted(CURRENCY) for v in (0, 1, 2, 37, 1500) for f in ("", "00", "50", "05")], needs=n),
        Part("fractions of units", chk_fraction, gen=lambda: st.tuples(st.sampled_from([0, 0, 2, 17]), st.integers(1, 99), st.integers(2, 99), unit, context()), needs=n, n=400 * k),
        Part("ranges of units", chk_range, gen=lambda: st.tuples(small, small, unit, context()), needs=n, n=400 * k),
        Part("per units", chk_per, gen=lambda: st.tuples(small, unit.filter(lambda u: u != "%" and "per" not in NAMES[u][0]), unit.filter(lambda u: u != "%" and "per" not in NAMES[u][0]), context()), needs=n, n=400 * k),
        Part("arithmetic", chk_math, gen=lambda: st.tuples(small, st.sampled_from("+*x"), small, small, st.integers(0, 1), context()), needs=n, n=500 * k),
    ]

"""I04: English ITN writes spoken numbers with their value."""
import re
from fractions import Fraction

from hypothesis import strategies as st

from vlib import ennum
from vlib.core import Part, Violation, spec
from vlib.nums import shaped

PROPERTY = "I04"
LEVEL = "exploration"
RULE = ("Cases: spoken integers below 10^24 (with and without \"and\", eleven hundred forms), signed numbers, ordinals, decimals with quantities, measures over every "
        "unit and \"per\" unit, amounts over many currencies with cents and quantities, alone or in a sentence; an independent reader of the output gets "
        "the spoken value and unit. Non-trivial: the output has a digit.")
ASSUMPTIONS = ["Zero to twelve may stay in words, also after a sign.", "A thousandfold may be written as 5 million.", "A space may be left between a mark and the expression."]

NEED = (spec("enitn"),)
CONTEXTS = [("", ""), ("i have ", ""), ("there are ", " left"), ("so ", " is what we need"), ("ok, ", ", he said"), ("(", ")"), ("about ", "!")]
CI = st.integers(0, len(CONTEXTS) - 1)
SMALL = "zero one two three four five six seven eight nine ten eleven twelve".split()
MAG = {"thousand": 10 ** 3, "million": 10 ** 6, "billion": 10 ** 9, "trillion": 10 ** 12, "quadrillion": 10 ** 15, "quintillion": 10 ** 18, "sextillion": 10 ** 21}
UNITS = [x.split("=") for x in (
    "°F=fahrenheit|°C=celsius|°F=degree fahrenheit|°C=degree celsius|K=kelvin|km=kilometer|m=meter|cm=centimeter|mm=millimeter|ha=hectare|mi=mile|m²=square meter|"
    "km²=square kilometer|%=percent|hz=hertz|kW=kilowatt|kW=kilo watt|kWh=kilo watt hour|kWh=kilowatt hour|Wh=watt hour|W=watt|hp=horsepower|mg=milligram|kg=kilogram|"
    "ghz=gigahertz|khz=kilohertz|mhz=megahertz|v=volt|h=hour|s=second|nm=nanometer|rpm=revolution per minute|min=minute|mA=milli ampere|%=per cent|m³=cubic meter|"
    "mph=mile per hour|mph=miles per hour|mW=megawatt|μm=micrometer|g=gram|atm=atmosphere|ω=ohm|db=decibel|oz=ounce|kb=kilobit|mb=megabit|gb=gigabit|tb=terabit|ev=electron volt|"
    "mb=megabyte|kb=kilobyte|gb=gigabyte|tb=terabyte|bps=bit per second|kbps=kilobit per second|mbps=megabit per second|gbps=gigabit per second|tbps=terabit per second|mb/s=megabyte  per second|tb/s=terabyte per second|kb/s=kilobyte per second|"
    "gb/s=gigabyte per second|yd=yard|rad=radian|lm=lumen|mol=mole|ml=milliliter|A=ampere|kt=knot|kgf=kilogram force|ns=nanosecond|bar=bar|μs=microsecond|pa=pascal|"
    "mm²=square millimeter|cm²=square centimeter|sq mi=square mile|sq ft=square foot|kpa=kilopascal|cd=candela|mpa=megapascal|cwt=hundredweight").split("|")]
PLURAL = ("km=kilometers|m=meters|cm=centimeters|mm=millimeters|ha=hectares|mi=miles|m²=square meters|ft=feet|kW=kilowatts|W=watts|mg=milligrams|kg=kilograms|v=volts|h=hours|"
          "s=seconds|nm=nanometers|min=minutes|m³=cubic meters|g=grams|oz=ounces|gb=gigabytes|mb=megabytes|yd=yards|ml=milliliters|A=amperes|kt=knots|pa=pascals|db=decibels|"
          "sq mi=square miles|mph=miles per hour")
UNITS = sorted({(n, s) for s, n in UNITS + [x.split("=") for x in PLURAL.split("|")]})
PER = [(n, s) for n, s in UNITS if n in ("hour", "second", "minute", "meter", "kilogram", "square meter", "mile", "gram", "cubic meter")]
CURRENCIES = dict(x.split("=")[::-1] for x in (
    "$=dollar|€=euro|£=british pound|¥=yen|¥=japanese yen|$=us dollar|₩=won|a$=australian dollar|ca$=canadian dollar|r$=brazilian real|元=chinese yuan|kr=danish krone|€=euro|"
    "hk$=hong kong dollar|ft=hungarian forint|₹=indian rupee|rp=indonesian rupiah|rm=malaysian ringgit|nz$=new zealand dollar|₦=nigerian naira|₱=philippine peso|zł=polish zloty|"
    "₹=rupee|₽=russian ruble|s$=singapore dollar|₩=south korean won|kr=swedish krona|chf=swiss franc|฿=thai baht|₺=turkish lira|₿=bitcoin|$=united states dollar").split("|"))


def run(ctx, t, ci):
    a, b = CONTEXTS[ci]
    full = a + t + b
    out = ctx["enitn"].norm(full)
    rest = out[len(a):]
    # a mark after the expression may be set off by a space
    tail = b if b[:1] in (" ", "") else " ?" + re.escape(b)
    m = re.fullmatch("(.*?)" + (tail if b[:1] not in (" ", "") else re.escape(b)), rest, re.S)
    if not out.startswith(a) or not m:
        raise Violation("enitn.normalize(%r) = %r: the text around the expression is not %r ... %r" % (full, out, a, b))
    got = m.group(1).strip()
    if re.search("[0-9]", got):
        ctx.nt(full)
    ctx.sample([full, out])
    return full, got


def num(s):
    """[-]digits[.digits][ quantity] -> (negative, integer part value, decimals, quantity) or None"""
    m = re.fullmatch(r"(-?)(\d*)(?:\.(\d+))?(?: ([a-z]+))?", s)
    if not m or (not m[2] and not m[3]) or (m[4] and m[4] not in MAG) or (len(m[2]) > 1 and m[2][0] == "0"):
        return None
    return bool(m[1]), int(m[2] or 0), m[3] or "", m[4] or ""


def value(r):
    return (Fraction("%d.%s" % (r[1], r[2] or "0")) * MAG.get(r[3], 1)) * (-1 if r[0] else 1)


def bad(full, got, t):
    return Violation("enitn.normalize(%r) writes %r as %r" % (full, t, got))


def words(n, with_and):
    return ennum.int_to_words(n, with_and)


def dec(ds, o):
    return " ".join(o if c == "0" else SMALL[int(c)] for c in ds)


def integers(most=24):
    free = st.integers(1, most).flatmap(lambda k: st.integers(10 ** (k - 1) if k > 1 else 0, 10 ** k - 1))
    groups = st.lists(st.sampled_from([0, 0, 1, 2, 10, 11, 13, 20, 21, 40, 99, 100, 101, 110, 113, 120, 999]), min_size=1, max_size=(most + 2) // 3).map(
        lambda g: int("".join("%03d" % x for x in g)))
    return st.one_of(st.integers(0, 130), st.integers(0, 9999), free, groups, shaped(most, 3))


def chk_cardinal(ctx, case):
    n, and_, sign, ci = case
    t = (sign + " " if sign else "") + words(n, and_)
    full, got = run(ctx, t, ci)
    if n <= 12 and got == t:
        return
    r = num(got)
    if r is None or value(r) != (-n if sign else n) or (r[3] and (r[2] or r[3] == "thousand")):
        raise bad(full, got, t)


def chk_hundreds(ctx, case):
    """twenty one hundred [and] five"""
    h, r, and_, ci = case
    if h % 10 == 0:
        return
    t = words(h, False) + " hundred" + ((" and " if and_ else " ") + words(r, False) if r else "")
    full, got = run(ctx, t, ci)
    if got != str(h * 100 + r):
        raise bad(full, got, t)


def chk_ordinal(ctx, case):
    n, and_, ci = case
    w = words(n, and_).split()
    t = " ".join(w[:-1] + [ennum_ordinal(w[-1])])
    full, got = run(ctx, t, ci)
    suf = "th" if n % 100 in (11, 12, 13) else {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")
    if got != "%d%s" % (n, suf):
        raise bad(full, got, t)


def ennum_ordinal(w):
    irr = {"one": "first", "two": "second", "three": "third", "five": "fifth", "eight": "eighth", "nine": "ninth", "twelve": "twelfth"}
    return irr.get(w) or (w[:-1] + "ieth" if w.endswith("y") else w + "th")


def chk_decimal(ctx, case):
    neg, n, ds, o, q, ci = case
    t = ("minus " if neg else "") + (words(n, False) + " " if n is not None else "") + "point " + dec(ds, o) + (" " + q if q and n is not None else "")
    full, got = run(ctx, t, ci)
    if num(got) != (neg, n or 0, ds, q if n is not None else ""):
        raise bad(full, got, t)


def chk_measure(ctx, case):
    sign, n, ds, o, u, per, ci = case
    if not ds and ((u[0] == "hours" and n % 100 == 0) or (u[0] == "second" and n % 10 == 0)):
        return      # three hundred hours is a time, twenty second an ordinal
    if " per " in u[0] or "/" in u[1]:
        per = None
    t = (sign + " " if sign else "") + words(n, False) + (" point " + dec(ds, o) if ds else "") + " " + u[0] + (" per " + per[0] if per else "")
    want = u[1] + ("/" + per[1] if per else "")
    full, got = run(ctx, t, ci)
    ctx.label("per" if per else "unit")
    wants = {want}
    if per:
        wants |= {s for name, s in UNITS if name in (u[0] + " per " + per[0], u[0].rstrip("s") + " per " + per[0])}
    for w in wants:
        if got.endswith(" " + w):
            r = num(got[:-len(w) - 1])
            if r and r[:3] == (bool(sign), n, ds) and not r[3]:
                return
    raise bad(full, got, t)


def plural(name):
    return name if name.endswith(("yen", "won", "yuan", "baht")) else name + "s"


def chk_money(ctx, case):
    n, ds, cents, style, q, cur, ci = case
    sym = CURRENCIES[cur]
    k = MAG.get(q, 1)
    if style == "plain":
        t = words(n, False) + " " + (cur if n == 1 else plural(cur))
        want = n, ""
    elif style == "decimal":
        t = words(n, False) + " point " + dec(ds, "zero") + (" " + q if q else "") + " " + plural(cur)
        want = n, ds
    elif style == "quantity":
        n %= 1000
        if not n or not q:
            return
        t = words(n, False) + " " + q + " " + plural(cur)
        want = n, ""
    else:
        t = words(n, False) + " " + plural(cur) + (" and " if style == "and" else " ") + words(cents, False) + (" cent" if cents == 1 else " cents")
        want = n, "%02d" % cents
    k = k if style in ("decimal", "quantity") else 1
    full, got = run(ctx, t, ci)
    r = num(got[len(sym):]) if got.startswith(sym) else None
    if r is None or r[0] or value(r) != Fraction("%d.%s" % (want[0], want[1] or "0")) * k or (not r[3] and k == 1 and r[2] != want[1]):
        raise bad(full, got, t)


def chk_cents(ctx, case):
    cents, ci = case
    t = words(cents, False) + (" cent" if cents == 1 else " cents")
    full, got = run(ctx, t, ci)
    if got != "$0.%02d" % cents:
        raise bad(full, got, t)


def parts(tier):
    k = 15 if tier == "thorough" else 1
    sign = st.sampled_from(["", "", "", "minus"])
    digs = st.one_of(*[st.text("0123456789", min_size=1, max_size=6)] * 3, st.text("0123456789", min_size=7, max_size=20))
    o = st.sampled_from(["zero", "o"])
    q = st.sampled_from(["", "", "million", "billion", "trillion"])

    def P(name, check, strat, n, shards=1):
        return Part(name, check, gen=lambda: strat, needs=NEED, n=n * k, shards=shards)
    ps = [
        P("cardinals", chk_cardinal, st.tuples(integers(), st.booleans(), st.sampled_from(["", "", "minus", "negative"]), CI), 2500, 2),
        P("hundreds", chk_hundreds, st.tuples(st.integers(11, 99), st.integers(0, 99), st.booleans(), CI), 600),
        P("ordinals", chk_ordinal, st.tuples(st.one_of(st.integers(1, 130), st.integers(1, 9999), integers(9).filter(bool)), st.booleans(), CI), 1500),
        P("decimals", chk_decimal, st.tuples(st.booleans(), st.one_of(st.none(), integers(6)), digs, o, st.sampled_from(["", "", "thousand", "million", "billion", "quintillion"]), CI), 1500),
        P("measures", chk_measure, st.tuples(st.sampled_from(["", "", "minus", "negative"]), integers(6), st.one_of(st.just(""), digs), o, st.sampled_from(UNITS), st.one_of(st.none(), st.sampled_from(PER)), CI), 2500, 2),
        P("money", chk_money, st.tuples(integers(6), digs, st.integers(1, 99), st.sampled_from(["plain", "plain", "decimal", "quantity", "and", "cents"]), q, st.sampled_from(sorted(CURRENCIES)), CI), 2500, 2),
        P("cents", chk_cents, st.tuples(st.integers(1, 99), CI), 150),
    ]
    if tier == "thorough":
        ps.append(Part("all cardinals to 20000", chk_cardinal, enum=lambda: [[n, a, "", 0] for n in range(20000) for a in (False, True)], needs=NEED, shards=8))
        ps.append(Part("all ordinals to 9999", chk_ordinal, enum=lambda: [[n, False, 0] for n in range(1, 10000)], needs=NEED, shards=8))
    return ps

"""E07: English TN reads street addresses, equations and hyphenated amounts with every part."""
from hypothesis import strategies as st

from checks.e03 import NAMES, read_decimal
from checks.e04 import digits_ok
from vlib import ennum
from vlib.core import Part, spec
from vlib.entn import context, spoken, wrong

PROPERTY = "E07"
LEVEL = "exploration"
RULE = ("Cases: US street addresses (number, direction, street, suffix, city, state, zip code), equations with one operation and a letter or number on "
        "each side, radio frequencies, decimals and names joined by a hyphen, decimal multiples and units after per or a slash, alone or in a "
        "sentence. An independent reader must recover every part in the written order. Non-trivial: every case.")
ASSUMPTIONS = ["House numbers may be read as one number, in pairs or digit by digit; zip codes digit by digit."]

DIRECTION = {"E": "East", "S": "South", "W": "West", "N": "North"}
SUFFIX = {"St": "Street", "Expy": "Expressway", "Fwy": "Freeway", "Hwy": "Highway", "Dr": "Drive", "Ct": "Court", "Ave": "Avenue", "Av": "Avenue",
          "Cir": "Circle", "Blvd": "Boulevard", "Alley": "Alley", "Way": "Way", "Street": "Street", "Jct": "Junction"}
STATE = {"AL": "Alabama", "AK": "Alaska", "AZ": "Arizona", "AR": "Arkansas", "CA": "California", "CO": "Colorado", "CT": "Connecticut", "DE": "Delaware",
         "FL": "Florida", "GA": "Georgia", "HI": "Hawaii", "ID": "Idaho", "IL": "Illinois", "IND": "Indiana", "IA": "Iowa", "KS": "Kansas", "KY": "Kentucky",
         "LA": "Louisiana", "ME": "Maine", "MD": "Maryland", "MA": "Massachusetts", "MI": "Michigan", "MN": "Minnesota", "MS": "Mississippi",
         "MO": "Missouri", "MT": "Montana", "NE": "Nebraska", "NV": "Nevada", "NH": "New Hampshire", "NJ": "New Jersey", "NM": "New Mexico",
         "NY": "New York", "NC": "North Carolina", "ND": "North Dakota", "OR": "Oregon", "PA": "Pennsylvania", "RI": "Rhode Island",
         "SC": "South Carolina", "SD": "South Dakota", "TN": "Tennessee", "TX": "Texas", "UT": "Utah", "VT": "Vermont", "VA": "Virginia",
         "WA": "Washington", "WV": "West Virginia", "WI": "Wisconsin", "WY": "Wyoming"}
OPS = {"+": "plus", "-": "minus", "/": "divided", "÷": "divided", ":": "divided", "×": "times", "*": "times", "·": "times"}
STREETS = ["Elm", "Main", "San Tomas", "Park", "Curtis", "Oak Hill", "King", "Martin Luther"]
CITIES = ["Santa Clara", "New York", "Austin", "Los Angeles", "Springfield", "Salt Lake City"]


def nth_(v):
    return "%d%s" % (v, "th" if v // 10 % 10 == 1 else {1: "st", 2: "nd", 3: "rd"}.get(v % 10, "th"))


def house_ok(head, num, direct, nth):
    w = head.split()
    if not nth:
        return digits_ok(w, str(num))
    for i in range(1, len(w)):
        j = i + bool(direct)
        if digits_ok(w[:i], str(num)) and (not direct or w[i] == DIRECTION[direct]) and ennum.ordinal(" ".join(w[j:])) == nth:
            return True
    return False


def chk_address(ctx, case):
    num, direct, dot, street, suffix, city, state, zipc, ci = case
    p = ctx["entn"]
    nth = street if isinstance(street, int) else 0
    t = "%d%s %s %s" % (num, (" " + direct + "." * dot) if direct else "", nth_(nth) if nth else street, suffix)
    want = SUFFIX[suffix] if nth else "%s %s %s" % (DIRECTION.get(direct, ""), street, SUFFIX[suffix])
    if zipc:
        t += (", " + city if city else "") + (", " + state if state else "") + " " + zipc
        want += (", " + city if city else "") + (", " + STATE[state] if state else "") + " "
    full, got = spoken(p, t, ci)
    ctx.nt(full)
    ctx.sample(full)
    want = want.strip() + " " * bool(zipc)
    head, sep, tail = got.partition(want)
    if not sep or not house_ok(head, num, direct, nth) or (ennum.digits(tail) != zipc if zipc else tail):
        raise wrong(p, full, got, "%s%s%s" % (num, want, zipc))


def chk_equation(ctx, case):
    a, op, b, c, left, ci = case
    p = ctx["entn"]
    t = "%s %s %s = %s" % (a, op, b, c) if left else "%s = %s %s %s" % (c, a, op, b)
    full, got = spoken(p, t, ci)
    ctx.nt(full)
    ctx.sample(full)
    sides = got.split(" equals ")
    ok = len(sides) == 2
    if ok:
        ab, cc = sides if left else sides[::-1]
        x = ab.split(" %s " % OPS[op])
        ok = len(x) == 2 and all(same(w, v) for w, v in zip(x + [cc], (a, b, c)))
    if not ok:
        raise wrong(p, full, got, t)


def same(w, v):
    return w == v if v.isalpha() else int(v) in ennum.values(w)


def dec_is(words, v, frac):
    r = read_decimal(words)
    return bool(r) and v in r[0] and r[1] == frac


def chk_decimal(ctx, case):
    kind, v, frac, unit, sp, ci = case
    p = ctx["entn"]
    t = "%d.%s" % (v, frac) + {"fm": " " * sp + unit, "-": "-" + unit, "x": "xX"[sp]}[kind]
    if kind == "-" and v >= 100:
        return           # 800.123-abcd is a telephone number
    full, got = spoken(p, t, ci)
    ctx.nt(full)
    ctx.sample(full)
    tails = [" times", " x"] if kind == "x" else [" " + unit]
    if not any(got.endswith(e) and dec_is(got[:-len(e)], v, frac) for e in tails):
        raise wrong(p, full, got, t)


def chk_joined(ctx, case):
    word, v, first, ci = case
    p = ctx["entn"]
    t = "%d-%s" % (v, word) if first else "%s-%d" % (word, v)
    full, got = spoken(p, t, ci)
    ctx.nt(full)
    ctx.sample(full)
    if first:
        ok = got.endswith("-" + word) and digits_ok(got[:-len(word) - 1].split(), str(v))
    else:
        ok = got.startswith(word + "-") and digits_ok(got[len(word) + 1:].split(), str(v))
    if not ok:
        raise wrong(p, full, got, t)


def chk_per(ctx, case):
    u, form, ci = case
    p = ctx["entn"]
    full, got = spoken(p, form % u, ci)
    ctx.nt(full)
    if got != "per " + NAMES[u][0]:
        raise wrong(p, full, got, "per " + NAMES[u][0])


def parts(tier):
    k = 10 if tier == "thorough" else 1
    n = (spec("entn"),)
    house = st.one_of(st.integers(1, 9999), st.integers(1, 9999), st.integers(1, 99999))
    zipc = st.text("0123456789", min_size=5, max_size=5)
    side = st.one_of(st.integers(1, 99999).map(str), st.sampled_from("abcxyzn"))
    frac = st.text("0123456789", min_size=1, max_size=3)
    plain = st.sampled_from([0, 1, 2, 3, 5])
    name = st.sampled_from("covid type apollo model screen inch mile year bit step level phase".split())
    return [
        Part("addresses", chk_address, gen=lambda: st.tuples(house, st.sampled_from(["", "", "E", "S", "W", "N"]), st.integers(0, 1), st.one_of(st.sampled_from(STREETS), st.sampled_from(STREETS), st.integers(1, 999)), st.sampled_from(sorted(SUFFIX)),
                                                            st.sampled_from(["", *CITIES]), st.sampled_from(["", *sorted(STATE)]), st.one_of(st.just(""), zipc), st.sampled_from([0, 1, 2])),
             needs=n, n=900 * k, shards=2),
        Part("every state and suffix", chk_address, enum=lambda: [(120, "", 0, "Park", s, "", "", "", 0) for s in sorted(SUFFIX)] + [(120, "N", 0, "Park", "Ave", "Austin", s, "10017", 0) for s in sorted(STATE)],
             needs=n),
        Part("every house number", chk_address, enum=lambda: [(v, "", 0, "Elm", "Dr", "", "", "", 0) for v in range(1, 10000, 13 if k == 1 else 1)]
             + [(v, "", 0, s, "Ave", "", "", "", 0) for v in (7, 205, 1450) for s in range(1, 200 if k == 1 else 1000)], needs=n),
        Part("equations", chk_equation, gen=lambda: st.tuples(side, st.sampled_from(sorted(OPS)), st.integers(1, 99999).map(str), side, st.booleans(), plain), needs=n, n=900 * k),
        Part("decimals and names", chk_decimal, gen=lambda: st.one_of(
            st.tuples(st.just("fm"), st.integers(25, 1999), frac, st.sampled_from(["FM", "AM"]), st.integers(0, 1), plain),
            st.tuples(st.just("-"), st.integers(0, 1999), frac, st.sampled_from(["inch", "mile", "liter", "year", "bit"]), st.just(0), plain),
            st.tuples(st.just("x"), st.integers(0, 1999), frac, st.just(""), st.integers(0, 1), plain)), needs=n, n=600 * k),
        Part("numbers and names", chk_joined, gen=lambda: st.tuples(name, st.integers(0, 99999), st.booleans(), plain), needs=n, n=500 * k),
        Part("units after per", chk_per, enum=lambda: [(u, f, c) for u in sorted(NAMES) if u != "%" for f in ("/%s", "per %s") for c in (0, 2)], needs=n),
    ]

"""I05: English ITN writes dates, times, digit strings and addresses losslessly."""
import os
import re

from hypothesis import strategies as st

from vlib import ennum
from vlib.core import Part, Violation, spec

PROPERTY = "I05"
LEVEL = "exploration"
RULE = ("Cases: spoken dates, years, decades, quarters and eras, clock times with past/to, suffixes and zones, digit strings of 3 to 16 digits (double, triple, "
        "tens) with country codes, IP addresses, and spelled e-mail addresses and URLs, alone or in a sentence; the written form is predicted. "
        "Non-trivial: the output has a digit, @ or a dot.")
ASSUMPTIONS = ["Forms that are also other things are left out: ten thirty and ten o five without a.m./p.m., nineteen o five.",
               "A name inside an address is one word, or characters, between symbols, and holds no abbreviation of the whitelist (g t x).",
               "Digit strings are compared with their separators removed, except for the 10-, 9- and 16-digit shapes."]

NEED = (spec("enitn"),)
CONTEXTS = [("", ""), ("it was on ", ""), ("we met ", " again"), ("born ", ", they say"), ("(", ")"), ("", "!"), ("look: ", "")]
CI = st.integers(0, len(CONTEXTS) - 1)
MONTHS = "january february march april may june july august september october november december".split()
SMALL = "zero one two three four five six seven eight nine".split()
W = ennum.int_to_words


def run(ctx, t, ci, want):
    a, b = CONTEXTS[ci]
    full = a + t + b
    out = ctx["enitn"].norm(full)
    if re.search("[0-9@.]", out):
        ctx.nt(full)
    ctx.sample([full, out])
    # spaces around marks are not fixed
    m = re.fullmatch(re.escape(a) + " ?(.*?) ?" + re.escape(b), out, re.S)
    got = m.group(1) if m else None
    ok = want(got) if callable(want) and m else got == want
    if not ok:
        raise Violation("enitn.normalize(%r) = %r%s" % (full, out, "" if callable(want) else ", expected %r in place of %r" % (want, t)))


def ordw(n):
    w = W(n).split()
    irr = {"one": "first", "two": "second", "three": "third", "five": "fifth", "eight": "eighth", "nine": "ninth", "twelve": "twelfth"}
    last = w[-1]
    return " ".join(w[:-1] + [irr.get(last) or (last[:-1] + "ieth" if last.endswith("y") else last + "th")])


def yearw(y, style):
    """1300-2999 as people say them"""
    hi, lo = divmod(y, 100)
    if y // 1000 == 2 and (style == "thousand" or hi % 10 == 0):
        return W(y)
    if y // 1000 == 2 and style == "and" and hi % 10 == 0:
        return W(y, True)
    if lo == 0:
        return W(hi) + " hundred" if hi % 10 else W(y)
    return W(hi) + " " + (("o " if style == "thousand" else "oh ") + W(lo) if lo < 10 else W(lo))


def chk_date(ctx, case):
    form, m, d, card, y, ys, ci = case
    month, yw = MONTHS[m - 1], yearw(y, ys)
    day = W(d) if card else ordw(d)
    ctx.label(form)
    if form == "mdy":
        t, want = "%s %s %s" % (month, ordw(d), yw), "%s %d %d" % (month, d, y)
    elif form == "md":
        t, want = "%s %s" % (month, day), "%s %d" % (month, d)
    elif form == "my":
        t, want = "%s %s" % (month, yw), "%s %d" % (month, y)
    elif form == "dmy":
        t, want = "the %s of %s %s" % (ordw(d), month, yw), "%d %s %d" % (d, month, y)
    elif form == "dm":
        t, want = "the %s of %s" % (ordw(d), month), "%d %s" % (d, month)
    else:
        t, want = yw, str(y)
    run(ctx, t, ci, want)


def chk_period(ctx, case):
    form, y, k, era, ci = case
    hi, lo = divmod(y, 100)
    tens = ["", "tens", "twenties", "thirties", "forties", "fifties", "sixties", "seventies", "eighties", "nineties"]
    ctx.label(form)
    if form == "decade":
        if lo < 10:
            return
        t, want = "%s %s" % (W(hi), tens[lo // 10]), "%d0s" % (y // 10)
    elif form == "century":
        t, want = ("%s hundreds" % W(hi), "%d00s" % hi) if hi % 10 else ("two thousands", "2000s")
    elif form == "quarter":
        t, want = "%s quarter of %s" % (["first", "second", "third", "fourth"][k], yearw(y, "")), "Q%d %d" % (k + 1, y)
    elif form == "half":
        t, want = "%s half of %s" % (["first", "second"][k % 2], yearw(y, "")), "H%d %d" % (k % 2 + 1, y)
    else:
        w = {"b c": "BC", "a d": "AD", "b c e": "BCE", "c e": "CE", "before common era": "BCE", "common era": "CE"}
        t, want = "%s %s" % (yearw(y, ""), era), "%d %s" % (y, w[era])
        if k == 1:      # seven fifty b c
            y = (hi % 9 + 1) * 100 + lo
            if lo:
                t, want = "%s %s %s" % (W(y // 100), "oh " + W(lo) if lo < 10 else W(lo), era), "%d %s" % (y, w[era])
    run(ctx, t, ci, lambda got: got is not None and got in (want, want.replace(" ", "")) if form == "era" else got == want)


ZONES = {"c s t": "cst", "c e t": "cet", "p s t": "pst", "e s t": "est", "p t": "pt", "e t": "et", "g m t": "gmt"}
NOON = {"p m": "p.m.", "pm": "p.m.", "p.m.": "p.m.", "am": "a.m.", "a m": "a.m.", "a.m.": "a.m."}


def chk_time(ctx, case):
    form, h, m, noon, zone, ci = case
    h12 = (h - 1) % 12 + 1
    tail = (" " + noon, " " + NOON[noon]) if noon else ("", "")
    ctx.label(form)
    if zone and noon:
        # minutes to the hour have no zone
        tail = tail if form == "to" else (tail[0] + " " + zone, tail[1] + " " + ZONES[zone])
    if form == "hm":
        if not noon and (h > 9 or m == 0 or (h12, m) == (7, 11)):
            return      # ten thirty may be the year 1030; seven eleven is the shop (whitelist)
        if m == 0:
            t = W(h12) + tail[0]
        else:
            t = W(h12) + " " + ("o " if m < 10 else "") + W(m) + tail[0]
        want = "%02d:%02d%s" % (h12, m, tail[1])
    elif form == "oclock":
        t, want = W(h) + " " + ["o'clock", "o clock", "oclock", "hundred hours"][m % 4], "%02d:00" % h
        if zone:
            t, want = t + " " + zone, want + " " + ZONES[zone]
    elif form == "past":
        mm, w = {0: (15, "quarter"), 1: (30, "half")}.get(m, (m, W(m)))
        t, want = "%s past %s" % (w, W(h)), "%02d:%02d" % (h, mm)
    elif form == "quarter to":
        t, want = "quarter %s %s" % ("to" if m % 2 else "till", W(h12)), "%02d:45" % ((h12 - 2) % 12 + 1)
    else:
        if not noon or not m:
            return
        t = W(m) + [" ", " minutes " if m > 1 else " minute ", " min "][m % 3] + ("to " if h % 2 else "till ") + W(h12) + tail[0]
        want = "%02d:%02d%s" % ((h12 - 2) % 12 + 1, 60 - m, tail[1])
    run(ctx, t, ci, want)


def spell(ds, styles):
    """Digits in words: one by one, with double and triple, or tens where they fit; styles picks."""
    out, i, k = [], 0, 0
    o = ["zero", "o", "oh"]
    while i < len(ds):
        s = styles[k % len(styles)]
        k += 1
        d = ds[i]
        one = o[s // 8 % 3] if d == "0" else SMALL[int(d)]
        if s % 4 == 1 and ds[i:i + 2] == d * 2:
            out.append("double " + one)
            i += 2
        elif s % 4 == 2 and ds[i:i + 3] == d * 3:
            out.append("triple " + one)
            i += 3
        else:
            out.append(one)
            i += 1
    return " ".join(out)


def shape(ds):
    return {9: "\\d{3}-\\d\\d-\\d{4}", 10: "\\d{3}-\\d{3}-\\d{4}", 16: "\\d{4} \\d{4} \\d{4} \\d{4}"}.get(len(ds), ".*")


def chk_digits(ctx, case):
    ds, styles, ci = case
    if len(ds) not in (9, 10, 14, 15, 16):
        styles = [0]      # double, triple and o only in the known shapes
    t = spell(ds, styles)
    run(ctx, t, ci, lambda got: got is not None and re.sub("[- ]", "", got) == ds and re.fullmatch(shape(ds), got))


def chk_phone(ctx, case):
    cc, ds, styles, ci = case
    t = "plus " + spell(cc, [0]) + " " + spell(ds, styles)
    run(ctx, t, ci, "+%s %s-%s-%s" % (cc, ds[:3], ds[3:6], ds[6:]))


def chk_ip(ctx, case):
    groups, styles, ci = case
    t = " dot ".join(spell(str(g), [s if s % 4 == len(str(g)) - 1 else s // 4 * 4]) for g, s in zip(groups, styles))
    run(ctx, t, ci, ".".join(map(str, groups)))


SYM = {"dot": ".", "dash": "-", "hyphen": "-", "underscore": "_"}


def part_(p):
    """[word or characters, spelled?] -> (spoken, written)"""
    s, spelled = p
    if spelled or len(s) < 2 or not s.isalpha():
        return " ".join(SMALL[int(c)] if c.isdigit() else c for c in s), s
    return s, s


def chk_email(ctx, case):
    user, seps, host, ci = case
    ps = [part_(p) for p in user]
    t, want = ps[0]
    for sep, p in zip(seps, ps[1:]):
        t, want = t + " " + sep + " " + p[0], want + SYM[sep] + p[1]
    hs = [part_(p) for p in host]
    t += " at " + " dot ".join(h[0] for h in hs)
    want += "@" + ".".join(h[1] for h in hs)
    if abbreviated(t):
        return
    run(ctx, t, ci, want)


def chk_url(ctx, case):
    proto, www, host, path, ci = case
    hs = [part_(p) for p in host]
    ps = [part_(p) for p in path]
    t = {"": "", "http": "h t t p colon slash slash ", "https": "h t t p s colon slash slash "}[proto] + ("w w w dot " if www else "") + " dot ".join(h[0] for h in hs)
    want = (proto + "://" if proto else "") + ("www." if www else "") + ".".join(h[1] for h in hs)
    for p in ps:
        t, want = t + " slash " + p[0], want + "/" + p[1]
    if abbreviated(t):
        return
    run(ctx, t, ci, want)


# abbreviations the whitelist writes in capitals (g t x), as in the pinned version
SPELLED = [" %s " % x.strip() for x in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib/data/en_itn_spelled.txt"))]


def abbreviated(t):
    return any(x in " %s " % t for x in SPELLED)


RESERVED = set(SMALL) | set("at dot dash hyphen underscore asterisk plus slash comma tilde quote ampersand circumflex".split())


def parts(tier):
    k = 12 if tier == "thorough" else 1
    year = st.one_of(st.integers(1300, 2099), st.sampled_from([1900, 1905, 1999, 2000, 2001, 2005, 2010, 2012, 2020, 2024, 1800, 1666, 1507]))
    word = st.one_of(st.sampled_from("gmail nvidia outlook john mary smith news mail info my foo bar example support hello com org ai co uk".split()),
                     st.text("abcdefghijklmnopqrstuvwxyz", min_size=2, max_size=6)).filter(lambda w: w not in RESERVED)
    piece = st.one_of(st.tuples(word, st.booleans()), st.tuples(st.text("abcdefghijklmnopqrstuvwxyz0123456789", min_size=1, max_size=6).filter(lambda w: w not in RESERVED), st.just(True)))
    host = st.lists(piece, min_size=2, max_size=3)
    styles = st.lists(st.integers(0, 23), min_size=1, max_size=6)
    ds = st.one_of(st.integers(3, 16), st.sampled_from([9, 10, 10, 16])).flatmap(lambda n: st.text("0123456789", min_size=n, max_size=n))
    runs = st.lists(st.tuples(st.sampled_from("0123456789"), st.integers(1, 3)), min_size=3, max_size=6).map(lambda x: "".join(c * n for c, n in x)[:16]).filter(lambda s: len(s) > 2)

    def P(name, check, strat, n, shards=1):
        return Part(name, check, gen=lambda: strat, needs=NEED, n=n * k, shards=shards)
    ps = [
        P("dates", chk_date, st.tuples(st.sampled_from(["mdy", "md", "my", "dmy", "dm", "y"]), st.integers(1, 12), st.integers(1, 31), st.booleans(), year,
                                       st.sampled_from(["pair", "thousand", "and"]), CI), 1800),
        P("periods", chk_period, st.tuples(st.sampled_from(["decade", "century", "quarter", "half", "era"]), year, st.integers(0, 3),
                                           st.sampled_from(["b c", "a d", "b c e", "c e", "before common era", "common era"]), CI), 1000),
        P("times", chk_time, st.tuples(st.sampled_from(["hm", "hm", "oclock", "past", "quarter to", "to"]), st.integers(1, 23), st.integers(0, 59),
                                       st.sampled_from([""] + sorted(NOON)), st.sampled_from(["", ""] + sorted(ZONES)), CI), 2000, 2),
        Part("every clock field", chk_time, needs=NEED, enum=lambda: [[f, h, m, "", "", 0] for f in ("hm", "oclock", "past", "to", "quarter to") for h, m in [(h, 25) for h in range(1, 24)] + [(4, m) for m in range(1, 60)]]
             + [[f, 8, 40, n, z, 0] for f in ("hm", "oclock", "past", "to") for n in [""] + sorted(NOON) for z in [""] + sorted(ZONES)]),
        Part("every date field", chk_date, needs=NEED, enum=lambda: [[f, m, d, c, y, s, 0] for f, s, c in (("mdy", "pair", False), ("mdy", "and", True), ("dmy", "thousand", False), ("md", "pair", True), ("md", "pair", False), ("dm", "pair", False), ("my", "pair", False))
                                                                     for m, d, y in [(m, 13, 1970 + m) for m in range(1, 13)] + [(5, d, 2000 + d) for d in range(1, 32)]]
             + [["y", 1, 1, False, y, s, 0] for y in range(1901, 2030) for s in ("pair", "thousand")]),
        Part("every decade", chk_period, needs=NEED, enum=lambda: [["decade", y, 0, "", 0] for y in range(1000, 3000, 10)] + [["century", y, 0, "", 0] for y in range(1100, 2200, 100)]),
        P("digit strings", chk_digits, st.tuples(st.one_of(ds, runs), styles, CI), 1500),
        P("country codes", chk_phone, st.tuples(st.text("123456789", min_size=1, max_size=3), st.text("0123456789", min_size=10, max_size=10), styles, CI), 500),
        P("IP", chk_ip, st.tuples(st.lists(st.integers(0, 255), min_size=4, max_size=4), st.lists(st.integers(0, 23), min_size=4, max_size=4), CI), 600),
        P("e-mail", chk_email, st.tuples(st.lists(piece, min_size=1, max_size=3), st.lists(st.sampled_from(sorted(SYM)), min_size=2, max_size=2), host, CI), 1000),
        P("URL", chk_url, st.tuples(st.sampled_from(["", "http", "https"]), st.booleans(), host, st.lists(piece, max_size=2), CI), 1000),
    ]
    if tier == "thorough":
        ps.append(Part("all times", chk_time, enum=lambda: [[f, h, m, n, "", 0] for f in ("hm", "oclock", "past", "to", "quarter to") for h in range(1, 24) for m in range(60) for n in ("", "pm", "a m")
                                                            if not (f == "past" and m == 0)], needs=NEED, shards=8))
        ps.append(Part("all years", chk_date, enum=lambda: [["y", 1, 1, False, y, s, 0] for y in range(1300, 2100) for s in ("pair", "thousand", "and")], needs=NEED, shards=8))
    return ps

"""E04: English TN spells codes, addresses and phone numbers losslessly."""
import re

from hypothesis import strategies as st

from vlib import ennum
from vlib.core import Part, spec
from vlib.entn import context, spoken, wrong

PROPERTY = "E04"
LEVEL = "exploration"
RULE = ("Cases: e-mail addresses, URLs, telephone numbers with country code and extension, SSNs, IP addresses and letter-digit codes, alone "
        "or in a sentence. The written characters must be recoverable in order: letters as they are, digits from a reading of each digit "
        "run, symbols from their names. Non-trivial: every case.")
ASSUMPTIONS = ["Letters may be split into words and change case (dictionary words, top-level domains).",
               "A digit run may be read as a number, digit by digit or in consecutive pieces."]

SYMBOLS = {".": "dot", "-": "dash", "_": "underscore", "/": "slash", ":": "colon", "@": "at"}
# the symbols of e-mail addresses and URLs, and those of codes, have names of their own
ADDRESS = dict(SYMBOLS, **{"!": "exclamation mark", "#": "number sign", "$": "dollar sign", "%": "percent", "&": "ampersand", "*": "asterisk", "+": "plus",
                           "=": "equal sign", "?": "question mark", "^": "circumflex", "|": "vertical bar", "~": "tilde"})
CODE = dict(SYMBOLS, **{"&": "and", "#": "hash", "%": "percent", "*": "asterisk", "+": "plus", "=": "equal sign", "^": "circumflex", "|": "vertical bar",
                        "~": "tilde", "$": "dollar", "£": "pound", "€": "euro", "°": "degree", "®": "registered trademark", "™": "trademark"})


# letters that are a currency's code before a number
MONEY = "dh aed awg cad chf crc cve cyp czk dkk dm fim mro mvr nok npr nzd php pkr r rs rsd sar scr sek shp ssp tzs".split()


def amount(text):
    m = re.match("([A-Za-z]+)\\d", text)
    return bool(m) and m[1].lower() in MONEY


def segments(text, names=SYMBOLS):
    """[("L", letters) | ("D", digits) | ("S", name)]"""
    out = []
    for c in text:
        k = "D" if c.isdigit() else "L" if c.isalpha() else "S"
        if k == "S":
            out += [["S", w] for w in names[c].split()]
        elif out and out[-1][0] == k:
            out[-1][1] += c
        else:
            out.append([k, c])
    return out


def digits_ok(words, d):
    if not words or not d:
        return False
    if ennum.digits(" ".join(words)) == d:
        return True
    if d[0] == "0":
        # leading zeros one by one, the rest as a number
        z = len(d) - len(d.lstrip("0"))
        return len(words) > z and ennum.digits(" ".join(words[:z])) == "0" * z and digits_ok(words[z:], d[z:])
    if int(d) in ennum.values(" ".join(words)):
        return True
    # a run may be read in pieces: 330 0, or 3 thousand
    for n in range(len(words) - 1, 0, -1):
        v = ennum.values(" ".join(words[:n])) | ({0} if words[:n] in (["oh"], ["o"]) else set())
        for x in v:
            if d.startswith(str(x)) and len(str(x)) < len(d) and digits_ok(words[n:], d[len(str(x)):]):
                return True
    return words[0] == "thousand" and d.startswith("000") and (len(words) == 1 and d == "000" or digits_ok(words[1:], d[3:]))


def recover(words, segs):
    """Can the words be read as the segments, in order?"""
    if not segs:
        return not words
    if not words:
        return False
    k, v = segs[0]
    if k == "S":
        return words[0] == v and recover(words[1:], segs[1:])
    for n in range(1, len(words) + 1):
        if k == "L":
            got = "".join(words[:n]).lower()
            if got == v.lower() and recover(words[n:], segs[1:]):
                return True
            if not v.lower().startswith(got):
                return False
        elif digits_ok(words[:n], v) and recover(words[n:], segs[1:]):
            return True
    return False


def chk_address(ctx, case):
    t, ci = case
    p = ctx["entn"]
    full, got = spoken(p, t, ci)
    ctx.nt(full)
    ctx.sample(full)
    if not recover(got.split(), segments(t, ADDRESS)):
        raise wrong(p, full, got, "a spelling of %r" % t)


WORD = st.one_of(st.sampled_from("alice bob wenet speech mail news shop cloud blue rain zed qux kind".split()),
                 st.text("abcdefghijklmnopqrstuvwxyz", min_size=2, max_size=6))
TLD = st.sampled_from(["com", "org", "net", "gov", "edu", "info", "uk", "fr", "de"])
DIG = st.text("0123456789", min_size=1, max_size=4)


@st.composite
def email(draw):
    t = draw(WORD)
    for _ in range(draw(st.integers(0, 3))):
        t += draw(st.one_of(DIG, st.sampled_from("._-").flatmap(lambda s: WORD.map(lambda w: s + w)), st.sampled_from("_+!#%&*=?|~").flatmap(lambda s: WORD.map(lambda w: s + w))))
    return t + "@" + draw(WORD) + draw(st.one_of(st.just(""), st.sampled_from(".-").flatmap(lambda s: WORD.map(lambda w: s + w)))) + "." + draw(TLD)


@st.composite
def url(draw):
    pre = draw(st.sampled_from(["www.", "http://", "https://", "https://www.", "http://www.", "", "file:///"]))
    if pre == "file:///":
        return pre + "/".join(draw(st.lists(WORD, min_size=1, max_size=4)))
    host = draw(WORD) + draw(st.one_of(st.just(""), WORD.map(lambda w: "-" + w)))
    path = draw(st.one_of(st.just(""), st.lists(st.one_of(WORD, WORD.flatmap(lambda w: DIG.map(lambda d: w + d))), min_size=1, max_size=2).map(lambda x: "/" + "/".join(x))))
    if path and draw(st.booleans()):
        path += "".join(draw(st.lists(st.tuples(st.sampled_from("_+!#&*=?|~%-"), st.one_of(WORD, DIG)), min_size=1, max_size=3).map(lambda x: [a + b for a, b in x])))
    return pre + host + "." + draw(TLD if pre else st.sampled_from(["com", "org", "net", "gov", "fr", "de"])) + path


# ------------------------------------------------------------------ numbers
def phone_words(got):
    """Digits of a telephone reading: plus -> +, eight hundred -> 800, letters kept."""
    w, out, i = got.replace(",", " ").split(), [], 0
    while i < len(w):
        if w[i] == "plus":
            out.append("+")
        elif w[i] == "dot":
            out.append(".")
        elif w[i] == "eight" and i + 1 < len(w) and w[i + 1] == "hundred":
            out.append("800")
            i += 1
        else:
            d = ennum.digits(w[i])
            out.append(d if d else "?" + w[i])
        i += 1
    return "".join(out)


def chk_phone(ctx, case):
    t, ci = case
    p = ctx["entn"]
    full, got = spoken(p, t, ci)
    ctx.nt(full)
    ctx.sample(full)
    if phone_words(got) != "".join(c for c in t if c.isdigit() or c == "+" or (c == "." and t.count(".") == 3)):
        raise wrong(p, full, got, "the digits of %r" % t)


PROMPTS = ["call me at", "reached at", "my number is", "hit me up at"]


def chk_prompt(ctx, case):
    prompt, t, ci = case
    p = ctx["entn"]
    full, got = spoken(p, prompt + " " + t, ci)
    ctx.nt(full)
    ctx.sample(full)
    if not got.lower().startswith(prompt.lower() + " ") or phone_words(got[len(prompt):]) != "".join(c for c in t if c.isdigit() or c == "+" or (c == "." and t.count(".") == 3)):
        raise wrong(p, full, got, "%s and the digits of %r" % (prompt, t))


@st.composite
def prompted(draw):
    prompt = draw(st.sampled_from(PROMPTS + ["IP is", "IP address is", "ssn is", "SSN is", "SSN"]))
    t = draw(phone(["ip"] if prompt[:2] == "IP" else ["ssn"] if prompt[0] in "sS" else ["us"]))
    return prompt, t


def chk_vanity(ctx, case):
    cc, area, form, letters, digits, ci = case
    p = ctx["entn"]
    body = "".join(letters[i] if c == "L" else digits[i] if c == "D" else c for i, c in enumerate(form))
    full, got = spoken(p, cc + area + "-" + body, ci)
    ctx.nt(full)
    ctx.sample(full)
    segs = segments(body.replace("-", ""))
    w = got.replace(",", " ").split()
    cut = next((i for i in range(1, len(w)) if phone_words(" ".join(w[:i])) == (cc + area).replace("-", "").replace(" ", "") and recover(w[i:], segs)), None)
    if not cut:
        raise wrong(p, full, got, "a spelling of %r" % (cc + area + "-" + body))


def dg(n):
    return st.text("0123456789", min_size=n, max_size=n)


@st.composite
def phone(draw, kinds=("us", "us", "ssn", "ip")):
    kind = draw(st.sampled_from(kinds))
    if kind == "ssn":
        return "%s-%s-%s" % (draw(dg(3)), draw(dg(2)), draw(dg(4)))
    if kind == "ip":
        return ".".join(str(draw(st.integers(0, 255))) for _ in range(4))
    area = draw(st.one_of(dg(3), dg(3), st.just("800")))
    sep = draw(st.sampled_from("-."))
    body = draw(dg(3)) + sep + draw(dg(4))
    t = draw(st.sampled_from(["%s" + sep, "(%s) ", "(%s)-"])) % area + body
    cc = draw(st.sampled_from(["", "", "+1 ", "+1-", "1-", "+44 ", "+123 "]))
    ext = draw(st.one_of(st.just(""), st.integers(1, 9999).map(lambda v: "-%d" % v))) if sep == "-" else ""
    return cc + t + ext


# ------------------------------------------------------------------ serials
@st.composite
def serial(draw):
    L = st.text("BCDEFGHJKLPQRSTUVWXYZ", min_size=1, max_size=3)
    D = st.one_of(st.integers(0, 99).map(str), st.integers(0, 99999).map(str), dg(3), dg(7))
    form = draw(st.sampled_from(["LD", "LDL", "L-D", "L-D-L", "L-D-D", "L-D/D", "LDLD"]))
    return "".join(draw(L) if c == "L" else draw(D) if c == "D" else c for c in form)


def chk_serial(ctx, case):
    t, ci = case
    if amount(t):
        return
    p = ctx["entn"]
    full, got = spoken(p, t, ci)
    ctx.nt(full)
    ctx.sample(full)
    words, segs = got.replace("-", " dash ").replace("/", " slash ").split(), segments(t)
    if not recover(words, segs):
        raise wrong(p, full, got, "a spelling of %r" % t)


def chk_symbol(ctx, case):
    """a code with one symbol of the whitelist in it"""
    t, ci = case
    if amount(t) or "=" in t and re.search("[-+*]", t):     # B-0=0 is an equation
        return
    p = ctx["entn"]
    full, got = spoken(p, t, ci)
    ctx.nt(full)
    ctx.sample(full)
    if not recover(got.replace("-", " dash ").split(), segments(t, CODE)):
        raise wrong(p, full, got, "a spelling of %r" % t)


def chk_power(ctx, case):
    base, e, ci = case
    p = ctx["entn"]
    full, got = spoken(p, "%s^%d" % (base, e), ci)
    ctx.nt(full)
    ctx.sample(full)
    for tail in ({2: " squared", 3: " cubed"}[e], {2: " circumflex two", 3: " circumflex three"}[e]):
        if got.endswith(tail) and recover(got[:-len(tail)].split(), segments(base)):
            return
    raise wrong(p, full, got, "%s to the power of %d" % (base, e))


@st.composite
def symbolic(draw):
    L = st.text("BCDEFGHJKLPQRSTUVWXYZ", min_size=1, max_size=3)
    D = st.one_of(st.integers(0, 99).map(str), st.integers(0, 99999).map(str), dg(3), dg(7))
    form = draw(st.sampled_from(["LSD", "LSLD", "LDSD", "LDSL", "DSDSL", "L-DSD", "LSDSL"]))
    return "".join(draw({"L": L, "D": D, "S": st.sampled_from("&#@_=|~%+^")}[c]) if c != "-" else c for c in form)


def parts(tier):
    k = 10 if tier == "thorough" else 1
    n = (spec("entn"),)
    return [
        Part("e-mail addresses", chk_address, gen=lambda: st.tuples(email(), context(False)), needs=n, n=1000 * k, shards=2),
        Part("urls", chk_address, gen=lambda: st.tuples(url(), context(False)), needs=n, n=1000 * k, shards=2),
        Part("telephone, ssn, ip", chk_phone, gen=lambda: st.tuples(phone(), context(False)), needs=n, n=1500 * k, shards=2),
        Part("letter-digit codes", chk_serial, gen=lambda: st.tuples(serial(), st.sampled_from([0, 1, 2, 3, 4])), needs=n, n=1200 * k, shards=2),
        Part("every area code and octet", chk_phone, enum=lambda: [(f % a, 0) for a in range(1000) for f in ("%03d-555-0123", "(%03d) 555-0123")] + [("%d.9.9.9" % a, 0) for a in range(256)]
             + [("123-%02d-6789" % a, 0) for a in range(100)] + [("650-555-%04d-%d" % (a, a), 0) for a in range(1, 10000, 37 if k == 1 else 1)], needs=n),
        Part("prompts", chk_prompt, gen=lambda: st.tuples(prompted(), context(False)).map(lambda x: x[0] + (x[1],)), needs=n, n=500 * k),
        Part("vanity numbers", chk_vanity, gen=lambda: st.tuples(st.sampled_from(["", "1-", "+1-", "1 "]), st.one_of(st.just("800"), dg(3)), st.sampled_from(["LLLLLLL", "LLL-LLLL", "LL-LLLLL", "DDD-LLLL", "LLL-DDDD"]),
                                                                st.text("BCDEFGHJKLPQRSTUVWXYZ", min_size=8, max_size=8), dg(8), st.just(0)), needs=n, n=400 * k),
        Part("codes with symbols", chk_symbol, gen=lambda: st.tuples(symbolic(), st.sampled_from([0, 1, 2])), needs=n, n=800 * k),
        Part("every symbol", chk_symbol, enum=lambda: [(a + c + b, 0) for c in sorted(CODE) if c not in ".:-" for a, b in (("K", "12"), ("KL", "M7"), ("K9", "X"))], needs=n),
        Part("powers", chk_power, gen=lambda: st.tuples(st.one_of(st.integers(0, 99999).map(str), st.text("bcdfgkmnpqrstvwxyz", min_size=1, max_size=4),
                                                                   st.tuples(st.integers(2, 999), st.sampled_from("xyzn")).map(lambda x: "%d%s" % x)), st.sampled_from([2, 3]), context(False)), needs=n, n=400 * k),
    ]

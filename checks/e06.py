"""E06: the opt-in Roman numeral rule reads every numeral with its value."""
import os
import re

from vlib import ennum
from vlib.core import Part, Violation, spec

PROPERTY = "E06"
LEVEL = "exploration"
RULE = ("Cases: every Roman numeral from II to MM alone (the deterministic rule: to XLIX), each after the key words chapter, class, part, article and section "
        "in three spellings, the numerals I to XIX after given names and with the suffix th, and written words that are no numerals. The words must denote "
        "the numeral's value as an independent writer of Roman numerals gives it. Non-trivial: every case.")
ASSUMPTIONS = ["The rule is used directly (it is no part of the default pipeline) and rejects what is no numeral with the no-path error.",
               "The given names are those of the rule's own name lists as the check found them when it was written (a sample of 150)."]

KEYS = "chapter class part article section".split()
NAMES = open(os.path.join(os.path.dirname(__file__), "..", "data", "names.txt"), encoding="utf-8").read().split()


def roman(n):
    out = ""
    for v, s in ((1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")):
        out, n = out + s * (n // v), n % v
    return out


def rules(name):
    return spec("roman") if name == "roman" else spec("roman", deterministic=True)


def is_(words, v):
    return v in ennum.values(words.replace(",", ""))


def is_ordinal(words, v):
    return ennum.ordinal(words) == v


def chk(ctx, case):
    rule, form, key, n = case
    p = ctx.pipe(rules(rule))
    t = roman(n)
    ctx.label(form)
    if form == "alone":
        got = p.norm(t)
        ok = is_(got, n)
    elif form == "key":
        t = key + " " + t
        got = p.norm(t)
        ok = got.startswith(key + " ") and is_(got[len(key) + 1:], n)
    elif form == "name":
        t = key + " " + t
        got = p.norm(t)
        m = re.fullmatch(re.escape(key) + " (?:the )?(.+)", got)
        ok = m and is_ordinal(m[1], n)
    else:
        t = t + "th"
        got = p.norm(t)
        ok = is_ordinal(got, n)
    ctx.nt(rule + t)
    ctx.sample(t)
    if not ok:
        raise Violation("%s.normalize(%r) reads %r, which is not %s %d" % (p.name, t, got, form, n))
    if p.verbalize(p.tag(t)) not in p.norm(t, nbest=5):
        raise Violation("%s: verbalize(tag(%r)) = %r is none of its readings %r" % (p.name, t, p.verbalize(p.tag(t)), p.norm(t, nbest=5)))


def chk_none(ctx, case):
    rule, t = case
    ctx.nt(rule + t)
    ctx.sample(t)
    try:
        got = ctx.pipe(rules(rule)).obj.normalize(t)
    except RuntimeError:
        return
    raise Violation("%s.normalize(%r) reads %r, but it is no Roman numeral" % (rule, t, got))


def cases():
    out = []
    for n in range(2, 2001):
        out.append(("roman", "alone", "", n))
        w = KEYS[n % 5]
        out.append(("roman", "key", [w, w.capitalize(), w.upper()][n // 5 % 3], n))
    out += [("roman", "key", w, n) for w in KEYS + [w.capitalize() for w in KEYS] + [w.upper() for w in KEYS] for n in (1, 2, 4, 9, 14, 40, 90, 444, 1666)]
    out += [("roman", "name", [w, w.upper()][i % 2], 1 + (i + j) % 19) for i, w in enumerate(NAMES) for j in (0, 7)]
    out += [("roman", "th", "", n) for n in range(1, 20) if len(roman(n)) > 0]
    return out


def fixed_cases():
    return [("fixed", "alone", "", n) for n in range(2, 50) if len(roman(n)) > 1] + [
        ("fixed", "key", w, n) for w in KEYS for n in range(1, 200, 7)] + [
        ("fixed", "name", w, 2 + i % 18) for i, w in enumerate(NAMES)]


def none():
    bad = ["IIII", "VV", "IC", "XM", "ABC", "IIX", "VX", "LL", "DD", "IVI", "hello", "chapter", "chapter IIII", "mmm", "iv", "XIXX", "MMI", "part VX", "I", "12", "4"]
    return [("roman", t) for t in bad] + [("fixed", t) for t in bad + ["L", "MM", "CXI"]]


def parts(tier):
    n = (spec("roman"),)
    return [Part("numerals", chk, enum=cases, needs=n, shards=4),
            Part("deterministic rule", chk, enum=fixed_cases, needs=(spec("roman", deterministic=True),), shards=2),
            Part("no numerals", chk_none, enum=none, needs=n + (spec("roman", deterministic=True),))]

"""W01: listed phrases are replaced as listed, in every language and direction."""
import os
import re

from hypothesis import strategies as st

from vlib import cjk
from vlib.core import VERIF, Part, Violation, spec

PROPERTY = "W01"
LEVEL = "exploration"
RULE = ("Cases: every phrase of the tables (abbreviations, titles, symbols, state names, initialisms, fixed expressions, erhua words, transliterations) alone and "
        "in plain text, and generated sentences with several of them. Each must come out as its table says and the text around it unchanged. "
        "Non-trivial: the phrase is changed or has a numeral.")
ASSUMPTIONS = ["The tables are the ones of the pinned commit (data/tables)."]

WORDS = [w for w in open(os.path.join(VERIF, "data", "en_plain.txt")).read().split() if len(w) >= 4]
TABLES = os.path.join(VERIF, "data", "tables")
ENTN, ENITN = spec("entn"), spec("enitn")


def rows(name):
    with open(os.path.join(TABLES, name + ".tsv"), encoding="utf-8") as f:
        return [line.split("\t") for line in f.read().split("\n") if line.strip()]


def table(*names, swap=False):
    out = {}
    for name in names:
        for r in rows(name):
            a, b = r[0], r[1] if len(r) > 1 else r[0]      # a third column is a weight
            a, b = (b, a) if swap else (a, b)
            out.setdefault(a.strip(), []).append(b.strip().replace("\\", ""))
    return out


def english_tn():
    t = table("en_tts", "en_alternatives", "en_symbol")
    t["~"].append("approximately")
    t["="].append("equals")
    t["#"].append("hash")
    del t["/"]       # also a separator
    for a in t:
        if re.fullmatch(r"([A-Z]\.){2,}[A-Z]\.?", a):
            t[a].append(a.replace(".", ""))
    return t


EN_TN, EN_ITN = english_tn(), table("en_itn", swap=True)
EN_TN_KEYS, EN_ITN_KEYS = sorted(EN_TN), sorted(EN_ITN)
STATES = [(a, b) for a, b in (r for r in rows("en_state") if len(r) == 2)]


def sentence(key, items, expected):
    """items: texts; expected: the texts each may become."""
    def check(ctx):
        p = ctx[key]
        text = " ".join(items)
        out = p.norm(text)
        ctx.nt(text)
        ctx.sample(text)
        if not re.fullmatch(" ".join("(?:%s)" % "|".join(map(re.escape, e)) for e in expected), out):
            raise Violation("%s.normalize(%r) = %r, expected %s" % (p.name, text, out, " ".join(e[0] if len(e) == 1 else str(e) for e in expected)))
    return check


def english(key, keys, tab):
    def check(ctx, case):
        items = [WORDS[v % len(WORDS)] if k else keys[v % len(keys)] for k, v in case]
        sentence(key, items, [[x] if k else tab[x] for (k, _), x in zip(case, items)])(ctx)
    return check


def packed(keys, n=4):
    """Every phrase, n to a sentence, words between them."""
    out = []
    for i in range(0, len(keys), n):
        case = [[1, i]]
        for j in range(i, min(i + n, len(keys))):
            case += [[0, j], [1, j * 7]]
        out.append(case)
    return out


def chk_state(ctx, case):
    city, sep, i, form, tail = case
    name, ab = STATES[i]
    abbr = [ab, ab[0] + "." + ab[1:], ab[0] + "." + ab[1:] + "."][form]
    p = ctx["entn"]
    city = WORDS[city % len(WORDS)].capitalize()
    text = "hello %s%s%s%s" % (city, sep, abbr, tail)
    out = p.norm(text)
    ctx.nt(text)
    ctx.sample(text)
    if out != "hello %s%s%s%s" % (city, sep, name, tail):
        raise Violation("%s.normalize(%r) = %r, expected the state %r" % (p.name, text, out, name))


def chk_initials(ctx, case):
    letters, sep, last, words = case
    abbr = sep.join(letters) + ("." if last else "")
    want = ["".join(letters)] + EN_TN.get(abbr, [])
    a, b = [WORDS[w % len(WORDS)] for w in words]
    sentence("entn", [a, abbr, b], [[a], want, [b]])(ctx)


def asian(s, names, contexts):
    tab = {a: [x or a for x in b] for a, b in table(*names).items()}

    def check(ctx, case):
        a, ci = case
        p = ctx.pipe(s)
        full, got = cjk.spoken(p, a, ci, contexts)
        if got != a or re.search("[一二三四五六七八九十0-9]", a):
            ctx.nt(full)
        ctx.sample([full, got])
        if got not in tab[a]:
            raise Violation("%s.normalize(%r): %r became %r, the table says %r" % (p.name, full, a, got, tab[a]))
    return check, [[a, i] for a in sorted(tab) for i in range(len(contexts))]


def parts(tier):
    k = 12 if tier == "thorough" else 1
    I = st.integers(0, 9999)

    def sentences(keys):
        return lambda: st.lists(st.tuples(st.just(0), st.integers(0, len(keys) - 1)), min_size=1, max_size=4).flatmap(
            lambda ps: st.lists(I, min_size=len(ps) + 1, max_size=len(ps) + 1).map(lambda ws: [[1, ws[0]]] + [y for p, w in zip(ps, ws[1:]) for y in (list(p), [1, w])]))
    out = [
        Part("English TN, every phrase", english("entn", EN_TN_KEYS, EN_TN), enum=lambda: packed(EN_TN_KEYS, 1 if k > 1 else 4), needs=(ENTN,), shards=6),
        Part("English TN, phrase alone", english("entn", EN_TN_KEYS, EN_TN), enum=lambda: [[[0, i]] for i in range(len(EN_TN_KEYS))], needs=(ENTN,), shards=4,
             limit=None if k > 1 else 300),
        Part("English TN, sentences", english("entn", EN_TN_KEYS, EN_TN), gen=sentences(EN_TN_KEYS), needs=(ENTN,), n=400 * k, shards=3),
        Part("US states", chk_state, enum=lambda: [[i * 3 + j, s, i, j, t] for i in range(len(STATES)) for j in range(3) for s, t in ((", ", " today"), (",", ""))], needs=(ENTN,), shards=2),
        Part("initials", chk_initials, gen=lambda: st.tuples(st.lists(st.sampled_from("ABCDEFGHIJKLMNOPQRSTUVWXYZ"), min_size=3, max_size=6), st.sampled_from([".", ". "]),
                                                             st.booleans(), st.tuples(I, I)), needs=(ENTN,), n=300 * k, shards=2),
        Part("English ITN, every phrase", english("enitn", EN_ITN_KEYS, EN_ITN), enum=lambda: packed(EN_ITN_KEYS, 1), needs=(ENITN,), shards=2),
        Part("English ITN, sentences", english("enitn", EN_ITN_KEYS, EN_ITN), gen=sentences(EN_ITN_KEYS), needs=(ENITN,), n=500 * k),
    ]
    for s, names, contexts, label in ((spec("zhtn"), ["zh_tn", "zh_erhua"], cjk.ZH_CONTEXTS, "Chinese TN"), (spec("zhitn"), ["zh_itn"], cjk.ITN_CONTEXTS, "Chinese ITN"),
                                      (spec("zhitn", enable_0_to_9=True, enable_million=True), ["zh_itn"], cjk.ITN_CONTEXTS, "Chinese ITN, options"),
                                      (spec("jatn"), ["ja_tn"], cjk.JA_CONTEXTS, "Japanese TN"), (spec("jaitn"), ["ja_itn"], cjk.JITN_CONTEXTS, "Japanese ITN"),
                                      (spec("jatn", transliterate=True), ["ja_translit"], cjk.JA_CONTEXTS if k > 1 else cjk.JA_CONTEXTS[1:2], "Japanese TN, transliterations")):
        check, cases = asian(s, names, contexts)
        out.append(Part(label, check, enum=lambda cases=cases: cases, needs=(s,), shards=2 if len(cases) > 2000 else 1))
    return out

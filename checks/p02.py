"""P02: the English pipelines accept every text and keep plain words."""
import os
import re
import unicodedata

from hypothesis import strategies as st

from vlib import ennum
from vlib.core import VERIF, Part, Violation, spec
from vlib.gens import _i, one

PROPERTY = "P02"
LEVEL = "exploration"
RULE = ("Cases: sentences of plain words (as is, Capitalized or UPPER), numbers and attached punctuation, joined by runs of spaces: the "
        "output must be the same sentence with every number replaced by a reading (TN) or number words by digits (ITN); any mixture of words, number "
        "words, digits, symbols, any characters and white space, and every character inside, before, after and between words: accepted, foreign words kept. "
        "Non-trivial: the sentence has a number and at least two plain words, or the text has more than lower-case letters.")
ASSUMPTIONS = ["Plain words: 250 frequent English words that no rule names.",
               "A number is followed by a word of at least four letters that is no unit, or by punctuation."]

WORDS = open(os.path.join(VERIF, "data", "en_plain.txt")).read().split()
# words of ordinary English may also be long, or very short
WORDS += ("responsibilities telecommunications straightforwardness uncharacteristically internationalization disproportionately counterrevolutionaries "
          "antidisestablishmentarianism floccinaucinihilipilification strengths rhythms mississippi bookkeeping").split()
LONG = [w for w in WORDS if len(w) >= 4]
MARKS = [".", ",", "!", "?", ";"]


def case(w):
    return st.sampled_from([w, w, w, w.capitalize(), w.upper()])


@st.composite
def sentence(draw, num):
    items, prev_num = [], False
    for _ in range(draw(st.integers(1, 10))):
        is_num = not prev_num and draw(st.integers(0, 3)) == 0
        if is_num:
            items.append(["n", draw(num), ""])
        else:
            items.append(["w", draw(st.sampled_from(LONG if prev_num else WORDS).flatmap(case)), ""])
        if draw(st.integers(0, 3)) == 0:
            items[-1][2] = draw(st.sampled_from(MARKS))
        prev_num = is_num
    return items


def text_of(items, sp=None):
    sp = sp or [1]
    return "".join(" " * (sp[i % len(sp)] if i else 0) + t + p for i, (_, t, p) in enumerate(items))


def pattern(items, numre):
    # a mark keeps the spaces written after it
    return "^" + " +".join((re.escape(t) if k == "w" else numre) + re.escape(p) for k, t, p in items) + "$"


def tn_check(ctx, case):
    items, sp = [list(x) for x in case[0]], case[1]
    p = ctx["entn"]
    text = text_of(items, sp)
    nums = [t for k, t, _ in items if k == "n"]
    if nums and len(items) > len(nums) + 1:
        ctx.nt(text)
    ctx.sample(text)
    out = p.norm(text)
    m = re.match(pattern(items, "([a-z ]+)"), out)
    if not m or any("  " in a for a in re.findall(r"[A-Za-z]( +)[A-Za-z]", out)):
        raise Violation("%s.normalize(%r) = %r: words are not kept in order around the numbers" % (p.name, text, out))
    for t, words in zip(nums, m.groups()):
        if int(t.replace(",", "")) not in ennum.values(words):
            raise Violation("%s.normalize(%r) = %r: %r is read as %r" % (p.name, text, out, t, words))
    if ctx.evaluations % 5 == 0 and p.norm(text) != out:
        raise Violation("%s.normalize(%r) differs between calls" % (p.name, text))


def itn_check(ctx, case):
    items, sp = [list(x) for x in case[0]], case[1]
    p = ctx["enitn"]
    text = text_of([[k, ennum.int_to_words(t) if k == "n" else t, q] for k, t, q in items], sp)
    if any(k == "n" for k, _, _ in items) and len(items) > 2:
        ctx.nt(text)
    ctx.sample(text)
    out = p.norm(text)
    # a mark after a rewritten number may stand alone ("13 ."): the pipeline's token spacing
    rx = "^" + " ".join(
        (re.escape(t) if k == "w" else "(?:%d|%s)" % (t, ennum.int_to_words(t)) if t <= 12 else str(t))
        + (" ?" if k == "n" and q else "") + re.escape(q) for k, t, q in items) + "$"
    if not re.match(rx, out):
        raise Violation("%s.normalize(%r) = %r, expected to match %s" % (p.name, text, out, rx))


def spaced(gen):
    return st.tuples(gen, st.one_of(st.just([1]), st.lists(st.sampled_from([1, 1, 1, 2, 3]), min_size=1, max_size=3)))


def history(ctx, case):
    """Results do not depend on earlier calls."""
    first = {}
    for key, text in case:
        p = ctx[key]
        out = p.norm(text)
        if first.setdefault((key, text), out) != out:
            raise Violation("%s.normalize(%r) changed from %r to %r after other calls" % (p.name, text, first[key, text], out))
    ctx.nt(case)


@st.composite
def histories(draw):
    pool = [["entn", text_of(draw(sentence(tn_num())))] for _ in range(2)]
    pool += [["enitn", text_of([[k, ennum.int_to_words(t) if k == "n" else t, q] for k, t, q in draw(sentence(st.integers(0, 9999)))])]]
    order = draw(st.lists(st.integers(0, 2), min_size=4, max_size=6))
    return [pool[i] for i in order]


def tn_num():
    return one(_i(0, 99), _i(0, 9999), _i(0, 10**7), st.integers(1000, 10**7).map(lambda v: format(v, ",")))


ALL = list(range(1, 0xD800)) + list(range(0xE000, 0x110000))
SPACES = " \t\n\v\f\r\x00\xa0"


def inside(key, block):
    """Any character may stand in, before, after or between words."""
    def check(ctx, case):
        start, shape = case
        p = ctx[key]
        chars = [chr(c) for c in ALL[start:start + block]]
        words = [["the%send", "%send", "the%s", "the %s end"][shape] % c for c in chars]
        text = " ".join(words)
        out = p.norm(text)
        ctx.nt([start, shape])
        ctx.sample(text)
        # letters are part of the word; English ITN keeps whatever else is in a word, too
        if shape == 0 and all(c not in SPACES if key == "enitn" else unicodedata.category(c)[0] in "LM" for c in chars) and out != text:
            raise Violation("%s.normalize(%r) = %r" % (p.name, text, out))
    return check


def anything(key):
    return lambda ctx, case: any_one(ctx, key, "".join(case))


def any_one(ctx, key, text):
    """English TN and ITN take every text; words with a letter foreign to their rules are kept."""
    p = ctx[key]
    if not text.strip(SPACES):
        return p.norm(text)
    out = p.norm(text)
    if re.search("[^a-z ]", text):
        ctx.nt(text)
    ctx.sample(text)
    kept = [w for w in re.split("[%s]+" % SPACES, text) if re.fullmatch('[zq"\\\\éß]+', w)]
    at = 0
    for w in kept:
        at = out.find(w, at)
        if at < 0:
            raise Violation("%s.normalize(%r) = %r loses the word %r" % (p.name, text, out, w))
        at += len(w)
    if p.norm(text) != out:
        raise Violation("%s.normalize(%r) differs between calls" % (p.name, text))


def any_text():
    word = st.one_of(st.sampled_from(WORDS), st.sampled_from(ennum.int_to_words(1999999999).split() + "percent dollars point pm o at dot january third and minus".split()),
                     st.text('zq"\\éß', min_size=1, max_size=4), st.text(st.characters(blacklist_categories=["Cs"], blacklist_characters="\0"), min_size=1, max_size=3),
                     st.text("!#$%&'()*+,-./:;<=>?@[]^_`{|}~\"\\0159", min_size=1, max_size=4))
    gap = st.sampled_from([" ", " ", " ", "", "  ", "\t", "\n", "\r\n", "\xa0"])
    return st.lists(st.one_of(word, word, gap), max_size=9).flatmap(lambda ws: st.lists(gap, min_size=len(ws), max_size=len(ws)).map(lambda gs: [x for p in zip(ws, gs) for x in p]))


def parts(tier):
    k = 10 if tier == "thorough" else 1
    tn, itn = spec("entn"), spec("enitn")
    return [
        Part("tn sentences", tn_check, gen=lambda: spaced(sentence(tn_num())), needs=(tn,), n=1600 * k, shards=6),
        Part("itn sentences", itn_check, gen=lambda: spaced(sentence(st.one_of(st.integers(0, 99), st.integers(0, 9999), st.integers(0, 999999)))),
             needs=(itn,), n=2000 * k, shards=2),
        Part("tn any text", anything("entn"), gen=any_text, needs=(tn,), n=900 * k, shards=6),
        Part("itn any text", anything("enitn"), gen=any_text, needs=(itn,), n=1500 * k, shards=2),
        Part("itn characters", inside("enitn", 32), needs=(itn,), shards=2,
             **({"enum": lambda: [[i, j] for i in range(0, len(ALL), 32) for j in range(4)]} if k > 1 else
                {"gen": lambda: st.tuples(st.one_of(st.integers(0, 800), st.integers(0, len(ALL) - 1)), st.integers(0, 3)), "n": 400})),
        Part("tn characters", inside("entn", 6), needs=(tn,), shards=6,
             gen=lambda: st.tuples(st.one_of(st.integers(0, 800), st.integers(0x2000, 0x2200), st.integers(0, len(ALL) - 1)), st.integers(0, 3)), n=600 * k),
        Part("histories", history, gen=histories, needs=(tn, itn), n=200 * k, shards=2),
    ]

"""P08: Chinese/Japanese normalization is local."""
import os

from hypothesis import strategies as st

from vlib import janum, zhnum
from vlib.core import VERIF, Part, Violation, spec
from vlib.gens import JA_SPOKEN, ZH_SPOKEN, cjk_written, one, pick
from vlib.nums import shaped

PROPERTY = "P08"
LEVEL = "exploration"
RULE = ("Cases: plain clauses around one or two grammar expressions, separated by commas or full stops. The output must be the "
        "concatenation of the separately normalized pieces, and plain clauses come out unchanged. Non-trivial: an expression is "
        "rewritten.")
ASSUMPTIONS = ["Plain text: common characters that are no numeral, unit, interjection, erhua, whitelist or traditional character."]

DATA = os.path.join(VERIF, "data")
ZH_PLAIN = open(os.path.join(DATA, "zh_plain.txt"), encoding="utf-8").read()
JA_PLAIN = open(os.path.join(DATA, "ja_plain.txt"), encoding="utf-8").read()


def clause(lang):
    return st.text(ZH_PLAIN if lang == "zh" else JA_PLAIN, min_size=1, max_size=6)


def seps(lang):
    return pick("， 。") if lang == "zh" else pick("、 。")


def local(s, keep):
    def check(ctx, case):
        pieces = case
        p = ctx.pipe(s)
        text = "".join(pieces)
        out = p.norm(text)
        parts_ = [p.norm(x) for x in pieces]
        if out != "".join(parts_):
            raise Violation("%s.normalize(%r) = %r, but its pieces %r give %r" % (p.name, text, out, pieces, parts_))
        if any(a != b for a, b in zip(pieces, parts_)):
            ctx.nt(text)
    return check


def plain(s):
    def check(ctx, text):
        ctx.pipe(s).expect(text, text, note="plain text")
        ctx.nt(text)
    return check


def every(s, alphabet):
    """Every plain character, 24 at a time."""
    def check(ctx, i):
        text = alphabet[i:i + 24]
        p = ctx.pipe(s)
        if p.norm(text) != text:
            for c in text:
                p.expect(c, c, note="plain character")
            p.expect(text, text, note="plain text")
        ctx.nt(text)
    return check


def exprs(key):
    if key == "zhtn":
        return cjk_written("zh")
    if key == "jatn":
        return cjk_written("ja")
    if key == "zhitn":
        spelt = st.text("零一二三四五六七八九幺", min_size=1, max_size=11)
        return one(pick(ZH_SPOKEN), pick(ZH_SPOKEN), spelt, shaped(12).map(zhnum.to_zh))
    spelt = st.text("〇一二三四五六七八九", min_size=1, max_size=11)
    return one(pick(JA_SPOKEN), pick(JA_SPOKEN), spelt, shaped(12).map(janum.to_ja))


def cases(key):
    lang = key[:2]
    c, e, sp = clause(lang), exprs(key), seps(lang)
    return one(st.tuples(c, sp, e, sp, c).map(list), st.tuples(e, sp, c, sp, e).map(list), 
               st.tuples(c, sp, e, sp, c, sp, e, sp, c).map(list), st.tuples(c, sp, e).map(list), st.tuples(e, sp, c).map(list),
               *([st.tuples(e, sp, e).map(list)] * 2 if key[2:] == "itn" else []))


def parts(tier):
    big = tier == "thorough"
    k = 20 if big else 1
    out = []
    for key in ("zhtn", "jatn", "zhitn", "jaitn"):
        s = spec(key)
        out.append(Part("local-" + key, local(s, {}), needs=(s,), n=800 * k, shards=4, gen=lambda key=key: cases(key)))
        out.append(Part("plain-" + key, plain(s), needs=(s,), n=300 * k, shards=1, gen=lambda key=key: clause(key[:2]).map(lambda t: t * 2)))
        alphabet = "".join(sorted(set(ZH_PLAIN if key[:2] == "zh" else JA_PLAIN)))
        out.append(Part("every-" + key, every(s, alphabet), needs=(s,), enum=lambda a=alphabet: list(range(0, len(a), 24))))
    return out

"""P01: Chinese/Japanese pipelines are total and deterministic."""
from hypothesis import strategies as st

from vlib.core import Part, Violation, spec
from vlib.gens import any_char, text_for

PROPERTY = "P01"
LEVEL = "exploration"
RULE = ("Cases: blocks of 64 consecutive code points; texts mixing numerals, units, symbols, quotes, control and "
        "arbitrary characters; histories of 2-6 calls (some of them rejected ones) replayed in two orders on two instances. "
        "Non-trivial: the text is not returned unchanged, or holds a quote/backslash/control character, or (histories) two "
        "different texts were called.")
ASSUMPTIONS = ["NUL and lone surrogates are outside the domain (OpenFst label 0 / not encodable as UTF-8)."]

FLIPPED = {
    "zhtn": dict(remove_interjections=False, remove_erhua=False, traditional_to_simple=False, remove_puncts=True,
                 full_to_half=False, tag_oov=True),
    "jatn": dict(transliterate=True, remove_interjections=True, remove_puncts=True, full_to_half=False, tag_oov=True),
    "jaitn": dict(enable_standalone_number=False, enable_0_to_9=True, enable_million=True, full_to_half=True),
}
HARD = set("\"\\{}:\n\r\t\x01\x7f")


def total(s):
    def check(ctx, text):
        p = ctx.pipe(s)
        out = p.norm(text)
        if not isinstance(out, str):
            raise Violation("%s.normalize(%r) returned %r" % (p.name, text, out))
        if text == "" and out != "":
            raise Violation("%s.normalize('') = %r" % (p.name, out))
        if out != text or HARD & set(text):
            ctx.nt(text)
        ctx.label("changed" if out != text else "unchanged")
    return check


def block(s, width):
    def check(ctx, start):
        text = "".join(chr(c) for c in range(start, start + width) if c and not 0xD800 <= c < 0xE000 and c < 0x110000)
        if not text:
            return
        p = ctx.pipe(s)
        try:
            out = p.norm(text)
        except Violation:
            for c in text:  # name the character
                p.norm(c)
            raise
        ctx.nt(start)
        ctx.label("changed" if out != text else "unchanged")
    return check


def starts(tier, width):
    def enum():
        if tier == "thorough":
            return list(range(0, 0x110000, width))
        # every block of the BMP up to the unified ideographs, symbols and compatibility
        # forms, and every 8th/64th block of the rest
        out = [x for x in range(0, 0x3400, width)] + [x for x in range(0xF900, 0x10000, width)]
        out += list(range(0x3400, 0xA000, width * 4)) + list(range(0xA000, 0xD800, width * 8))
        out += list(range(0x1F000, 0x1FB00, width)) + list(range(0x10000, 0x110000, width * 128))
        return out
    return enum


def history(s, s2):
    def check(ctx, texts):
        p, q = ctx.pipe(s), ctx.pipe(s2)
        first = []
        for t in texts:
            if "\x00" in t:
                try:
                    p.obj.normalize(t)
                except Exception:
                    ctx.label("rejected call in history")
                continue
            first.append((t, p.norm(t)))
        for t, out in reversed(first):
            again = p.norm(t)
            if again != out:
                raise Violation("%s.normalize(%r) = %r, later %r (history %r)" % (p.name, t, out, again, texts))
            other = q.norm(t)
            if other != out:
                raise Violation("%s.normalize(%r) = %r on one instance, %r on another (history %r)" %
                                (p.name, t, out, other, texts))
        if len({t for t, _ in first}) > 1:
            ctx.nt(texts)
    return check


def parts(tier):
    big = tier == "thorough"
    k = 20 if big else 1
    out = []
    pipes = [(spec("zhtn"), "zh", 900), (spec("jatn"), "ja", 900), (spec("zhitn"), "zh", 900), (spec("jaitn"), "ja", 900)]
    pipes += [(spec(n, **o), n[:2], 350) for n, o in FLIPPED.items()]
    if big:
        pipes += [(spec("zhitn", enable_standalone_number=False, enable_0_to_9=True, enable_million=True,
                        remove_interjections=False), "zh", 350)]
    for s, lang, n in pipes:
        nm = s[0] + ("-flipped" if s[1] else "")
        out.append(Part("text-" + nm, total(s), gen=lambda lang=lang: text_for(lang), needs=(s,), n=n * k, shards=2 * (1 + big)))
        if not s[1] or big:
            out.append(Part("codepoints-" + nm, block(s, 64), enum=starts(tier, 64), needs=(s,), shards=8 if big else (4 if s[0] == "zhitn" else 2)))
    for key in ("jatn", "jaitn", "zhtn"):
        s, s2 = spec(key), spec(key + "#2")
        out.append(Part("history-" + key, history(s, s2), needs=(s, s2), n=120 * k, shards=2,
                        gen=lambda key=key: st.lists(st.one_of(text_for(key, 8), text_for(key, 8), text_for(key, 8),
                                                               any_char().map(lambda c: c + "\x00")),
                                                     min_size=2, max_size=6)))
    out.append(Part("history-zhitn", history(spec("zhitn"), spec("zhitn")), needs=(spec("zhitn"),), n=120 * k, shards=2,
                    gen=lambda: st.lists(text_for("zh", 8), min_size=2, max_size=6)))
    return out

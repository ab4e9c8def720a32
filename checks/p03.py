"""P03: tagged fields are verbatim input text in input order."""
from vlib import wire
from vlib.core import Part, Violation, spec
from vlib.gens import ALL_KEYS, pipeline_text

PROPERTY = "P03"
LEVEL = "exploration"
RULE = ("Cases: generated expressions (numbers, dates, times, money, measures, codes, spoken forms) in context and near-grammar "
        "noise, for all six pipelines and option variants. Non-trivial: the stream holds a token other than a bare char/word.")
ASSUMPTIONS = ["Marker fields (preserve_order, kind, style) and empty values carry no input text."]

MARKERS = {"preserve_order", "kind", "style"}
PLAIN = {"char", "w", "word", "punctuation"}


def locate(text, tokens):
    """-> list of (type, key, start, end) placing the values left to right, or None.

    Greedy leftmost placement is complete: if any in-order, non-overlapping
    placement exists, taking each value's first occurrence is one."""
    pos, out = 0, []
    for typ, fields in tokens:
        for key, value in fields:
            if key in MARKERS or value == "":
                continue
            j = text.find(value, pos)
            if j < 0:
                return None, (typ, key, value)
            out.append((typ, key, j, j + len(value)))
            pos = j + len(value)
    return out, None


def covers(text, tokens):
    """Is there a placement whose gaps between tokens hold no letter/digit/ideograph?

    Dynamic programming over reachable end positions (values may repeat)."""
    ends = {0}
    first = True
    for typ, fields in tokens:
        start_of_token = True
        for key, value in fields:
            if key in MARKERS or value == "":
                continue
            nxt = set()
            for e in ends:
                j = text.find(value, e)
                while j >= 0:
                    gap = text[e:j]
                    if start_of_token:
                        if gap.strip() != "":
                            break  # a gap between tokens may only be white space
                    elif any(c.isalnum() for c in gap):
                        break
                    nxt.add(j + len(value))
                    j = text.find(value, j + 1)
            if not nxt:
                return "no place for %s field %s=%r" % (typ, key, value)
            ends = nxt
            start_of_token = False
        first = False
    if not any(text[e:].strip() == "" for e in ends):
        return "input tail %r is in no token" % text[max(ends):]
    return None


def faithful(s):
    def check(ctx, text):
        p = ctx.pipe(s)
        stream = p.tag(text)
        if text == "":
            return
        try:
            tokens = wire.parse(stream)
        except wire.WireError as e:
            raise Violation("%s.tag(%r) is not a well-formed token stream: %s" % (p.name, text, e))
        placed, bad = locate(text, tokens)
        if placed is None:
            raise Violation("%s.tag(%r) = %r: %s field %s=%r is not input text (in order)" % ((p.name, text, stream) + bad))
        why = covers(text, tokens)
        if why:
            raise Violation("%s.tag(%r) = %r: %s" % (p.name, text, stream, why))
        for typ, fields in tokens:
            ctx.label(typ)
        if any(t not in PLAIN for t, _ in tokens):
            ctx.nt(text)
    return check


def parts(tier):
    k = 25 if tier == "thorough" else 1
    out = []
    for key in ALL_KEYS:
        s = spec(key)
        out.append(Part("tag-" + key, faithful(s), gen=lambda key=key: pipeline_text(key), needs=(s,),
                        n={"entn": 2400}.get(key, 2000) * k, shards=4 if key == "entn" or k > 1 else 2))
    variants = [spec("zhtn", full_to_half=False, traditional_to_simple=False, remove_erhua=False), spec("jatn", transliterate=True, full_to_half=False),
                spec("jaitn", enable_0_to_9=True, enable_million=True, full_to_half=True)]
    if tier == "thorough":
        variants.append(spec("zhitn", enable_0_to_9=True, enable_million=True, remove_interjections=False))
    for s in variants:
        out.append(Part("tag-opt-" + s[0], faithful(s), gen=lambda s=s: pipeline_text(s[0]), needs=(s,), n=800 * k, shards=2))
    return out

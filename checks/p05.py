"""P05: alignment maps every output character to its input exactly."""
from hypothesis import strategies as st

from vlib import wire
from vlib.core import Part, Violation, spec
from vlib.gens import ALL_KEYS, FAST_KEYS, _i, _pad, cat, one, pick, pipeline_text
from checks.p03 import MARKERS

PROPERTY = "P05"
LEVEL = "exploration"
RULE = ("Cases: (text, nbest) with texts as in P03 (expressions in context, quotes, astral characters, noise). Every offset, text, "
        "kind and gap of every candidate is recomputed from input and output. Non-trivial: at least one replace/delete mapping.")
ASSUMPTIONS = []


def structure(p, text, r, what):
    def bad(msg):
        raise Violation("%s.normalize_with_mapping(%r)%s: %s; output %r, mappings %r" % (
            p.name, text, what, msg, r.output_text, [m.as_dict() for m in r.mappings]))

    if r.input_text != text:
        bad("input_text is %r" % r.input_text)
    out = r.output_text
    ip = op = 0

    def same(a, b):
        # the English pipelines may put the spaces between words anew
        return a == b or (p.name.startswith("en") and a.split() != [] and "".join(a.split()) == "".join(b.split())) or (
            p.name.startswith("en") and a.strip() == b.strip() == "")

    rebuilt = []
    for m in r.mappings:
        if not (0 <= ip <= m.input_start <= m.input_end <= len(text)):
            bad("input span %d..%d out of order or range" % (m.input_start, m.input_end))
        if not (0 <= op <= m.output_start <= m.output_end <= len(out)):
            bad("output span %d..%d out of order or range" % (m.output_start, m.output_end))
        if text[m.input_start:m.input_end] != m.input_text:
            bad("input[%d:%d] is not %r" % (m.input_start, m.input_end, m.input_text))
        if out[m.output_start:m.output_end] != m.output_text:
            bad("output[%d:%d] is not %r" % (m.output_start, m.output_end, m.output_text))
        kind = "delete" if m.output_text == "" and m.input_text else ("equal" if m.input_text == m.output_text else "replace")
        if m.kind != kind:
            bad("kind %r for %r -> %r" % (m.kind, m.input_text, m.output_text))
        if m.input_text == "" and m.output_text == "":
            bad("empty mapping")
        gap = text[ip:m.input_start]
        if not same(gap, out[op:m.output_start]):
            bad("uncovered input %r became %r" % (gap, out[op:m.output_start]))
        rebuilt += [out[op:m.output_start], m.output_text]
        ip, op = m.input_end, m.output_end
    if not same(text[ip:], out[op:]):
        bad("uncovered input tail %r became %r" % (text[ip:], out[op:]))
    rebuilt.append(out[op:])
    if "".join(rebuilt) != out:
        bad("mappings do not rebuild the output")
    d = r.as_dict()
    want = {"input": text, "output": out, "mappings": [
        {"kind": m.kind, "token_type": m.token_type,
         "input": {"start": m.input_start, "end": m.input_end, "text": m.input_text},
         "output": {"start": m.output_start, "end": m.output_end, "text": m.output_text}} for m in r.mappings]}
    if d != want:
        bad("as_dict() is %r" % (d,))


def mapping(s):
    def check(ctx, case):
        text, n = case
        p = ctx.pipe(s)
        r = p.mapping(text)
        structure(p, text, r, "")
        plain = p.norm(text)
        if r.output_text != plain:
            raise Violation("%s: normalize_with_mapping(%r) gives %r, normalize gives %r" % (p.name, text, r.output_text, plain))
        if any(m.kind == "equal" for m in r.mappings):
            raise Violation("%s.normalize_with_mapping(%r) lists unchanged spans without include_identity" % (p.name, text))
        ri = p.mapping(text, include_identity=True)
        structure(p, text, ri, " with identity")
        if ri.output_text != plain or [m for m in ri.mappings if m.kind != "equal"] != list(r.mappings):
            raise Violation("%s.normalize_with_mapping(%r): include_identity changes more than the unchanged spans: %r vs %r" % (
                p.name, text, ri.as_dict(), r.as_dict()))
        if n > 1:
            many = p.mapping(text, nbest=n)
            outs = p.norm(text, nbest=n)
            if [x.output_text for x in many] != list(outs):
                raise Violation("%s: nbest=%d of %r: mapping outputs %r, normalize %r" % (
                    p.name, n, text, [x.output_text for x in many], outs))
            for i, x in enumerate(many):
                structure(p, text, x, " candidate %d of nbest=%d" % (i, n))
            ctx.label("nbest")
        for m in r.mappings:
            ctx.label(m.token_type + "/" + m.kind)
        if r.mappings:
            ctx.nt(text)
    return check


def typed(s):
    """Entries name the grammar rule of the token they come from (unambiguous expressions in plain text)."""
    def check(ctx, case):
        text = "".join(case)
        p = ctx.pipe(s)
        ri = p.mapping(text, include_identity=True)
        structure(p, text, ri, " with identity")
        # with identities there is one entry per token, of that token's type and text
        try:
            tokens = wire.parse(p.tag(text)) if text else []
        except wire.WireError as e:
            raise Violation("%s.tag(%r): %s" % (p.name, text, e))
        if [m.token_type for m in ri.mappings] != [t for t, _ in tokens]:
            raise Violation("%s.normalize_with_mapping(%r, include_identity=True) has token types %r, tag() has %r" % (
                p.name, text, [m.token_type for m in ri.mappings], [t for t, _ in tokens]))
        for m, (t, fields) in zip(ri.mappings, tokens):
            pos = 0
            for key, value in fields:
                if key in MARKERS or value == "":
                    continue
                j = m.input_text.find(value, pos)
                if j < 0:
                    raise Violation("%s: mapping %r of %r does not contain its token's field %s=%r" % (
                        p.name, m.as_dict(), text, key, value))
                pos = j + len(value)
        # the expression in the middle is one token whose spans are exactly its own
        a = len(case[0])
        hit = [m for m in ri.mappings if m.input_start == a and m.input_end == a + len(case[1])]
        if len(hit) != 1 or hit[0].token_type in ("char", "word", "w"):
            raise Violation("%s: no single rule token maps %r in %r: %r" % (p.name, case[1], text, ri.as_dict()))
        ctx.label(hit[0].token_type)
        ctx.nt(text)
    return check


def typed_cases(key):
    lang = key[:2]
    plain = {"zh": st.sampled_from(["", "他说，", "天气很好。", "😀", "𠮷野家，"]), "ja": st.sampled_from(["", "東京は、", "今日。", "😀", "𠮷野家、"])}[lang]
    if key.endswith("itn"):
        e = pick({"zh": ["二零二二年一月五日", "五月四号", "十二点三十分", "下午三点半", "十二美元", "五十六千克", "三分之一", "一百零五", "三点一四"],
                  "ja": ["二千二十二年一月五日", "五月四日", "十二時三十分", "十二ドル", "二十五メートル", "三分の一", "百五", "三点一四"]}[lang])
    else:
        e = one(_i(101, 9999), cat(_i(1, 99), ".", _i(1, 99)), cat(_i(1900, 2099), "/", _pad(1, 12), "/", _pad(1, 28)),
                cat(_i(1, 23), ":", _pad(1, 59)), cat("$", _i(1, 9999)), cat(_i(1, 9999), pick("kg km cm")), cat(_i(1, 9), "/", _i(2, 9)))
    return st.tuples(plain, e, st.sampled_from(["", "。天气", "，了"] if lang == "zh" else ["", "。天気", "、は"]))


def parts(tier):
    big = tier == "thorough"
    k = 15 if big else 1
    out = []
    for key in (ALL_KEYS if big else FAST_KEYS):
        s = spec(key)
        out.append(Part("map-" + key, mapping(s), needs=(s,), n=700 * k, shards=4,
                        gen=lambda key=key: st.tuples(pipeline_text(key), st.sampled_from([1, 1, 2, 3]))))
    for key in ("zhtn", "jatn", "zhitn", "jaitn"):
        out.append(Part("typed-" + key, typed(spec(key)), needs=(spec(key),), n=200 * k, shards=1, gen=lambda key=key: typed_cases(key)))
    for s in [spec("zhtn", remove_puncts=True, full_to_half=False, traditional_to_simple=False, tag_oov=True),
              spec("jatn", transliterate=True, remove_puncts=True, tag_oov=True)]:
        out.append(Part("map-opt-" + s[0], mapping(s), needs=(s,), n=250 * k, shards=2,
                        gen=lambda s=s: st.tuples(pipeline_text(s[0]), st.sampled_from([1, 2]))))
    return out

"""S01: a pipeline written to the documented rule architecture does what its graphs say."""
from hypothesis import strategies as st

from vlib import wire
from vlib.core import Part, Violation, quiet_logging

PROPERTY = "S01"
LEVEL = "exploration"
RULE = ("Cases: generated pipelines in the documented style (one RuleSpec inventory with classifier weights, rules of one to three fields made with tag_field and "
        "verbalize_field, field words with quotes, backslashes, braces, spaces and characters outside ASCII, weighted alternatives, an input processor on some "
        "fields, a token order of the owning pipeline that may name unknown fields or leave some out, rules that verbalize only) and a text over their alphabet. An independent enumeration of "
        "every derivation gives the cheapest tagging, the fields, the spans and the outputs. Non-trivial: a cheapest derivation with a rule of two or more "
        "fields or with a character that the wire format escapes.")
ASSUMPTIONS = ["Weights are multiples of 1/64, so that sums are exact."]

CHARS = ["a", "b", "a", "b", "1", '"', "\\", " ", "{", "}", ":", "[", "甲", "😀", "é"]
WIDE = {"Ａ": "a", "Ｂ": "b", "１": "1"}
NAMES = ["num", "unit", "date_x", "k"]
FIELDS = ["value", "u", "day_of"]


def build(case):
    from pynini import accep, cross, escape, union
    from pynini.lib.pynutil import add_weight, delete, insert
    from tn.processor import Processor, RuleSpec
    quiet_logging()
    narrow = union(*[cross(w, n) for w, n in WIDE.items()] + [accep(escape(c)) for c in sorted(set(CHARS))]).star

    class Rule(Processor):
        def __init__(self, name, fields, order):
            super().__init__(name, "tn")
            self.fields = [(f, self.apply_input_processor(union(*[add_weight(cross(escape(w), escape(o)), wt / 64.0) for w, o, wt in words]), narrow if wide else None), sep)
                           for f, words, wide, sep in fields]
            self.order = order
            self.build_tagger()
            self.build_verbalizer()

        def build_tagger(self):
            t = accep("")
            for i, (f, graph, sep) in enumerate(self.fields):
                t = t + (insert(" ") if i else accep("")) + self.tag_field(f, graph) + delete(escape(sep))
            self.tagger = self.add_tokens(t)

        def build_verbalizer(self):
            by = dict((f, g) for f, g, _ in self.fields)
            v = accep("")
            for i, f in enumerate(self.order):
                v = v + self.verbalize_field(f, by[f], leading_space=i > 0)
            self.verbalizer = self.delete_tokens(v)

    class Pipeline(Processor):
        def __init__(self):
            super().__init__("generated", ordertype="tn", token_orders=case["orders"])
            self.build_fst("generated", False, False, {})

        def build_tagger_and_verbalizer(self):
            rules = []
            for name, w, fields in case["rules"]:
                r = Rule(name, fields, emitted(case["orders"], name, fields))
                rules.append(RuleSpec(r, w / 64.0))
            only = Rule("spoken_only", [["value", [["a", "never", 0]], False, ""]], ["value"])
            rules.insert(case["at"] % (len(rules) + 1), RuleSpec(only))
            self.tagger = self.tagger_union(rules).star
            self.verbalizer = self.verbalizer_union(rules).star
    return Pipeline()


def emitted(orders, name, fields):
    """The documented order: the fields the order names, in its order, then the rest as tagged."""
    have = [f[0] for f in fields]
    first = [f for f in orders.get(name, []) if f in have]
    return first + [f for f in have if f not in first]


def derivations(case, text, cap=60000):
    """Every (cost, output, tokens); a token is (name, [(field, raw)], start, end, output)."""
    n, table, total = len(text), [[] for _ in range(len(text) + 1)], 0
    table[0] = [(0, "", ())]
    for i in range(n):
        if not table[i]:
            continue
        toks = []
        for name, w, fields in case["rules"]:
            part = [(i, w, [])]
            for f, words, wide, sep in fields:
                nxt = []
                for pos, cost, got in part:
                    for end in range(pos, n + 1):
                        raw = text[pos:end]
                        flat = "".join(WIDE.get(c, c) for c in raw) if wide else raw
                        for word, o, wt in words:
                            if flat == word and text.startswith(sep, end):
                                nxt.append((end + len(sep), cost + wt, got + [(f, raw, o)]))
                part = nxt
            for pos, cost, got in part:
                out = {f: o for f, _, o in got}
                toks.append((cost, name, [(f, r) for f, r, _ in got], i, pos, "".join(out[f] for f in emitted(case["orders"], name, fields))))
        for cost, out, before in table[i]:
            for c, name, fs, a, e, o in toks:
                if e > a:
                    table[e].append((cost + c, out + o, before + ((name, tuple(fs), a, e, o),)))
                    total += 1
                    if total > cap:
                        return None
    return table[n]


def chk(ctx, case):
    text = case["text"]
    all_d = derivations(case, text)
    if not all_d:
        return
    low = min(d[0] for d in all_d)
    cheap = [d for d in all_d if d[0] == low]
    best = {}
    for cost, out, _ in all_d:
        best[out] = min(cost, best.get(out, 1 << 60))
    what = "pipeline %r on %r" % (case, text)
    try:
        p = build(case)
        tagged, out, listed = p.tag(text), p.normalize(text), p.normalize(text, nbest=6)
        maps = p.normalize_with_mapping(text, include_identity=True)
        spoken = p.verbalize(tagged)
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, e))
    try:
        tokens = [(t, tuple(fs)) for t, fs in wire.parse(tagged)]
    except wire.WireError as e:
        raise Violation("%s: tag gives %r, which is no token stream: %s" % (what, tagged, e))
    if tokens not in [[(t[0], t[1]) for t in d[2]] for d in cheap]:
        raise Violation("%s: tag gives %r, the cheapest readings are %r" % (what, tagged, [d[2] for d in cheap[:4]]))
    if out not in [d[1] for d in cheap]:
        raise Violation("%s: normalize gives %r, the cheapest outputs are %r" % (what, out, sorted({d[1] for d in cheap})[:6]))
    # the cheapest reading of the tagged fields
    same = [d for d in all_d if [(t[0], t[1]) for t in d[2]] == tokens]
    if spoken not in [d[1] for d in same if d[0] == min(x[0] for x in same)]:
        raise Violation("%s: verbalize(%r) gives %r, expected %r" % (what, tagged, spoken, [d[1] for d in same]))
    order = sorted(best.values())
    if [best.get(x) for x in listed] != order[:6]:
        raise Violation("%s: nbest=6 gives %r with the costs %r, the cheapest are %r" % (what, listed, [best.get(x) for x in listed], order[:6]))
    spans = [(m.token_type, m.input_start, m.input_end, m.input_text, m.output_text) for m in maps.mappings]
    full = [d for d in cheap if d[1] == maps.output_text]
    if maps.output_text != out or spans not in [[(t[0], t[2], t[3], text[t[2]:t[3]], t[4]) for t in d[2]] for d in full]:
        raise Violation("%s: the mapping is %r, expected %r" % (what, spans, [d[2] for d in full[:4]]))
    for d in cheap[:1]:
        if any(len(t[1]) > 1 or set(t[1][0][1]) & set('"\\') for t in d[2]):
            ctx.nt(str(case))
        ctx.label("fields=%d" % max(len(t[1]) for t in d[2]))
    ctx.sample([text, tagged, out])


@st.composite
def pipelines(draw):
    names = NAMES[:draw(st.integers(1, 4))]
    rules, orders = [], {}
    for name in names:
        fields, k = [], draw(st.sampled_from([1, 1, 2, 2, 3]))
        ids = draw(st.permutations(FIELDS))[:k]
        for f in ids:
            words, seen = [], set()
            for w, o, wt in draw(st.lists(st.tuples(st.lists(st.sampled_from(CHARS), min_size=1, max_size=2).map("".join),
                                                    st.one_of(st.text("xya", max_size=2), st.sampled_from(["", '"', "\\", "乙", "x y", '\\"', "}", "\\\\", "[x]"])), st.integers(0, 60)), min_size=1, max_size=3)):
                if (w, o) not in seen:
                    seen.add((w, o))
                    words.append([w, o, wt])
            fields.append([f, words, draw(st.booleans()), draw(st.sampled_from(["", "", "-"]))])
        rules.append([name, draw(st.integers(1, 300)), fields])
        if draw(st.booleans()):
            orders[name] = draw(st.permutations(FIELDS + ["unknown"]))[:draw(st.integers(0, 4))]
    rules.append(["char", draw(st.integers(100, 900)), [["value", [[c, c, 0] for c in sorted(set(CHARS) | set(WIDE) | {"-"})], False, ""]]])
    # a text that the rules can read, mixed with single characters
    text = ""
    for _ in range(draw(st.integers(1, 4))):
        name, _, fields = draw(st.sampled_from(rules))
        for f, words, wide, sep in fields:
            w = draw(st.sampled_from(words))[0]
            if wide and draw(st.booleans()):
                w = "".join({"a": "Ａ", "b": "Ｂ", "1": "１"}.get(c, c) for c in w)
            text += w + sep
    return {"rules": rules, "orders": orders, "text": text[:10], "at": draw(st.integers(0, 4))}


def parts(tier):
    k = 15 if tier == "thorough" else 1
    return [Part("generated pipelines", chk, gen=pipelines, n=1200 * k, shards=8)]

"""Small grammars written against the documented rule API (docs/python-rule-architecture.md),
with an independent enumeration of every derivation as reference."""
from hypothesis import strategies as st


def build(rules, orders=None, ordertype="tn", fallback=None, prefix="toy", cache_dir=False, overwrite=False, config=None,
          on_build=None, fingerprint=None):
    """rules: [[name, weight64, [[word, out, weight64], ...]], ...] -> pipeline object."""
    from pynini import accep, cross, escape, union
    from pynini.lib.pynutil import add_weight
    from tn.processor import Processor, RuleSpec
    from vlib.core import quiet_logging
    quiet_logging()

    class Rule(Processor):
        def __init__(self, name, words):
            super().__init__(name)
            self.graph = union(*[add_weight(cross(escape(w), escape(o)), wt / 64.0) for w, o, wt in words])
            self.build_tagger()
            self.build_verbalizer()

        def build_tagger(self):
            self.tagger = self.add_tokens(self.tag_field("value", self.graph))

        def build_verbalizer(self):
            self.verbalizer = self.delete_tokens(self.verbalize_field("value", self.graph))

    class Toy(Processor):
        def __init__(self):
            super().__init__(name="toy", ordertype=ordertype)
            self.build_fst(prefix, cache_dir, overwrite, config or {})

        def build_tagger_and_verbalizer(self):
            if on_build is not None:
                on_build()
            specs = [RuleSpec(Rule(n, ws), w / 64.0) for n, w, ws in rules]
            self.tagger = self.tagger_union(specs).star
            self.verbalizer = self.verbalizer_union(specs).star

    if fingerprint is not None:  # skips hashing the source tree; the identity is what the caller says it is
        Toy._source_fingerprint = staticmethod(lambda prefix: fingerprint)
    return Toy()


def derivations(rules, text, cap=200000):
    """Every (cost64, output, [(rule, start, end, out)]) of the grammar on text."""
    n = len(text)
    table = [[] for _ in range(n + 1)]
    table[0] = [(0, "", ())]
    total = 0
    for i in range(n):
        for cost, out, toks in table[i]:
            for name, w, words in rules:
                for word, o, wt in words:
                    if text.startswith(word, i):
                        table[i + len(word)].append((cost + w + wt, out + o, toks + ((name, i, i + len(word), o),)))
                        total += 1
                        if total > cap:
                            return None
    return table[n]


WORD = st.text("ab", min_size=1, max_size=3)
OUT = st.one_of(st.text("xyab", max_size=3), st.sampled_from(["甲", '"', "\\", "ab", "😀", ""]))


@st.composite
def grammars(draw, alphabet="ab"):
    names = ["num", "unit", "word_x"]
    k = draw(st.integers(1, 3))
    rules = []
    for i in range(k):
        words = draw(st.lists(st.tuples(st.text(alphabet, min_size=1, max_size=3), OUT, st.integers(0, 60)), min_size=1, max_size=4))
        seen, uniq = set(), []
        for w, o, wt in words:
            if (w, o) not in seen:
                seen.add((w, o))
                uniq.append([w, o, wt])
        rules.append([names[i], draw(st.integers(1, 300)), uniq])
    # every letter has a fallback reading, so every text over the alphabet is accepted
    rules.append(["char", draw(st.integers(200, 800)), [[c, c, 0] for c in alphabet]])
    text = draw(st.text(alphabet, min_size=1, max_size=6))
    return {"rules": rules, "text": text}

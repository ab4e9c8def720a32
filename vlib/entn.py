"""Contexts and helpers shared by the English TN checks (E01-E04)."""
from hypothesis import strategies as st

from vlib.core import Violation

# contexts that no rule reads together with what stands in them
CONTEXTS = [("", ""), ("", ""), ("we know ", ""), ("", " there"), ("they saw ", " again"), ("yes, ", ""), ("", "."), ("well, ", "!"),
            ("they know ", ", maybe"), ("look ", "?")]


def context(tight=True):
    return st.sampled_from(range(len(CONTEXTS)) if tight else [0, 1, 2, 3, 4, 5])


def spoken(p, text, ci):
    """Normalize text in context ci and cut the context off again."""
    a, b = CONTEXTS[ci]
    full = a + text + b
    out = p.norm(full)
    if not (out.startswith(a) and out.endswith(b)) or len(out) < len(a) + len(b):
        raise Violation("%s.normalize(%r) = %r: the text around %r changed" % (p.name, full, out, text))
    return full, out[len(a):len(out) - len(b)]


def wrong(p, full, got, want):
    return Violation("%s.normalize(%r) reads %r, which is not %s" % (p.name, full, got, want))

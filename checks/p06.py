"""P06: n-best output is the ranked prefix of one fixed list."""
from hypothesis import strategies as st

from vlib import toy
from vlib.core import Part, Violation, spec
from vlib.gens import ALL_KEYS, FAST_KEYS, pipeline_text

PROPERTY = "P06"
LEVEL = "exploration"
RULE = ("Cases: (text, m<n) on the real pipelines; random weighted grammars written with the documented rule API, ranked against "
        "an exhaustive enumeration of all derivations; ill-typed nbest values. Non-trivial: at least two candidates were returned.")
ASSUMPTIONS = ["Candidates of exactly equal cost may come in either order in the toy-grammar ranking."]


def prefix(s):
    def check(ctx, case):
        text, m, n = case
        p = ctx.pipe(s)
        one = p.norm(text)
        small, large = p.norm(text, nbest=m), p.norm(text, nbest=n)
        if m == 1:
            small = [small]
        for k, xs in ((m, small), (n, large)):
            if not isinstance(xs, list) or not all(isinstance(x, str) for x in xs):
                raise Violation("%s.normalize(%r, nbest=%d) = %r is not a list of strings" % (p.name, text, k, xs))
            if not 1 <= len(xs) <= k:
                raise Violation("%s.normalize(%r, nbest=%d) has %d results" % (p.name, text, k, len(xs)))
            if len(set(xs)) != len(xs):
                raise Violation("%s.normalize(%r, nbest=%d) repeats a result: %r" % (p.name, text, k, xs))
            if xs[0] != one:
                raise Violation("%s.normalize(%r, nbest=%d) starts with %r, normalize gives %r" % (p.name, text, k, xs[0], one))
        if large[:m] != small:
            raise Violation("%s.normalize(%r): nbest=%d gives %r, not a prefix of nbest=%d %r" % (p.name, text, m, small, n, large))
        maps = [x.output_text for x in p.mapping(text, nbest=n)]
        if maps != large:
            raise Violation("%s: nbest=%d of %r differs with mapping: %r vs %r" % (p.name, n, text, maps, large))
        ctx.label("candidates=%d" % min(len(large), 5))
        if len(large) > 1:
            ctx.nt([text, n])
    return check


def ranking(ctx, case):
    rules, text, n = case["rules"], case["text"], case["n"]
    obj = toy.build(rules)
    all_d = toy.derivations(rules, text)
    if all_d is None:
        return
    best = {}
    for cost, out, _ in all_d:
        best[out] = min(cost, best.get(out, 1 << 60))
    order = sorted(best.values())
    try:
        got = obj.normalize(text, nbest=n)
        first = obj.normalize(text)
        full = obj.normalize(text, nbest=len(best) + 3)
    except Exception as e:
        raise Violation("toy grammar %r: normalize(%r, nbest=%d) raised %s: %s" % (rules, text, n, type(e).__name__, e))
    if n == 1:
        got = [got]
    for xs, k in ((got, n), ([first], 1), (full, len(best) + 3)):
        if isinstance(xs, str):
            xs = [xs]
        if len(xs) != len(set(xs)) or len(xs) != min(k, len(best)):
            raise Violation("toy grammar %r: nbest=%d of %r gives %r; there are %d distinct outputs" % (rules, k, text, xs, len(best)))
        if any(x not in best for x in xs):
            raise Violation("toy grammar %r: nbest=%d of %r gives %r, not derivable" % (rules, k, text, xs))
        costs = [best[x] for x in xs]
        if costs != order[:len(costs)]:
            raise Violation("toy grammar %r: nbest=%d of %r gives %r with joint costs %r; the smallest are %r" % (
                rules, k, text, xs, [c / 64 for c in costs], [c / 64 for c in order[:len(costs)]]))
    if len(best) > 1:
        ctx.nt(case)
    ctx.label("outputs=%d" % min(len(best), 9))


BAD = {"True": True, "False": False, "0": 0, "-1": -1, "-100": -100, "1.0": 1.0, "2.5": 2.5, "'2'": "2", "None": None, "[1]": [1], "nan": float("nan"),
       "1e300": 1e300, "b'1'": b"1"}


def rejects(s):
    def check(ctx, case):
        name, text, method = case
        p = ctx.pipe(s)
        try:
            out = getattr(p.obj, method)(text, nbest=BAD[name])
        except ValueError:
            ctx.nt(case)
            return
        except Exception as e:
            raise Violation("%s.%s(%r, nbest=%s) raised %s, not ValueError" % (p.name, method, text, name, type(e).__name__))
        raise Violation("%s.%s(%r, nbest=%s) returned %r" % (p.name, method, text, name, out))
    return check


def parts(tier):
    big = tier == "thorough"
    k = 15 if big else 1
    out = [Part("ranking", ranking, n=1500 * k, shards=8,
                gen=lambda: st.tuples(toy.grammars(), st.integers(1, 12)).map(lambda t: dict(t[0], n=t[1])))]
    for key in (ALL_KEYS if big else FAST_KEYS):
        s = spec(key)
        out.append(Part("prefix-" + key, prefix(s), needs=(s,), n=260 * k, shards=2 if not big else 6,
                        gen=lambda key=key: st.tuples(pipeline_text(key), st.integers(1, 4), st.integers(1, 8)).map(
                            lambda t: (t[0], t[1], t[1] + t[2]))))
        out.append(Part("rejects-" + key, rejects(s), needs=(s,),
                        enum=lambda: [[b, t, m] for b in BAD for t in ("", "12", "a b") for m in ("normalize", "normalize_with_mapping")]))
    return out

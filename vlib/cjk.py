"""Helpers for the Chinese and Japanese grammar checks: contexts, and readings of digit strings in pieces."""
import re

from vlib import zhnum
from vlib.core import Violation

# text before and after the expression, as written and as expected
ZH_CONTEXTS = [("", "", "", ""), ("结果是", "。", "结果是", "."), ("他说：", "，好", "他说:", ",好"), ("（", "）", "(", ")"), ("", "！", "", "!"),
               ("我记得", "", "我记得", "")]


# inverse normalization leaves the context as it is
ITN_CONTEXTS = [(a, b, a, b) for a, b in (("", ""), ("结果是", "。"), ("他说：", "，好"), ("我记得", ""), ("", "吧"), ("（", "）"))]
JITN_CONTEXTS = [(a, b, a, b) for a, b in (("", ""), ("結果は", "です。"), ("彼は：", "，と"), ("私は", ""), ("（", "）"))]
JA_CONTEXTS = [("", "", "", ""), ("結果は", "です。", "結果は", "です."), ("彼は：", "，と", "彼は:", ",と"), ("（", "）", "(", ")"), ("", "！", "", "!"),
               ("私は", "", "私は", "")]


def spoken(pipe, text, ci, contexts=ZH_CONTEXTS):
    """Normalizes text inside context number ci -> (whole input, the part of the output that stands for text)."""
    a, b, ea, eb = contexts[ci % len(contexts)]
    full = a + text + b
    out = pipe.norm(full)
    if not (out.startswith(ea) and out.endswith(eb) and len(out) >= len(ea) + len(eb)):
        raise Violation("%s.normalize(%r) = %r: the text around the expression is not %r ... %r" % (pipe.name, full, out, ea, eb))
    return full, out[len(ea):len(out) - len(eb) if eb else None]


def wrong(pipe, full, got, what):
    return Violation("%s.normalize(%r) reads %r as %r" % (pipe.name, full, what, got))


def readings_ja(chunk):
    from vlib import janum
    out = {"".join(janum.DIGITS[int(c)] for c in chunk)}
    if (chunk[0] != "0" or chunk == "0") and len(chunk) <= 12:
        t = janum.to_ja(int(chunk))
        out |= {t, re.sub("(?<![二三四五六七八九])千", "一千", t), re.sub("(?<![二三四五六七八九])千(?=[^万]*億|[^億]*万)", "一千", t)}
    return out


def readings(chunk):
    """Readings of a digit string: as a numeral and digit by digit (两 and 幺 folded into 二 and 一)."""
    out = {"".join(zhnum.DIGITS[int(c)] for c in chunk)}
    if (chunk[0] != "0" or chunk == "0") and len(chunk) <= 12:
        out.add(zhnum.to_zh(int(chunk)))
    return out


def fold(s):
    return s.replace("两", "二").replace("幺", "一")


def pieces(digits, got, readings=readings):
    """Whether got reads the digit string in consecutive pieces, losing no digit."""
    got = fold(got)
    seen = set()
    todo = [(0, 0)]
    while todo:
        i, j = todo.pop()
        if (i, j) in seen:
            continue
        seen.add((i, j))
        if i == len(digits):
            if j == len(got):
                return True
            continue
        for k in range(i + 1, min(len(digits), i + 12) + 1):
            for r in readings(digits[i:k]):
                if got.startswith(r, j):
                    todo.append((k, j + len(r)))
    return False

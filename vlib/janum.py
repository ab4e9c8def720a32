"""Reads Japanese numerals back; independent of the code under test."""
import re

DIGITS = "〇一二三四五六七八九"
D = {c: i for i, c in enumerate(DIGITS)}
SECTION = re.compile("(?:([一二三四五六七八九]?)千)?(?:([一二三四五六七八九]?)百)?(?:([一二三四五六七八九]?)十)?([一二三四五六七八九]?)")
BIG = (("兆", 10 ** 12), ("億", 10 ** 8), ("万", 10 ** 4))


def section(s):
    """The value 1 to 9999 of s, or None."""
    m = SECTION.fullmatch(s)
    if not s or not m:
        return None
    n = 0
    for g, name, k in zip(m.groups(), "千百十", (1000, 100, 10)):
        if name in s:
            n += (D[g] if g else 1) * k
    return n + (D[m.group(4)] if m.group(4) else 0)


def value(s):
    """The value of a numeral, or None."""
    if s == "〇":
        return 0
    total = 0
    for name, k in BIG:
        head, sep, tail = s.partition(name)
        if sep:
            v = section(head)
            if v is None:
                return None
            total += v * k
            s = tail
    if s:
        v = section(s)
        if v is None:
            return None
        total += v
    return total or None


def digits(s, zero=""):
    """The digits of a digit-by-digit reading, or None."""
    s = s.replace("ゼロ", "〇")
    return "".join(str(D[c]) for c in s) if s and all(c in D for c in s) else None


SIGNS = (("プラスマイナス", "±"), ("プラス", "+"), ("マイナス", "-"))


def number(s):
    """-> (sign, integer, decimals) or None"""
    sign = ""
    for w, c in SIGNS:
        if s.startswith(w):
            sign, s = c, s[len(w):]
            break
    a, dot, b = s.partition("点")
    v = value(a)
    if v is None or (dot and digits(b) is None):
        return None
    return (sign, v, digits(b) if dot else "")


def to_ja(n):
    """The numeral of n < 10**12 (一 only before 万 and 億)."""
    if n == 0:
        return "〇"

    def sec(k):
        return "".join((DIGITS[k // p % 10] if k // p % 10 > 1 or p == 1 else "") + u for p, u in ((1000, "千"), (100, "百"), (10, "十"), (1, "")) if k // p % 10)
    return "".join(sec(n // k % 10000) + u for k, u in ((10 ** 8, "億"), (10 ** 4, "万"), (1, "")) if n // k % 10000)


if __name__ == "__main__":
    for n in list(range(0, 200000)) + [10 ** 8, 3 * 10 ** 8, 123456789, 999999999999]:
        assert value(to_ja(n)) == n, n
    assert number("マイナス〇点一〇") == ("-", 0, "10")
    print("ok")

"""Reads the written numbers that inverse normalization produces (digits, with 万 億 and signs), tolerating numerals left in words."""
import re
from fractions import Fraction

from vlib import janum, zhnum

SIGNS = (("正负", "±"), ("负的", "-"), ("负", "-"), ("正", "+"), ("プラスマイナス", "±"), ("マイナス", "-"), ("プラス", "+"), ("±", "±"), ("-", "-"), ("+", "+"))
SCALES = (("兆", 10 ** 12), ("亿", 10 ** 8), ("億", 10 ** 8), ("万", 10 ** 4))


def group(s, last):
    """-> (value, decimals) of digits, or of a numeral in words."""
    m = re.fullmatch(r"(\d+)(?:\.(\d+))?", s)
    if m:
        return Fraction(s), m.group(2) or ""
    if last and s.startswith("零"):
        s = s[1:]
    for f in (zhnum.number, janum.number):
        r = f(s)
        if r and not r[0]:
            return Fraction("%d.%s" % (r[1], r[2] or "0")), r[2]
    return None


def read(s):
    """-> (sign, value, decimals as written, percent) or None"""
    sign, pct = "", False
    for w, c in SIGNS:
        if s.startswith(w):
            sign, s = c, s[len(w):]
            break
    if s.endswith("%"):
        pct, s = True, s[:-1]
    total, dec = Fraction(0), ""
    if not s:
        return None
    pos = None
    for name, k in SCALES:
        head, sep, tail = s.partition(name)
        if sep:
            g = group(head, pos is not None)
            if g is None:
                return None
            total += g[0] * k
            dec = g[1] or dec
            s, pos = tail, k
    if s:
        g = group(s, pos is not None)
        if g is None or (pos is not None and g[0] >= pos):
            return None
        total += g[0]
        dec = g[1] or dec
    return sign, total, dec, pct


if __name__ == "__main__":
    assert read("-3亿20") == ("-", 300000020, "", False)
    assert read("101亿零一")[1] == 10100000001
    assert read("10.5万")[1] == 105000 and read("350%") == ("", 350, "", True)
    assert read("六亿")[1] == 600000000 and read("3万5万") is None
    print("ok")

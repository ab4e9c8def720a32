"""An independent reader of Chinese (and Japanese) numerals."""
import re

D = {"零": 0, "〇": 0, "一": 1, "二": 2, "两": 2, "三": 3, "四": 4, "五": 5, "六": 6, "七": 7, "八": 8, "九": 9}
DIGITS = "零一二三四五六七八九"
SMALL = {"十": 10, "百": 100, "千": 1000}


def section(s, zh=True):
    """A well-formed numeral below ten thousand (at least one), without gaps unmarked -> value, or None."""
    total, last, gap, i = 0, 10000, False, 0
    while i < len(s):
        c = s[i]
        if zh and c == "零":
            if gap or i == len(s) - 1:
                return None
            gap = True
            i += 1
            continue
        if c in SMALL:
            # 十 without a digit only at the start of the numeral in Chinese, any place in Japanese
            if zh and not (c == "十" and (total == 0 or last > 10)):
                return None
            d, unit = 1, SMALL[c]
            i += 1
        elif c in D and D[c]:
            d = D[c]
            i += 1
            unit = 1
            if i < len(s) and s[i] in SMALL:
                unit = SMALL[s[i]]
                i += 1
            if not zh and d == 1 and unit in (10, 100, 1000) and False:
                return None
        else:
            return None
        if unit >= last:
            return None
        if zh and last < 10000 and unit * 10 < last and not gap:
            return None         # 一千一 is 1100, not 1001
        total += d * unit
        last, gap = unit, False
    return total if total and not gap else None


def value(s):
    """The value of a Chinese integer numeral below 10^12, or None when it is no well-formed numeral."""
    if s in ("零", "〇"):
        return 0
    total, limit = 0, 10 ** 12
    rest, first = s, True
    for mark, scale in (("亿", 10 ** 8), ("万", 10 ** 4), ("", 1)):
        if mark:
            if mark not in rest:
                continue
            part, _, rest = rest.partition(mark)
        else:
            part, rest = rest, ""
            if not part:
                continue
        body = part
        lead = body.startswith("零")
        if lead:
            body = body[1:]
            if first:
                return None
        v = section(body)
        if v is None:
            return None
        if not first and not lead and (v < 1000 or skipped):
            return None         # a lower group that starts with a gap says 零
        total += v * scale
        first = False
        skipped = False
        if mark == "亿" and "万" not in rest:
            skipped = True
    return total if not first and total < limit else None


def digits(s, one="一幺", two="二"):
    """Digit by digit -> digit string, or None."""
    out = ""
    for c in s:
        if c == "零" or c == "〇":
            out += "0"
        elif c in one:
            out += "1"
        elif c in two:
            out += "2"
        elif c in "三四五六七八九":
            out += str(D[c])
        else:
            return None
    return out


def number(s):
    """[正|负|正负] integer [点 digits] -> (sign, integer value, fraction digits), or None."""
    m = re.fullmatch("(正负|正|负)?([^点]+)(?:点(.+))?", s)
    if not m:
        return None
    v = value(m.group(2))
    f = digits(m.group(3), one="一") if m.group(3) else ""
    if v is None or f is None:
        return None
    return {None: "", "正": "+", "负": "-", "正负": "±"}[m.group(1)], v, f


def to_zh(n, two="二"):
    """The plain numeral of n (0 <= n < 10^12), as people write it; two: 二 or 两 before 百千万亿."""
    if n == 0:
        return "零"

    def sec(v):
        out, gap = "", False
        for u, c in ((1000, "千"), (100, "百"), (10, "十"), (1, "")):
            d = v // u % 10
            if d:
                if gap and out:
                    out += "零"
                out += (two if d == 2 and c in ("千", "百") and c else DIGITS[d]) + c
                gap = False
            else:
                gap = True
        return out
    out, low = "", False
    for scale, c in ((10 ** 8, "亿"), (10 ** 4, "万"), (1, "")):
        v = n // scale % 10000
        if v:
            if out and (low or v < 1000):
                out += "零"
            x = sec(v)
            if v == 2 and c:
                x = two
            out += x + c
            low = False
        elif out:
            low = True
    if out.startswith("一十"):
        out = out[1:]
    return out


def selftest():
    import random
    r = random.Random(1)
    for _ in range(20000):
        n = r.choice([r.randrange(10 ** r.randint(1, 12)), r.randrange(100) * 10 ** r.randint(0, 10) + r.randrange(10 ** r.randint(1, 4))])
        if n < 10 ** 12:
            assert value(to_zh(n)) == n, (n, to_zh(n))
            assert value(to_zh(n, "两")) == n, (n, to_zh(n, "两"))
    for bad in ("一千一", "一万一", "一百一", "十十", "一十百", "二三", "零一", "", "万", "一亿一千万零", "一万万", "百", "一亿一", "一亿一千", "一千零零一", "点"):
        assert value(bad) is None, bad


if __name__ == "__main__":
    selftest()
    print("ok")

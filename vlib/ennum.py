"""An independent reader of English number words: word lists to the set of values they can denote."""

UNITS = {w: i for i, w in enumerate("zero one two three four five six seven eight nine".split())}
TEENS = {w: 10 + i for i, w in enumerate("ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen".split())}
TENS = {w: 10 * (i + 2) for i, w in enumerate("twenty thirty forty fifty sixty seventy eighty ninety".split())}
SCALES = {w: 1000 ** (i + 1) for i, w in enumerate(
    "thousand million billion trillion quadrillion quintillion sextillion septillion octillion nonillion decillion".split())}
ORD_IRREG = {"first": "one", "second": "two", "third": "three", "fifth": "five", "eighth": "eight", "ninth": "nine",
             "twelfth": "twelve"}
NUMBER_WORDS = set(UNITS) | set(TEENS) | set(TENS) | set(SCALES) | {"hundred", "and", "oh", "o", "minus", "negative", "point", "a"}


def below100(w):
    """Value of a 1- or 2-word number below 100, or None."""
    if len(w) == 1:
        for t in (UNITS, TEENS, TENS):
            if w[0] in t:
                return t[w[0]]
    if len(w) == 2 and w[0] in TENS and UNITS.get(w[1], 0) > 0:
        return TENS[w[0]] + UNITS[w[1]]
    return None


def below1000(w):
    v = below100(w)
    if v is not None:
        return v
    if len(w) >= 2 and w[1] == "hundred" and UNITS.get(w[0], 0) > 0:
        rest = w[2:]
        if not rest:
            return UNITS[w[0]] * 100
        if rest[0] == "and":
            rest = rest[1:]
        v = below100(rest) if rest else None
        if v:
            return UNITS[w[0]] * 100 + v
    return None


def cardinal(w):
    """Value of standard number words (optional "and"; a leading "thousand" is one thousand), or None."""
    w = list(w)
    if not w:
        return None
    total, start, last = 0, 0, None
    if w[0] == "a" and len(w) > 1 and w[1] in ("hundred", "thousand", "million", "billion"):
        w[0] = "one"
    if w[0] in SCALES:
        w = ["one"] + w
    for i, x in enumerate(w):
        if x in SCALES:
            if last is not None and SCALES[x] >= last:
                return None
            v = below1000(w[start:i])
            if not v:
                return None
            total += v * SCALES[x]
            last, start = SCALES[x], i + 1
    rest = w[start:]
    if last is None:
        return below1000(rest)
    if not rest:
        return total
    if rest[0] == "and":
        rest = rest[1:]
    v = below1000(rest)
    return total + v if v else None


def year(w):
    """Value of a pairwise reading (nineteen oh five, twenty hundred, twelve thirty four), or None."""
    w = list(w)
    for k in (1, 2):
        a, b = below100(w[:k]), w[k:]
        if a is None or a == 0 or not b:
            continue
        if b == ["hundred"] and a >= 10:
            return a * 100
        if a < 10:
            continue
        if len(b) == 2 and b[0] in ("oh", "o", "zero") and UNITS.get(b[1], 0) > 0:
            return a * 100 + UNITS[b[1]]
        v = below100(b)
        if v is not None and v >= 10:
            return a * 100 + v
    return None


def values(text):
    """All non-negative integers the words can denote as a number or a year."""
    w = text.split()
    return {v for v in (cardinal(w), year(w)) if v is not None}


def digits(text):
    """Digit string read one by one ("oh"/"o"/"zero" = 0), or None."""
    out = []
    for x in text.split():
        if x in ("oh", "o"):
            out.append("0")
        elif x in UNITS:
            out.append(str(UNITS[x]))
        else:
            return None
    return "".join(out) or None


def ordinal_to_cardinal(word):
    """thirtieth -> thirty; None when the word is no ordinal."""
    if word in ORD_IRREG:
        return ORD_IRREG[word]
    if word.endswith("ieth"):
        return word[:-4] + "y"
    if word.endswith("th"):
        return word[:-2]
    return None


def ordinal(text):
    """Value of ordinal words (twenty first), or None."""
    w = text.split()
    if not w:
        return None
    last = ordinal_to_cardinal(w[-1])
    return cardinal(w[:-1] + [last]) if last else None


def signed(text):
    """(negative?, rest of the words)"""
    for s in ("minus ", "negative "):
        if text.startswith(s):
            return True, text[len(s):]
    return False, text


def int_to_words(n, with_and=False):
    """Plain American (or British, with_and) words of n >= 0."""
    if n < 10:
        return [k for k, v in UNITS.items() if v == n][0]
    if n < 20:
        return [k for k, v in TEENS.items() if v == n][0]
    if n < 100:
        t = [k for k, v in TENS.items() if v == n // 10 * 10][0]
        return t + (" " + int_to_words(n % 10) if n % 10 else "")
    if n < 1000:
        r = n % 100
        return int_to_words(n // 100) + " hundred" + ((" and " if with_and else " ") + int_to_words(r, with_and) if r else "")
    for name, v in sorted(SCALES.items(), key=lambda kv: -kv[1]):
        if n >= v:
            r = n % v
            s = int_to_words(n // v, with_and) + " " + name
            if r:
                s += (" and " if with_and and r < 100 else " ") + int_to_words(r, with_and)
            return s

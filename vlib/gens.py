"""Generators shared by the checks (Hypothesis strategies)."""
from hypothesis import strategies as st

DIGITS = "0123456789"
FULL_DIGITS = "０１２３４５６７８９"
ZH_NUM = "零一二三四五六七八九十百千万亿两幺点负百分之"
JA_NUM = "〇一二三四五六七八九十百千万億点"
ZH_WORDS = "年月日号点时分秒元块角毛米克升度第只个半过早晚上下午了的我你他今天气很好儿呃啊"
JA_WORDS = "年月日時分秒円番号目対あいうえおかきくけこアイウエオん東京は今日いい天気"
SYMBOLS = "+-*/=<>.,:;!?%$¥￥€£#@&^_~|'`()[]{}×÷±≥≤° \t"
HARD = "\"\\\n\r\u00a0\u3000\u200b\ufeff\u2028\x01\x1f\x7f\x85"
LATIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def any_char():
    """Any Unicode scalar value except NUL."""
    return st.characters(min_codepoint=1, exclude_categories=("Cs",))


def text_for(lang, max_size=14):
    """Texts near the grammars: numerals, symbols, units, quotes, arbitrary characters."""
    words = {"zh": ZH_WORDS, "ja": JA_WORDS, "en": ""}[lang[:2]]
    nums = {"zh": ZH_NUM, "ja": JA_NUM, "en": ""}[lang[:2]]
    chars = [st.sampled_from(DIGITS), st.sampled_from(SYMBOLS), st.sampled_from(LATIN), st.sampled_from(HARD),
             st.sampled_from(FULL_DIGITS), any_char()]
    if words:
        chars += [st.sampled_from(words), st.sampled_from(nums), st.sampled_from(nums)]
    return st.lists(st.one_of(*chars), max_size=max_size).map("".join)


# ------------------------------------------------------------ expressions
def _i(a, b):
    return st.integers(a, b).map(str)


def _pad(a, b, w=2):
    return st.integers(a, b).map(lambda v: str(v).zfill(w))


def cat(*parts):
    return st.tuples(*[st.just(p) if isinstance(p, str) else p for p in parts]).map("".join)


def one(*xs):
    return st.one_of(*[st.just(x) if isinstance(x, str) else x for x in xs])


def pick(s):
    return st.sampled_from(s.split() if isinstance(s, str) else s)


def digits_number():
    return one(_i(0, 20), _i(0, 9999), _i(0, 10**8 - 1), st.integers(0, 9).flatmap(lambda k: _i(1, 99).map(lambda v: v + "0" * k)))


def decimal_number():
    return cat(_i(0, 9999), ".", st.text(DIGITS, min_size=1, max_size=4))


def cjk_written(lang):
    """Written-form expressions for Chinese/Japanese TN."""
    num = one(digits_number(), decimal_number())
    units = pick("kg km m cm g % °C ml m² km/h 米 元 个 人 天") if lang == "zh" else pick("kg km m cm g % 個 本 人 枚 m/s")
    cur = pick("$ ¥ ￥ € £ US$ HK$ CNY USD EUR JPY")
    return one(
        num, cat(pick("+ - ±"), num), cat(num, "%"), cat(num, units), cat(cur, num), cat(_i(1, 99), "/", _i(1, 99)),
        cat(_i(1900, 2099), pick("/ - ."), _pad(1, 12), pick("/ - ."), _pad(1, 31)),
        cat(_i(0, 23), ":", _pad(0, 59)), cat(_pad(0, 12), ":", _pad(0, 59), pick(["am", "pm", "a.m.", " PM"])),
        cat(_pad(0, 23), ":", _pad(0, 59), ":", _pad(0, 59)),
        cat(num, pick("+ - × ÷ = < > ~ :"), num), st.text(DIGITS, min_size=3, max_size=14),
        cat("1", st.text(DIGITS, min_size=10, max_size=10)), cat(_i(1, 20), "-", _i(21, 50), units))


ZH_SPOKEN = ("一 二 三 十 十二 二十 三十五 一百 一百零五 两百五十 一千零一 两千三百四十五 一万 三万五千 十二万三千四百 一亿 零 幺三八 "
             "一二三四 二零零八 百分之五 百分之三点五 零点五 三点一四 负二 正五 三分之一 五又二分之一 二零二二年一月五日 五月四号 "
             "十二点三十分 下午三点半 三点一刻 早上八点零五分 五元 三块五毛 十二美元 五千克 三公里 二十五摄氏度 每小时 三加五等于八 "
             "三比二 第三 三十多 几十 一共 万一 一心一意 京A一二三四五 幺幺零 G一二三次").split()
JA_SPOKEN = ("一 二 三 十 十二 二十 三十五 百 百五 二百五十 千一 二千三百四十五 一万 三万五千 一億 〇 三点一四 マイナス二 三分の一 "
             "二千二十二年一月五日 五月四日 十二時三十分 午後三時半 五円 十二ドル 五キログラム 三メートル 第三 三番目 三足す五 三対二 "
             "パーセント 五パーセント 百円").split()
EN_NUMWORDS = ("zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen "
               "seventeen eighteen nineteen twenty thirty forty fifty sixty seventy eighty ninety hundred thousand million "
               "billion point minus first second third fifth twentieth twenty-first half quarter oh double dollars dollar "
               "cents euros percent kilometers meters per hour kilograms july january december the of and to past o'clock "
               "a.m. p.m. pm am at dot com www").split()
EN_PLAIN = ("hello world this is plain text without numbers people walk home quickly because rain fell green river stone "
            "Alice went London café 😀 yes no maybe song bird cloud summer garden").split()


EN_ODD = ["\"hello\"", "a\\b", "\\", "\"", "it's", "(one)", "two,", "three.", "100", "a:b", "{x}", "[y]", "x;", "数", "\\\"", "five\"", "—", "#1"]


def en_written_expr():
    num = one(_i(0, 20), _i(0, 9999), _i(0, 10**9), decimal_number(), st.integers(1000, 10**7).map(lambda v: format(v, ",")))
    months = "January February March April May June July August September October November December".split()
    return one(
        num, cat("-", num), cat("$", _i(0, 999)), cat(pick("$ £ €"), _i(0, 99), ".", _pad(0, 99)), cat(_i(1, 999), pick("kg km cm m % lb")),
        cat(_i(1, 31).map(lambda s: s + ("th" if 10 < int(s) < 14 else {"1": "st", "2": "nd", "3": "rd"}.get(s[-1], "th")))),
        cat(_i(1, 12), ":", _pad(0, 59)), cat(_i(1, 12), ":", _pad(0, 59), pick(["am", "pm", " a.m.", " p.m."])),
        cat(pick(months), " ", _i(1, 31)), cat(pick(months), " ", _i(1, 31), ", ", _i(1900, 2030)),
        cat(_i(1, 20), "/", _i(2, 20)), cat(_i(1900, 2030)), cat(_i(190, 202), "0s"),
        cat(pick("bob alice x.y a1"), "@", pick("gmail mail abc"), ".", pick("com org net")),
        cat("www.", pick("google abc"), ".", pick("com org")), cat(_pad(200, 999, 3), "-", _pad(0, 999, 3), "-", _pad(0, 9999, 4)))


def pipeline_text(key):
    """Texts for one pipeline: expressions in and out of context, plus near-grammar noise."""
    if key == "zhtn":
        return one(st.lists(one(cjk_written("zh"), cjk_written("zh"), pick("共 的 今天 ， 。 儿 呃 了 第 电话 在 龘 😀 𠮷 A \" \\"),
                                st.text(ZH_WORDS, min_size=1, max_size=3)), min_size=1, max_size=4).map("".join),
                   text_for("zh", 10))
    if key == "jatn":
        return one(st.lists(one(cjk_written("ja"), cjk_written("ja"), pick("は の 今日 、 。 午後 第 東京 😀 𠮷 A \" \\"),
                                st.text(JA_WORDS, min_size=1, max_size=3)), min_size=1, max_size=4).map("".join),
                   text_for("ja", 10))
    if key == "zhitn":
        return one(st.lists(one(pick(ZH_SPOKEN), pick(ZH_SPOKEN), pick("共 的 今天 ， 。 儿 呃 了 在 😀 𠮷 A \" \\"),
                                st.text(ZH_NUM, min_size=1, max_size=4)), min_size=1, max_size=4).map("".join),
                   text_for("zh", 10))
    if key == "jaitn":
        return one(st.lists(one(pick(JA_SPOKEN), pick(JA_SPOKEN), pick("は の 今日 、 。 東京 😀 𠮷 A \" \\"),
                                st.text(JA_NUM, min_size=1, max_size=4)), min_size=1, max_size=4).map("".join),
                   text_for("ja", 10))
    if key == "enitn":
        return st.lists(one(pick(EN_NUMWORDS), pick(EN_NUMWORDS), pick(EN_PLAIN), pick(EN_ODD)), min_size=1, max_size=8).map(" ".join)
    if key == "entn":
        return st.lists(one(en_written_expr(), pick(EN_PLAIN)), min_size=1, max_size=5).map(" ".join)
    raise KeyError(key)


ALL_KEYS = ("zhtn", "jatn", "zhitn", "jaitn", "enitn", "entn")
FAST_KEYS = ("zhtn", "jatn", "zhitn", "jaitn", "enitn")

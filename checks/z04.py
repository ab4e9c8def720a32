"""Z04: each option of Chinese TN applies exactly its own edit to the output."""
import itertools
import os
import random
import string

from hypothesis import strategies as st

from vlib.core import Part, Violation, spec

PROPERTY = "Z04"
LEVEL = "exploration"
RULE = ("Cases: sentences mixed from plain, traditional, rare and foreign characters, numbers, interjections, 儿 in and out of words, ASCII, Chinese and "
        "full-width punctuation; the output with some options on must be the reference edits applied to the output with all options off. Non-trivial: "
        "the edits change the text.")
ASSUMPTIONS = ["The documented tables (traditional to simplified, the 8105-character standard, punctuation) are the snapshots in vlib/data.",
               "Texts where two words with 儿 overlap are left out."]

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "data")
ROWS = lambda name: [x.rstrip("\n") for x in open(os.path.join(DATA, name), encoding="utf-8")]
T2S = dict(x.split("\t") for x in ROWS("t2s.tsv"))
STD = {x.split("\t")[0] for x in ROWS("std8105.txt")} | set("吶囧屄屌诶飚")
PUNCTS = set(ROWS("puncts_zh.txt")) | set(string.punctuation)
HALF = dict(zip("，。．“”！＂＃％＆＇（）＊＋－／：；＜＝＞？＠＼＾＿｀｛｜｝～＄", ",..\"\"!\"#%&'()*+-/:;<=>?@\\^_`{|}~$"))
HALF.update({chr(ord(c) + 0xFEE0): c for c in string.digits + string.ascii_letters})
SPACES = set(" \t\n\r\v\f\u00a0")
WORDS = ("儿女 儿子 儿孙 女儿 儿媳 妻儿 胎儿 婴儿 新生儿 婴幼儿 幼儿 少儿 小儿 儿歌 儿童 儿科 托儿所 孤儿 儿戏 儿化 台儿庄 鹿儿岛 正儿八经 吊儿郎当 生儿育女 托儿带女 养儿防老 痴儿呆女 佳儿佳妇 儿怜兽扰 "
         "儿无常父 儿不嫌母丑 儿行千里母担忧 儿大不由爷 苏乞儿 容祖儿").split()

OPTS = ("remove_interjections", "remove_erhua", "traditional_to_simple", "remove_puncts", "full_to_half", "tag_oov")
OFF = dict.fromkeys(OPTS, False)


def sp(on):
    return spec("zhtn", **{o: o in on for o in OPTS})


BASE = sp(())


def reference(text, on):
    if "remove_erhua" in on:
        spans = [(i, i + len(w)) for w in WORDS for i in range(len(text)) if text.startswith(w, i)]
        if any(a < d and c < b and not (a <= c and d <= b) and not (c <= a and b <= d) for (a, b), (c, d) in itertools.combinations(spans, 2)):
            return None
        text = "".join(c for i, c in enumerate(text) if c != "儿" or any(a <= i < b for a, b in spans))
    if "traditional_to_simple" in on:
        text = "".join(T2S.get(c, c) for c in text)
    if "remove_interjections" in on:
        text = "".join(c for c in text if c not in "呃啊")
    if "remove_puncts" in on:
        text = "".join(c for c in text if c not in PUNCTS)
    if "full_to_half" in on:
        text = "".join(HALF.get(c, c) for c in text)
    if "tag_oov" in on:
        ok = lambda c: c in STD or c in PUNCTS or c in SPACES or (c < "\x80" and c.isalnum())
        text = "".join(c if ok(c) else "<oov>%s</oov>" % c for c in text)
    return text


def chk(ctx, case):
    on, text = case
    base = ctx.pipe(BASE).norm(text)
    want = reference(base, on)
    if want is None:
        return
    got = ctx.pipe(sp(on)).norm(text)
    if want != base:
        ctx.nt(repr((on, text)))
    ctx.sample([on, text, got])
    if got != want:
        raise Violation("zhtn with %s: normalize(%r) = %r, but its output without options is %r, so it must be %r" % (", ".join(on) or "no options", text, got, base, want))


def chk_base(ctx, case):
    """With every option off, text without anything to normalize comes back as it was."""
    got = ctx.pipe(BASE).norm(case)
    ctx.nt(case)
    ctx.sample(case)
    if got != case:
        raise Violation("zhtn with all options off: normalize(%r) = %r" % (case, got))


FOREIGN = list("éüßЖяαΩあアン한글龘𠀀😀　•")


def piece(safe=False):
    com = "天地人大小多少上下去来说好看我你他这那是不了在有个的今明花鸟水火山石田土草木金玉心手口耳目日月云雨风雪高低长短东南西北中国学生老师朋友"
    opts = [st.sampled_from(com), st.sampled_from(com), st.text(com, min_size=1, max_size=4), st.sampled_from(sorted(T2S)), st.text(sorted(T2S), min_size=1, max_size=3),
            st.sampled_from("呃啊"), st.sampled_from("呃啊"), st.sampled_from("哎呀嗯吧呢哈"), st.just("儿"), st.just("儿"), st.sampled_from(WORDS),
            st.sampled_from(sorted(STD)), st.sampled_from(sorted(PUNCTS)), st.sampled_from("，。、：；？！“”（）《》…—．～"), st.sampled_from(FOREIGN),
            st.sampled_from(sorted(HALF)), st.sampled_from("abcXYZ"), st.sampled_from(["hello", " ", "ok"])]
    if not safe:
        opts += [st.sampled_from(["3", "25", "2024年", "¥5", "1/2", "3kg", "8:30", "2008-08-08", "-5%", "80后", "1.5", "2个", "10086"])]
    return st.one_of(*opts)


def texts():
    return st.lists(piece(), min_size=1, max_size=10).map("".join).filter(lambda t: t.strip())


def chunks(chars, k):
    chars = sorted(chars)
    return ["".join(chars[i:i + k]) for i in range(0, len(chars), k)]


def parts(tier):
    thorough = tier == "thorough"
    singles = [(o,) for o in OPTS]
    every = [c for n in range(1, 7) for c in itertools.combinations(OPTS, n)]
    if thorough:
        groups = [every[i::16] for i in range(16)]
    else:
        rnd = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        rest = [c for c in every if len(c) in (2, 3, 4, 5)]
        pick = singles + [OPTS, ("remove_interjections", "remove_erhua", "traditional_to_simple", "full_to_half")] + rnd.sample(rest, 2)
        groups = [pick[i::5] for i in range(5)]
    ps = []
    for i, g in enumerate(groups):
        g = [list(v) for v in g]
        ps.append(Part("options %d" % i, chk, gen=lambda g=g: st.tuples(st.sampled_from(g), texts()), needs=(BASE,) + tuple(sp(v) for v in g),
                       n=1500 if not thorough else 4000, shards=1))
    d = list(("remove_interjections", "remove_erhua", "traditional_to_simple", "full_to_half"))
    a = list(OPTS)
    ps.append(Part("whole tables", chk, needs=(BASE, sp(d), sp(a)), shards=2,
                   enum=lambda: [[v, t] for v in (a, d) for t in chunks(T2S, 24) + chunks(STD - set("年月日时分秒"), 60) + chunks(PUNCTS, 8) + chunks(HALF, 6) + WORDS
                                 + [p + "儿" + q for p in "花鸟这" for q in ("", "好", "，")]]))
    ps.append(Part("all off", chk_base, needs=(BASE, sp(d), sp(a)), n=1500 if not thorough else 15000, shards=1,
                   gen=lambda: st.lists(piece(safe=True).filter(lambda x: not any("０" <= c <= "９" or c in "０+-=×÷≥≤<>＋－＝<＞＜%％/／:：~～.．" for c in x)), min_size=1, max_size=10)
                   .map("".join).filter(lambda t: t.strip() == t and t)))
    return ps

"""L01: the command line prints tag and text of every input line, verbatim."""
import io
import os
import re
import subprocess
import sys

from hypothesis import strategies as st

from vlib.core import REPO, Part, Violation, quiet_logging, spec

PROPERTY = "L01"
LEVEL = "exploration"
RULE = ("Cases: inputs of up to a dozen lines over texts with quotes, tabs, other Unicode separators, spaces at the ends and every mix of line "
        "endings, given through --text, --file and standard input; a recording processor, and for a part the real commands in a subprocess "
        "compared with tag() and verbalize(). Non-trivial: two or more lines, or a line with a character that is no letter.")
ASSUMPTIONS = ["Standard input is decoded as UTF-8 with universal newlines, as the interpreter does by default."]

ODD = st.sampled_from([" ", "  ", "\t", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\u2029", "\u00a0", "\u3000", "\ufeff", '"', "\\", "\\n", "'", "%s", "{}",
                       "--text", "-5", "#", "\x01", "\x7f", "😀", "e\u0301", "\u200b", "$HOME", "|", "\x1b[0m", "\ud7ff"])
WORD = st.one_of(st.sampled_from(["a", "二十", "12", "今日は", "2.5平方电线", "x y", "2008-08-08", "100"]), ODD, st.text("ab 二", max_size=4))
LINE = st.lists(WORD, max_size=4).map("".join)


@st.composite
def inputs(draw):
    lines = draw(st.lists(LINE, min_size=0, max_size=12))
    ends = [draw(st.sampled_from(["\n", "\n", "\r\n", "\r"])) for _ in lines]
    if lines and draw(st.booleans()):
        ends[-1] = ""
    return [draw(st.sampled_from(["tn", "itn"])), "".join(a + b for a, b in zip(lines, ends)), draw(st.sampled_from(["zh", "en", "ja"]))]


def split(data):
    lines = re.split("\r\n|\r|\n", data)
    return lines[:-1] if lines[-1] == "" else lines


class Recorder:
    def __init__(self):
        self.calls = []

    def tag(self, text):
        self.calls.append(["tag", text])
        return "T%s" % text.encode("utf-8").hex()

    def verbalize(self, tagged):
        self.calls.append(["verbalize", tagged])
        return "V" + tagged[1:]

    def normalize(self, text):
        raise Violation("the command does not print what it tagged: normalize(%r) was called" % text)


def run_fake(direction, argv, data=b""):
    from tn import cli
    p = Recorder()
    out = io.StringIO()
    stdin = io.TextIOWrapper(io.BytesIO(data), encoding="utf-8")
    try:
        cli.run(direction, argv, stdin=stdin, stdout=out, processor_factory=lambda d, a: p)
    except SystemExit as e:
        raise Violation("%s %r exits with %r" % (direction, argv, e.code))
    return out.getvalue()


def want(lines):
    return "".join("T%s\nV%s\n" % (x.encode("utf-8").hex(), x.encode("utf-8").hex()) for x in lines)


def fake(ctx, case):
    direction, data, lang = case
    lines = split(data)
    raw = data.encode("utf-8")
    path = os.path.join(ctx.scratch, "input-%d" % os.getpid())
    with open(path, "wb") as f:
        f.write(raw)
    base = [] if lang == "zh" else ["--language", lang]
    got = run_fake(direction, base, raw)
    if got != want(lines):
        raise Violation("%s on standard input %r printed %s" % (direction, data, decode(got)))
    got = run_fake(direction, base + ["--file", path], raw and b"other\n")
    if got != want(lines):
        raise Violation("%s on the file %r printed %s" % (direction, data, decode(got)))
    for x in lines[:3] + ([data] if "\n" not in data and "\r" not in data else []):
        got = run_fake(direction, ["--text=" + x] + base, b"other\n")
        if got != want([x]):
            raise Violation("%s --text=%r printed %s" % (direction, x, decode(got)))
        if not x.startswith("-"):
            got = run_fake(direction, base + ["--text", x], b"other\n")
            if got != want([x]):
                raise Violation("%s --text %r printed %s" % (direction, x, decode(got)))
    if len(lines) > 1 or re.search(r"\W", data.strip("\r\n")):
        ctx.nt(case)
    ctx.label("%d lines" % min(len(lines), 5))
    ctx.sample(case)


def decode(out):
    r = []
    for x in out.split("\n")[:8]:
        try:
            r.append(x[:1] + repr(bytes.fromhex(x[1:]).decode("utf-8")))
        except ValueError:
            r.append(x)
    return " | ".join(r)


# -------------------------------------------------------------- real commands
REAL = [("tn", "zh", {}, "zhtn"), ("tn", "ja", {}, "jatn"), ("itn", "ja", {}, "jaitn"),
        ("tn", "ja", {"remove_puncts": True}, "jatn"), ("itn", "ja", {"full_to_half": True, "enable_0_to_9": True}, "jaitn")]
SPECS = [spec("zhtn"), spec("jatn"), spec("jaitn"), spec("jatn", remove_puncts=True), spec("jaitn", full_to_half=True, enable_0_to_9=True)]
TEXTS = st.one_of(st.sampled_from(["2.5平方电线", "二千二十五年三月五日", "百二十三円です", "１２時", "一、二", "今日は、いい天気。", "价格￥13.5", "3/4", "九", "呃这个呃啊", "他说\"好\"", "10:30", ""]), LINE)


def real_setup(ctx):
    """One cache directory for the real commands, outside the pipelines compared with."""
    d = os.path.join(ctx.scratch, "cli-cache-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


@st.composite
def real_case(draw):
    return [draw(st.integers(0, len(REAL) - 1)), draw(st.lists(TEXTS, min_size=1, max_size=12)), draw(st.sampled_from(["stdin", "file", "text", "stdin"]))]


def command(direction, argv, data, env=None):
    e = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="", **(env or {}))
    e.pop("PYTHONIOENCODING")
    return subprocess.run([sys.executable, "-m", direction] + argv, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=REPO, env=e, timeout=300)


def real(ctx, case):
    i, lines, how = case
    direction, lang, opts, _ = REAL[i]
    pipe = ctx.pipe(SPECS[i])
    argv = ["--language", lang, "--cache_dir", ctx.state]
    for k, v in opts.items():
        argv += ["--" + k.replace("_", "-")] if v else ["--no-" + k]
    lines = [x for x in lines if "\r" not in x and "\n" not in x]
    if how == "text":
        lines = [x for x in lines if "\x00" not in x][:1]
        if not lines:
            return
        argv.append("--text=" + lines[0])
    data = "".join(x + "\n" for x in lines).encode("utf-8")
    if how == "file":
        path = os.path.join(ctx.scratch, "real-%d" % os.getpid())
        with open(path, "wb") as f:
            f.write(data)
        argv += ["--file", path]
    r = command(direction, argv, data if how == "stdin" else b"")
    expect = ""
    for x in lines:
        tagged = pipe.tag(x)
        expect += tagged + "\n" + pipe.verbalize(tagged) + "\n"
    got = r.stdout.decode("utf-8", "replace")
    if r.returncode or got != expect:
        raise Violation("python -m %s %s on %r: exit %d, printed %r, expected %r; %s" % (direction, " ".join(argv), lines, r.returncode, got[:400], expect[:400],
                                                                                      r.stderr.decode("utf-8", "replace")[-300:]))
    ctx.nt(case)
    ctx.sample(case)


def parts(tier):
    k = 15 if tier == "thorough" else 1
    return [
        Part("recording processor", fake, gen=inputs, n=2400 * k, shards=4),
        Part("real commands", real, gen=real_case, n=30 * min(k, 6), shards=1, needs=tuple(SPECS), setup=real_setup),
    ]

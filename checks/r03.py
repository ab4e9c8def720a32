"""R03: the runtime's command line tool prints tag and text for every line."""
import os
import subprocess

from hypothesis import strategies as st

from vlib import cpp
from vlib.core import Part, Violation, spec
from vlib.gens import ALL_KEYS, pipeline_text

PROPERTY = "R03"
LEVEL = "exploration"
RULE = ("Cases: runs of the runtime's command line tool (built from the tree with sanitizers) for each of the six pipelines with --text, --file or both, files of "
        "up to eight lines (blank lines, inner and outer spaces, any Unicode white space, with and without a last line end), flags in any order and spelling, and runs without a "
        "needed flag. The transducers are played from a table of the Python pipeline's outputs. It must print exactly the tagged stream and the verbalized "
        "text of the text and of every line, in order, and ask nothing else of the transducers. Non-trivial: at least two lines.")
ASSUMPTIONS = ["OpenFst, gflags and glog are replaced by stand-ins.", "Lines end in LF (the runtime is a POSIX program; a CR belongs to the line)."]

SPECS = {k: spec(k) for k in ALL_KEYS}


def setup(ctx):
    return cpp.build_tool(ctx)


def run(ctx, args, table):
    """-> (status, stdout, stderr, asked)"""
    names = [os.path.join(ctx.scratch, n) for n in ("answers", "asked")]
    with open(names[0], "w") as f:
        f.writelines("%s %s %s\n" % tuple(cpp.hx(x) for x in row) for row in table)
    open(names[1], "w").close()
    env = dict(os.environ, WETEXT_ANSWERS=names[0], WETEXT_ASKED=names[1])
    r = subprocess.run([ctx.state] + args, env=env, capture_output=True, stdin=subprocess.DEVNULL, timeout=120)
    asked = [tuple(cpp.un(x) for x in line.split()) for line in open(names[1])]
    return r.returncode, r.stdout, r.stderr, asked


def chk(ctx, case):
    keys, key, text, lines, last, spell, missing = case
    key = keys[key % len(keys)]
    p = ctx.pipe(SPECS[key])
    paths = [os.path.join(ctx.scratch, cpp.PREFIX[key] + f) for f in ("tagger.fst", "verbalizer.fst")]
    for f in paths:
        open(f, "w").close()
    name = os.path.join(ctx.scratch, "input.txt")
    body = "\n".join(lines) + ("\n" if last else "")
    with open(name, "w", encoding="utf-8", newline="") as f:
        f.write(body)
    flags = [("tagger", paths[0]), ("verbalizer", paths[1])]
    if missing:
        flags.pop(missing - 1)
    flags += [("text", text)] if text is not None else []
    flags += [("file", name)] if lines is not None else []
    flags = flags[spell % len(flags):] + flags[:spell % len(flags)]
    args = []
    for i, (k, v) in enumerate(flags):
        args += ["--%s=%s" % (k, v)] if (spell >> 2) + i & 1 else ["-%s=%s" % (k, v)]
    want_lines = ([text] if text else []) + body.split("\n")
    if want_lines and want_lines[-1] == "":
        want_lines.pop()        # what follows the last line end is no line
    table, want, asks = [], [], []
    for t in want_lines:
        tagged, out = (p.tag(t), None) if t else ("", "")
        if t:
            out = p.verbalize(tagged)
            reordered = p.obj.token_parser().reorder(tagged)
            table += [(paths[0], t, tagged), (paths[1], reordered, out)]
            asks += [(paths[0].encode(), t.encode()), (paths[1].encode(), reordered.encode())]
        want += [tagged, out]
    rc, out, err, asked = run(ctx, args, table)
    if b"Sanitizer" in err or b"runtime error" in err:
        raise Violation("processor_main %r on lines %r: %s" % (args, want_lines, err.decode("utf-8", "replace")[:1500]))
    if missing:
        if rc == 0 or out or asked:
            raise Violation("processor_main %r without --%s: status %d, output %r" % (args, ["tagger", "verbalizer"][missing - 1], rc, out))
        return
    expect = "".join(w + "\n" for w in want).encode()
    if len(want_lines) > 1:
        ctx.nt(str(case))
    ctx.label(key)
    ctx.sample([key, text, lines])
    if rc != 0 or out != expect or asked != asks:
        raise Violation("processor_main (%s) on the lines %r: status %d, printed %r, expected %r; asked %r" % (
            key, want_lines, rc, out.decode("utf-8", "replace")[:1500], expect.decode()[:1500], asked if asked != asks else "as expected"))


def parts(tier):
    k = 12 if tier == "thorough" else 1
    out = []
    for group in (["zhtn", "jatn"], ["zhitn", "jaitn"], ["entn", "enitn"]):
        line = st.integers(0, 1).flatmap(lambda i, g=tuple(group): pipeline_text(g[i]))
        line = st.one_of(line, line, st.tuples(st.sampled_from(["", " ", "\t", "\u3000", "\r", "\u2028", "\x0c", "\x85"]), line, st.sampled_from(["", " ", "  ", "\u3000", "\x1c"])).map("".join),
                         st.just("")).map(lambda s: s.replace("\0", "").replace("\n", " ")).filter(lambda s: not s or s.strip(" ") and (s.strip()))
        gen = st.tuples(st.just(group), st.integers(0, 1), st.one_of(st.none(), line.filter(lambda s: s)), st.lists(line, max_size=8), st.booleans(), st.integers(0, 31),
                        st.sampled_from([0] * 12 + [1, 2]))
        out.append(Part("runs of the tool, %s and %s" % tuple(group), chk, gen=lambda gen=gen: gen, needs=tuple(SPECS[x] for x in group), n=150 * k, shards=2, setup=setup))
    return out

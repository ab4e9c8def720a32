"""C03: concurrent constructions of one cache entry."""
import json
import os
import time

from hypothesis import strategies as st

from checks import c02
from vlib import cachelab as lab
from vlib.core import Part, Violation

PROPERTY = "C03"
LEVEL = "exploration"
RULE = ("Cases: two to six processes or threads construct the same entry at once with random delays between the lines of the cache code, some "
        "overwriting, some killed; or one construction is stopped before its k-th line while another runs (or dies at its own line k2), for every k; "
        "or the lock is held. Non-trivial: the constructions overlap and at least one has to build or wait.")
ASSUMPTIONS = ["Preemption is explored at line granularity of tn/cache.py and build_fst, with one preemption per schedule, plus random delays.",
               "flock semantics of a local file system."]

SCENARIOS = ["empty", "load", "corrupt", "previous", "residue"]


def setup(ctx):
    return c02.setup(ctx)


def only_entry(cache, rel, what):
    name = os.path.basename(rel)
    e, residue = lab.entries(cache)
    mine = [x for x in e if name in os.path.basename(x)]
    if residue or len(mine) != 1:
        raise Violation("%s: left behind: %s" % (what, [os.path.basename(x) for x in residue + mine]))


@st.composite
def crowd(draw):
    n = draw(st.integers(2, 6))
    procs = []
    for _ in range(n):
        p = {"overwrite": draw(st.sampled_from([False, False, False, True])), "delay_seed": draw(st.integers(0, 10 ** 6))}
        if draw(st.integers(0, 5)) == 0:
            p["crash_at"] = draw(st.integers(1, 950))
        if draw(st.integers(0, 4)) == 0:
            p["threads"] = draw(st.integers(2, 4))
            p.pop("crash_at", None)
        procs.append(p)
    return [draw(st.sampled_from(SCENARIOS)), draw(st.sampled_from([0.0, 0.0, 0.01, 0.05])), procs]


def together(ctx, case):
    sc, slow, procs = case
    base, rel, _ = ctx.state
    cache, keep = c02.prepare(ctx, base, rel, sc)
    try:
        what = "%s entry, %s at once" % (sc, json.dumps(procs))
        r, w = os.pipe()
        hs = []
        for p in procs:
            hs.append(lab.start(ctx.scratch, cache, slow_build=slow, barrier=r, closing=(w,), **p))
        os.close(w)
        os.close(r)
        res = [h.wait(90) for h in hs]
        builds, most, least = 0, 0 if keep else 1, 0
        for p, x in zip(procs, res):
            builds += x["built"]
            if x["status"] == "crash" and "crash_at" in p:
                most += 1 + (1 if not keep else 0)
                continue
            if x["status"] == "ok" and "threads" in p:
                bad = [o for o in x["outs"] if o != lab.reference(lab.GRAMMAR)]
                if bad:
                    raise Violation("%s: a thread got %r" % (what, bad[0]))
            else:
                lab.good(what, x)
            if p["overwrite"]:
                most += p.get("threads", 1)
                least += p.get("threads", 1)
        if not least <= builds <= most:
            raise Violation("%s: the grammar was built %d times, expected %d to %d" % (what, builds, least, most))
        if not any("crash_at" in p for p in procs):
            only_entry(cache, rel, what)
        lab.settled(ctx.scratch, cache, what, first_built=(0,))  if not any(x["status"] == "crash" for x in res) or any(
            x["status"] == "ok" for x in res) else lab.settled(ctx.scratch, cache, what)
        lab.good(what + ", sibling", lab.construct(ctx.scratch, cache, fingerprint=c02.SIBLING), built=(0,))
        if builds or least:
            ctx.nt(case)
        ctx.label("%d builds" % builds)
        ctx.sample(case)
    finally:
        lab.drop(cache)


def preempt(ctx, case):
    """One construction stops before line k, another runs, the first goes on."""
    sc, k, over_a, over_b, k2 = case
    base, rel, _ = ctx.state
    cache, keep = c02.prepare(ctx, base, rel, sc)
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    fds = [r1, w1, r2, w2]
    a = None
    try:
        what = "%s entry, construction%s stopped before line event %d while another%s %s" % (
            sc, " (overwriting)" if over_a else "", k, " (overwriting)" if over_b else "", "dies before its event %d" % k2 if k2 else "runs")
        a = lab.start(ctx.scratch, cache, overwrite=over_a, pause=(k, w1, r2), closing=(r1, w2))
        os.close(w1)
        fds.remove(w1)
        os.close(r2)
        fds.remove(r2)
        stopped = os.read(r1, 1) == b"r"
        b = lab.construct(ctx.scratch, cache, overwrite=over_b, lock_timeout=0.01, crash_at=k2 or None)
        waited = False
        if b["status"] == "exc":
            waited = True
            if b["exc"][0] != "CacheLockTimeout":
                raise Violation("%s: it raised %s: %s" % (what, b["exc"][0], b["msg"]))
            if b["built"]:
                raise Violation("%s: it could not get the lock, but built the grammar" % what)
        elif b["status"] != "crash":
            lab.good(what + ": the other", b, built=(1,) if over_b else (0,) if keep else (0, 1))
        if stopped:
            os.write(w2, b"g")
        os.close(w2)
        fds.remove(w2)
        ra = a.wait(60)
        a = None
        lab.good(what + ": the stopped one", ra, built=(1,) if over_a else (0,) if keep else (0, 1))
        if b["status"] == "ok" and not over_a and not over_b and ra["built"] + b["built"] > 1:
            raise Violation("%s: both built the grammar" % what)
        if waited and sc == "load" and not over_a and not over_b:
            raise Violation("%s: the entry is valid and nobody replaces it, but the other waited for the lock" % what)
        if b["status"] == "ok" or waited:
            only_entry(cache, rel, what)
        lab.good(what + ": afterwards", lab.construct(ctx.scratch, cache), built=(0,))
        lab.good(what + ": the sibling entry", lab.construct(ctx.scratch, cache, fingerprint=c02.SIBLING), built=(0,))
        if stopped:
            ctx.nt(case)
        ctx.label("%s %s" % (sc, "waited" if waited else b["status"]))
        ctx.sample(case)
    finally:
        if a is not None:
            a.kill()
        for fd in fds:
            os.close(fd)
        lab.drop(cache)


def points(ctx):
    counts = ctx.state[2]
    out = []
    for sc in SCENARIOS:
        for k in range(1, counts[sc][0] + 1):
            for oa in (False, True):
                for ob in (False, True):
                    out.append([sc, k, oa, ob, 0])
                    out.append([sc, k, oa, ob, 1 + (k * 37 + 11 * oa + 5 * ob) % 940])
    return out


@st.composite
def held(draw):
    return {"timeout": draw(st.sampled_from(["0", "0.0", "0.05", "0.2", "1e-3", "abc", "nan", "inf", "-1", "", "-0.5", "1_0x"])),
            "payload": draw(st.one_of(st.none(), st.binary(max_size=30).map(lambda b: b.hex()), st.just((b"\0" + b"[" * 20000).hex()),
                                      st.just((b"\0" + b"x" * 70000).hex()), st.just(b"\0null".hex()), st.just("00"), st.just(""))),
            "over": draw(st.booleans()), "kill": draw(st.booleans()), "scenario": draw(st.sampled_from(["empty", "load", "corrupt"])),
            "n": draw(st.integers(1, 3))}


def holding(ctx, case):
    """While a construction holds the lock: others of the key time out, other keys and valid entries do not wait; when the
    holder ends or dies the lock is free."""
    base, rel, _ = ctx.state
    sc = case["scenario"]
    cache, keep = c02.prepare(ctx, base, rel, sc)
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    fds = [r1, w1, r2, w2]
    a = None
    try:
        what = "%s entry, lock held: %s" % (sc, json.dumps(case)[:300])
        a = lab.start(ctx.scratch, cache, overwrite=True, build_pause=(w1, r2), closing=(r1, w2))
        os.close(w1)
        fds.remove(w1)
        os.close(r2)
        fds.remove(r2)
        if os.read(r1, 1) != b"r":
            raise Violation(what + ": the holder never built")
        if case["payload"] is not None:
            parent, name = os.path.split(os.path.join(cache, rel))
            locks = [f for f in os.listdir(parent) if name in f and os.path.isfile(os.path.join(parent, f))]
            for f in locks:
                with open(os.path.join(parent, f), "r+b") as h:
                    h.truncate(0)
                    h.write(bytes.fromhex(case["payload"]))
        must_wait = case["over"] or not keep
        try:
            t = float(case["timeout"])
            valid = t >= 0 and t < 1e9
        except ValueError:
            valid = False
        start = time.monotonic()
        rs = [lab.start(ctx.scratch, cache, overwrite=case["over"], lock_timeout=case["timeout"]) for _ in range(case["n"])]
        for r in [x.wait(30) for x in rs]:
            if not must_wait:
                lab.good(what + ": a construction of the valid entry", r, built=(0,))
                continue
            want = "CacheLockTimeout" if valid else "ValueError"
            if r["status"] != "exc" or r["exc"][0] != want:
                raise Violation("%s: expected %s, got %s" % (what, want, r))
            if r["built"]:
                raise Violation(what + ": built without the lock")
        took = time.monotonic() - start
        if valid and must_wait and took < t:
            raise Violation("%s: gave up after %.3f s" % (what, took))
        lab.good(what + ": another entry", lab.construct(ctx.scratch, cache, fingerprint="9" * 64, lock_timeout=5), built=(1,))
        if case["kill"]:
            a.kill()
            a = None
            lab.good(what + ": after the holder was killed", lab.construct(ctx.scratch, cache, lock_timeout=5), built=(0,) if keep else (1,))
        else:
            late = lab.start(ctx.scratch, cache, overwrite=False, lock_timeout=30)
            os.write(w2, b"g")
            os.close(w2)
            fds.remove(w2)
            lab.good(what + ": the holder", a.wait(60), built=(1,))
            a = None
            lab.good(what + ": one that waited", late.wait(60), built=(0,))
        only_entry(cache, rel, what)
        ctx.nt(case)
        ctx.sample(case)
    finally:
        if a is not None:
            a.kill()
        for fd in fds:
            os.close(fd)
        lab.drop(cache)


def parts(tier):
    deep = tier == "thorough"
    return [
        Part("one preemption", preempt, enum=points, limit=None if deep else 640, shards=8, setup=setup),
        Part("random overlap", together, gen=crowd, n=1600 if deep else 120, shards=4, setup=setup),
        Part("held lock", holding, gen=held, n=800 if deep else 60, shards=3, setup=setup),
    ]

"""Runner shared by all checks: pipelines, workers, Hypothesis driving, replay, evidence.

A check module (checks/<id>.py) defines

    PROPERTY = "Z01"
    LEVEL = "exploration"
    RULE = "how cases are made; what makes one non-trivial"
    ASSUMPTIONS = [...]
    def parts(tier): -> list of Part

Each Part is one executable property over generated inputs.  Cases are plain
JSON values, so a shrunk failing case is itself the replay file.
"""
import hashlib
import importlib
import itertools
import json
import logging
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
DEV_CACHE = os.environ.get("VERIF_DEV_CACHE") or False
SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK_SECONDS", "40"))


class Violation(Exception):
    """The property does not hold for the current case."""


class StopSearch(BaseException):
    """Ends a Hypothesis run early (shrink budget used up, or another worker failed)."""


class HarnessError(Exception):
    pass


def setup_paths():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HYPOTHESIS_SITE not in sys.path:
        sys.path.append(HYPOTHESIS_SITE)


# ----------------------------------------------------------------- pipelines
PIPES = {
    "zhtn": ("tn.chinese.normalizer", "Normalizer"),
    "entn": ("tn.english.normalizer", "Normalizer"),
    "jatn": ("tn.japanese.normalizer", "Normalizer"),
    "zhitn": ("itn.chinese.inverse_normalizer", "InverseNormalizer"),
    "enitn": ("itn.english.inverse_normalizer", "InverseNormalizer"),
    "jaitn": ("itn.japanese.inverse_normalizer", "InverseNormalizer"),
}
RULES = {"roman": ("tn.english.rules.roman", "Roman")}  # rules used on their own, which have no cache


def spec(key, **opts):
    """A buildable pipeline: key plus non-default options."""
    return (key, tuple(sorted(opts.items())))


def spec_name(s):
    return s[0] + "".join("+%s=%s" % kv for kv in s[1])


def quiet_logging():
    logging.disable(logging.WARNING)


def build_pipe(s):
    key = s[0].split("#")[0]  # "jatn#2": a second instance of jatn
    mod, cls = RULES.get(key) or PIPES[key]
    klass = getattr(importlib.import_module(mod), cls)
    quiet_logging()
    if key in RULES:
        return klass(**dict(s[1]))
    return klass(cache_dir=DEV_CACHE, **dict(s[1]))


class Pipe:
    """A normalizer under test; exceptions it raises become violations."""

    def __init__(self, s, obj):
        self.spec, self.obj, self.name = s, obj, spec_name(s)

    def _call(self, what, fn, *a, **k):
        try:
            return fn(*a, **k)
        except RecursionError:
            raise
        except Exception as e:
            raise Violation("%s.%s(%s) raised %s: %s" % (
                self.name, what, ", ".join([repr(x) for x in a] + ["%s=%r" % kv for kv in k.items()]),
                type(e).__name__, str(e)[:300]))

    def norm(self, text, **k):
        out = self._call("normalize", self.obj.normalize, text, **k)
        if not k and not isinstance(out, str):
            raise Violation("%s.normalize(%r) returned %r, not a string" % (self.name, text, out))
        return out

    def mapping(self, text, **k):
        return self._call("normalize_with_mapping", self.obj.normalize_with_mapping, text, **k)

    def tag(self, text):
        return self._call("tag", self.obj.tag, text)

    def verbalize(self, stream):
        return self._call("verbalize", self.obj.verbalize, stream)

    def expect(self, text, *allowed, note=""):
        out = self.norm(text)
        if out not in allowed:
            raise Violation("%s.normalize(%r) = %r, expected %s%s" % (
                self.name, text, out, " or ".join(repr(a) for a in allowed[:6]), (" (%s)" % note) if note else ""))
        return out


# --------------------------------------------------------------------- parts
class Part:
    """gen: zero-argument callable giving a Hypothesis strategy, or enum: callable
    giving the list of cases of a finite domain (sampled with a stride when limit
    is set).  check(ctx, case) raises Violation.  needs: tuple of pipeline specs."""

    def __init__(self, name, check, gen=None, enum=None, needs=(), n=1000, shards=1, limit=None, setup=None, serial=False):
        self.name, self.check, self.gen, self.enum = name, check, gen, enum
        self.needs, self.n, self.shards, self.limit, self.setup = tuple(needs), n, shards, limit, setup
        self.exhaustive = enum is not None and limit is None


class Ctx:
    """What a part's check gets: pipes by name, counters, scratch directory."""

    def __init__(self, pipes, tier, seed, scratch):
        self.pipes, self.tier, self.seed, self.scratch = pipes, tier, seed, scratch
        self.reset()
        self.state = None

    def reset(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []

    def __getitem__(self, key):
        for s, p in self.pipes.items():
            if s[0] == key and not s[1]:
                return p
        raise KeyError(key)

    def pipe(self, s):
        if s not in self.pipes:
            self.pipes[s] = Pipe(s, build_pipe(s))
        return self.pipes[s]

    def nt(self, key):
        """Count the case as non-trivial, once per distinct key."""
        if not isinstance(key, (bytes, str)):
            key = json.dumps(key, ensure_ascii=True, sort_keys=True, default=str)
        if isinstance(key, str):
            key = key.encode("utf-8", "backslashreplace")
        self.nontrivial.add(hashlib.blake2b(key, digest_size=8).digest())

    def label(self, name, k=1):
        self.labels[name] = self.labels.get(name, 0) + k

    def sample(self, x, cap=4):
        n = self.evaluations
        if len(self.samples) < cap:
            if n in (1, 7, 40, 150) or (n > 150 and n % 500 == 0):
                self.samples.append(x)


def subseed(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_shard(part, ctx, shard, nshards, stop):
    """Runs one shard of one part; returns a result dict."""
    best = {"case": None, "msg": None, "size": None}
    first_fail = [None]

    def once(case):
        if stop is not None and stop.is_set() and first_fail[0] is None:
            raise StopSearch()
        if first_fail[0] is not None and time.time() - first_fail[0] > SHRINK_SECONDS:
            raise StopSearch()
        ctx.evaluations += 1
        ctx.sample(case)
        try:
            part.check(ctx, case)
        except Violation as v:
            size = len(json.dumps(case, ensure_ascii=False, default=str))
            if first_fail[0] is None:
                first_fail[0] = time.time()
            if best["size"] is None or size <= best["size"]:
                best.update(case=case, msg=str(v), size=size)
            raise

    if part.setup is not None:
        ctx.state = part.setup(ctx)
    try:
        if part.enum is not None:
            cases = part.enum(ctx) if _wants_ctx(part.enum) else part.enum()
            if part.limit is not None:
                cases = list(cases)
                if len(cases) > part.limit:
                    import random
                    r = random.Random(subseed(ctx.seed, part.name))
                    cases = r.sample(cases, part.limit)
            for i, case in enumerate(cases):
                if i % nshards == shard:
                    once(case)
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings
            n = part.n // nshards + (1 if shard < part.n % nshards else 0)
            if n:
                strat = part.gen(ctx) if _wants_ctx(part.gen) else part.gen()

                @hypothesis.seed(subseed(ctx.seed, part.name, shard))
                @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                          phases=(Phase.generate, Phase.shrink), print_blob=False, report_multiple_bugs=False,
                          suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                 HealthCheck.large_base_example])
                @given(strat)
                def test(case):
                    once(case)

                test()
    except StopSearch:
        pass
    except Violation:
        pass
    except Exception as e:
        # Hypothesis reports flakiness when a failure does not repeat: state kept
        # between calls of the code under test.  Report what was seen.
        if best["case"] is None or "lak" not in type(e).__name__:
            raise
    if best["case"] is not None and stop is not None:
        stop.set()
    return {
        "part": part.name, "shard": shard, "evaluations": ctx.evaluations, "nontrivial": ctx.nontrivial,
        "labels": ctx.labels, "samples": ctx.samples, "fail": best if best["case"] is not None else None,
    }


def _wants_ctx(fn):
    try:
        return fn.__code__.co_argcount - len(fn.__defaults__ or ()) == 1
    except AttributeError:
        return False


def _die_with_parent(parent):
    """No worker outlives the check (PR_SET_PDEATHSIG)."""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    except Exception:
        pass
    if os.getppid() != parent:
        os._exit(5)


def _child(fn):
    """Forks; runs fn in the child; child never returns."""
    sys.stdout.flush()
    sys.stderr.flush()
    parent = os.getpid()
    pid = os.fork()
    if pid == 0:
        code = 0
        _die_with_parent(parent)
        try:
            fn()
        except BaseException:
            traceback.print_exc()
            code = 3
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
    return pid


class Runner:
    def __init__(self, module, tier, seed):
        self.m, self.tier, self.seed = module, tier, seed
        self.parts = module.parts(tier)
        names = [p.name for p in self.parts]
        assert len(set(names)) == len(names), "duplicate part names"
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % module.PROPERTY)
        self.jobs = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def build_all(self, specs):
        pipes = {}
        for s in specs:
            try:
                pipes[s] = Pipe(s, self._built(s) or build_pipe(s))
            except Exception as e:
                return pipes, (s, e)
        return pipes, None

    def start_builds(self, specs, sem):
        """Builds every distinct pipeline once, each in a process of its own; hosts
        load the pickled objects (or build themselves if one cannot be pickled)."""
        self.building = {s: os.path.join(self.tmp, "b-%d" % i) for i, s in enumerate(specs)}

        def work(s):
            with sem:
                t0 = time.time()
                try:
                    body = pickle.dumps(("built", build_pipe(s)))
                except (pickle.PicklingError, TypeError, AttributeError):
                    body = pickle.dumps(("here", None))
                except Exception:
                    body = pickle.dumps(("here", None))  # the host meets, and reports, the same exception
                self._write(self.building[s], body)
                if os.environ.get("VERIF_VERBOSE"):
                    print("built %s in %.1fs" % (spec_name(s), time.time() - t0), flush=True)

        return [_child(lambda s=s: work(s)) for s in specs]

    def _built(self, s):
        path = getattr(self, "building", {}).get(s)
        if path is None:
            return None
        end = time.time() + 1800
        while not os.path.exists(path):
            if time.time() > end:
                return None
            time.sleep(0.05)
        with open(path, "rb") as f:
            try:
                return pickle.load(f)[1]
            except Exception:
                return None

    @staticmethod
    def _write(path, body):
        with open(path + ".t", "wb") as f:
            f.write(body)
        os.rename(path + ".t", path)

    def _save(self, name, obj):
        path = os.path.join(self.tmp, name)
        self._write(path, pickle.dumps(obj))

    def host(self, gi, needs, parts, sem, stop):
        pipes, err = self.build_all(needs)
        if err:
            s, e = err
            self._save("r-%d-build" % gi, {
                "part": "build", "shard": 0, "evaluations": 1, "nontrivial": set(), "labels": {}, "samples": [],
                "fail": {"case": {"build": [s[0], list(map(list, s[1]))]}, "size": 1,
                         "msg": "constructing %s raised %s: %s" % (spec_name(s), type(e).__name__, str(e)[:300])}})
            stop.set()
            return
        pids = []
        for part in parts:
            for sh in range(part.shards):

                def work(part=part, sh=sh):
                    with sem:
                        t1 = time.time()
                        scratch = os.path.join(self.tmp, "s-%d-%s-%d" % (gi, part.name, sh))
                        os.makedirs(scratch)
                        ctx = Ctx(pipes, self.tier, self.seed, scratch)
                        r = run_shard(part, ctx, sh, part.shards, stop)
                        shutil.rmtree(scratch, ignore_errors=True)
                    r["wall"] = time.time() - t1
                    if os.environ.get("VERIF_VERBOSE"):
                        print("ran %s/%d in %.1fs" % (part.name, sh, r["wall"]), flush=True)
                    self._save("r-%d-%s-%d" % (gi, part.name, sh), r)

                pids.append(_child(work))
        bad = 0
        for pid in pids:
            _, st = os.waitpid(pid, 0)
            bad += st != 0
        if bad:
            raise HarnessError("%d worker(s) failed" % bad)

    def run(self):
        t0 = time.time()
        if any(p.gen for p in self.parts):
            import hypothesis  # noqa: F401  (imported and its tables made once, before forking)
            import hypothesis.strategies as st
            st.text().validate()
            try:
                from hypothesis.internal.charmap import charmap
                charmap()
            except Exception:
                pass
        sem = mp.Semaphore(self.jobs)
        stop = mp.Event()
        groups = {}
        for part in self.parts:
            groups.setdefault(part.needs, []).append(part)
        # longest builds first
        order = sorted(groups, key=lambda ns: -max([{"entn": 9, "zhitn": 5}.get(s[0], 1) for s in ns] or [0]))
        rank = lambda s: -{"entn": 9, "zhitn": 5}.get(s[0], 1)
        pids = self.start_builds(sorted({s for ns in groups for s in ns}, key=rank), sem)
        for gi, needs in enumerate(order):
            pids.append(_child(lambda gi=gi, needs=needs: self.host(gi, needs, groups[needs], sem, stop)))
        bad = 0
        for pid in pids:
            _, st = os.waitpid(pid, 0)
            bad += st != 0
        results = []
        for name in sorted(os.listdir(self.tmp)):
            if name.startswith("r-"):
                with open(os.path.join(self.tmp, name), "rb") as f:
                    results.append(pickle.load(f))
        return self.report(results, bad, time.time() - t0)

    def report(self, results, bad, wall):
        prop = self.m.PROPERTY
        known = load_known(prop)
        nt = set()
        ev = 0
        perpart, labels, samples, fails = {}, {}, [], []
        for r in results:
            tag = r["part"].encode()
            nt |= {tag + k for k in r["nontrivial"]}
            ev += r["evaluations"]
            pp = perpart.setdefault(r["part"], {"evaluations": 0, "distinct_nontrivial": set()})
            pp["evaluations"] += r["evaluations"]
            pp["distinct_nontrivial"] |= r["nontrivial"]
            for k, v in r["labels"].items():
                labels[r["part"] + ":" + k] = labels.get(r["part"] + ":" + k, 0) + v
            if r["shard"] == 0:
                samples += [{"part": r["part"], "case": c} for c in r["samples"][:3]]
            if r["fail"]:
                fails.append((r["part"], r["fail"]))
        for pp in perpart.values():
            pp["distinct_nontrivial"] = len(pp["distinct_nontrivial"])
        for part in self.parts:
            if part.exhaustive and part.name in perpart:
                perpart[part.name]["exhaustive"] = True
        evidence = {
            "property": prop, "tier": self.tier, "seed": self.seed, "level": self.m.LEVEL,
            "coverage": {
                "evaluations": ev, "distinct_nontrivial": len(nt), "rule": self.m.RULE,
                "samples": samples[:40] or [{"note": "no case completed"}],
                "parts": perpart, "labels": dict(sorted(labels.items())[:200]),
            },
            "assumptions": list(getattr(self.m, "ASSUMPTIONS", [])),
            "wall_s": round(wall, 2), "violations": len(fails),
        }
        edir = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, ensure_ascii=True, indent=1, default=str)
            f.write("\n")
        if os.environ.get("VERIF_VERBOSE"):
            for r in results:
                print("  %-28s %2d n=%-6d nt=%-6d %.1fs" % (r["part"], r["shard"], r["evaluations"], len(r["nontrivial"]),
                                                           r.get("wall", 0)))
        print("%s: %d cases, %d distinct non-trivial, %.1fs" % (prop, ev, len(nt), wall), flush=True)
        probe_known(self.m, known, self.tier, self.seed)
        fails = [f for f in fails if not any(k['part'] == f[0] and k['case'] == f[1]['case'] for k in known)]
        if fails:
            rdir = os.environ.get("VERIF_REPLAY_DIR", os.path.join(VERIF, "replays"))
            os.makedirs(rdir, exist_ok=True)
            fails.sort(key=lambda x: x[1]["size"])
            shown = set()
            for i, (pname, f) in enumerate(fails):
                if pname in shown:
                    continue
                shown.add(pname)
                body = {"property": prop, "part": pname, "case": f["case"], "message": f["msg"]}
                raw = json.dumps(body, ensure_ascii=True, indent=1, default=str)
                path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256(raw.encode()).hexdigest()[:10]))
                with open(path, "w") as fh:
                    fh.write(raw + "\n")
                print("%s" % f["msg"].encode("utf-8", "backslashreplace").decode())
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return 1
        if bad:
            print("ERROR: %d host process(es) of the check failed" % bad, flush=True)
            return 3
        return 0


# ------------------------------------------------------------ known findings
def load_known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    x = json.loads(line)
                    if x["property"] == prop and x.get("status", "known") == "known":
                        out.append(x)
    return out


def probe_known(module, known, tier, seed):
    """Re-runs each listed finding's own input and says whether it still fails."""
    if not known:
        return
    runner = Runner(module, tier, seed)
    try:
        for k in known:
            part = [p for p in runner.parts if p.name == k["part"]][0]
            pipes, err = runner.build_all(part.needs)
            if err:
                return
            try:
                part.check(Ctx(pipes, tier, seed, runner.tmp), k["case"])
            except Violation:
                print("KNOWN-FINDING: property=%s %s" % (module.PROPERTY, k["what"]), flush=True)
    finally:
        runner.cleanup()


# -------------------------------------------------------------------- replay
def replay(module, path, tier, seed):
    with open(path) as f:
        body = json.load(f)
    runner = Runner(module, tier, seed)
    try:
        if body["part"] == "build":
            key, opts = body["case"]["build"]
            try:
                build_pipe((key, tuple(tuple(o) for o in opts)))
            except Exception as e:
                print("reproduced: %s: %s" % (type(e).__name__, e))
                print("VIOLATION property=%s replay=%s" % (module.PROPERTY, path))
                return 1
            print("did not reproduce")
            return 0
        part = [p for p in runner.parts if p.name == body["part"]][0]
        pipes, err = runner.build_all(part.needs)
        if err:
            raise err[1]
        ctx = Ctx(pipes, tier, seed, runner.tmp)
        if part.setup is not None:
            ctx.state = part.setup(ctx)
        try:
            part.check(ctx, body["case"])
        except Violation as v:
            print("reproduced: %s" % v)
            print("VIOLATION property=%s replay=%s" % (module.PROPERTY, path))
            return 1
        print("did not reproduce")
        return 0
    finally:
        runner.cleanup()


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B", os.path.join(VERIF, "check.py")] + (argv or sys.argv[1:]))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    setup_paths()
    # The default cache location and other user files never come into play.
    home = tempfile.mkdtemp(prefix="verif-home-")
    os.environ["HOME"] = home
    os.environ["XDG_CACHE_HOME"] = os.path.join(home, "cache")
    os.environ.pop("WETEXTPROCESSING_CACHE_LOCK_TIMEOUT", None)
    os.chdir(home)
    cap = int(os.environ.get("VERIF_CAP", "850" if a.tier == "quick" else "14000"))

    def too_long(*_):
        print("ERROR: the check did not finish within %d s (inconclusive)" % cap, flush=True)
        os._exit(4)

    signal.signal(signal.SIGALRM, too_long)
    signal.alarm(cap)
    code = 3
    try:
        module = importlib.import_module("checks." + a.property.lower())
        if a.replay:
            code = replay(module, a.replay, a.tier, seed)
        else:
            runner = Runner(module, a.tier, seed)
            try:
                code = runner.run()
            finally:
                runner.cleanup()
    except Exception:
        traceback.print_exc()
        code = 3
    finally:
        os.chdir("/")
        shutil.rmtree(home, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)

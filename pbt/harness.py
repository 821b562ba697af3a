"""Common machinery: registration of checks, the Hypothesis driver, evidence, replay files, known findings."""
import argparse
import hashlib
import importlib
import json
import logging
import math
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ENV = {}
QUICK_FACTOR = 2.5      # quick case counts are stated for one process; the shards share this many times as many


class Violation(AssertionError):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The check itself is at fault; never reported as a violation."""


def ensure(cond, msg="", **ctx):
    if not cond:
        extra = " ".join(f"{k}={v!r}" for k, v in ctx.items())
        raise Violation(f"{msg} {extra}".strip())


class Rec:
    """What a case tells the harness about itself."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def nt(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


class Check:
    def __init__(self, name, fn, strategy, quick, thorough, doc):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.doc = quick, thorough, doc


class Property:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.checks = []
        self.probes = []

    def check(self, strategy, quick, thorough=None):
        """Register a generated-input check.  `strategy` (a callable returning a strategy) draws plain data (a case)."""
        def deco(fn):
            self.checks.append(Check(fn.__name__, fn, strategy, quick, thorough or quick * 12, fn.__doc__ or ""))
            return fn
        return deco

    def probe(self, key):
        """Register the exact reproduction of a known finding: returns a text when it still fails, None otherwise."""
        def deco(fn):
            self.probes.append((key, fn))
            return fn
        return deco


def _jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def dumps(x):
    return json.dumps(_jsonable(x), sort_keys=True, default=repr)


def _strict(x):
    """Evidence must be strict JSON: no NaN or Infinity."""
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, dict):
        return {k: _strict(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_strict(v) for v in x]
    return x


CASE_LIMIT = 60         # seconds of processor time; cases take well under one


def _overdue(signum, frame):
    raise Violation("the case did not finish")


def run_case(check, case, limit=CASE_LIMIT):
    """Run one case as a plain call: fresh scratch directory, no leftover figures, quiet, not endless."""
    import matplotlib.pyplot as plt
    rec = Rec()
    work = tempfile.mkdtemp(dir=ENV["scratch"], prefix="case-")
    old = os.getcwd()
    os.chdir(work)
    signal.signal(signal.SIGPROF, _overdue)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            signal.setitimer(signal.ITIMER_PROF, limit, 5)
            check.fn(case, rec)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(old)
        shutil.rmtree(work, ignore_errors=True)
        if plt.get_fignums():
            plt.close("all")
    return rec


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.labels = {}
        self.samples = []
        self.per_check = {}

    def add(self, check, case, rec):
        self.evaluations += 1
        pc = self.per_check.setdefault(check.name, {"evaluations": 0, "nontrivial": 0})
        pc["evaluations"] += 1
        if rec.nontrivial:
            text = dumps(case)
            h = hashlib.sha1((check.name + text).encode()).digest()[:10]
            if h not in self.seen:
                self.seen.add(h)
                pc["nontrivial"] += 1
                if pc["nontrivial"] in (3, 17) and len(text) < 4000:
                    self.samples.append({"check": check.name, "case": _strict(json.loads(text))})
        for l in rec.labels:
            key = f"{check.name}:{l}"
            self.labels[key] = self.labels.get(key, 0) + 1

    def merge(self, o):
        self.evaluations += o.evaluations
        self.seen |= o.seen
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        for k, v in o.per_check.items():
            pc = self.per_check.setdefault(k, {"evaluations": 0, "nontrivial": 0})
            for kk in v:
                pc[kk] += v[kk]
        self.samples = (self.samples + o.samples)[:24]


class Stop(BaseException):
    pass


def drive(check, examples, seed, deadline, stats):
    """Generate `examples` cases for one check.  Returns None or (case, traceback text) for a shrunk failure."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    fail = {}
    t_fail = [None]

    def body(case):
        if t_fail[0] is None and time.time() > deadline:
            raise Stop()
        try:
            rec = run_case(check, case, CASE_LIMIT if t_fail[0] is None else 15)
        except (HarnessError, MemoryError):
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except Exception:
            if t_fail[0] is None:
                t_fail[0] = time.time()
            fail["case"], fail["tb"] = json.loads(dumps(case)), traceback.format_exc()
            raise
        if t_fail[0] is None:
            stats.add(check, case, rec)

    test = given(check.strategy())(body)
    test = settings(max_examples=examples, database=None, deadline=None, report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink), print_blob=False,
                    suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Stop:
        return ("deadline", None)
    except (HarnessError, MemoryError):
        raise
    except BaseException as e:
        if "case" in fail and not isinstance(e, KeyboardInterrupt):
            return (fail["case"], fail["tb"])
        raise
    return None


def _quiet_plot_backends():
    import matplotlib
    matplotlib.use("Agg", force=True)
    logging.disable(logging.CRITICAL)


def _shard(args):
    pid, name, examples, seed, deadline = args
    prop = load(pid)
    check = next(c for c in prop.checks if c.name == name)
    stats = Stats()
    sink = open(os.devnull, "w")
    so, se = sys.stdout, sys.stderr
    try:
        sys.stdout = sys.stderr = sink
        res = drive(check, examples, seed, deadline, stats)
        return (name, res, stats, None)
    except BaseException:
        return (name, None, stats, traceback.format_exc())
    finally:
        sys.stdout, sys.stderr = so, se


def load(pid):
    for fn in sorted(os.listdir(os.path.join(ENV["here"], "props"))):
        if fn.lower().startswith(pid.lower() + "_") and fn.endswith(".py"):
            return importlib.import_module("props." + fn[:-3]).P
    raise HarnessError(f"no module for property {pid}")


def known_findings(pid):
    path = os.path.join(ENV["root"], "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == pid]


def write_replay(pid, check, case, tb, seed):
    d = os.path.join(ENV["root"], "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{check}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "check": check, "seed": seed, "case": _jsonable(case), "failure": tb,
                   "rerun": f"/verif/check.sh {pid} --replay {path}"}, f, indent=1, default=repr)
    return path


def main(argv, root, repo, scratch):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    ENV.update(root=root, repo=repo, scratch=scratch, here=os.path.join(root, "pbt"), tier=tier)
    t0 = time.time()
    try:
        os.chdir(scratch)
        _quiet_plot_backends()
        warnings.simplefilter("ignore")
        # Third-party modules come from their own byte code; the project is always compiled from its sources.
        import hypothesis, matplotlib.pyplot, numpy, obspy, pandas, scipy.signal, scipy.interpolate, sigpropy  # noqa: F401,E401
        sys.pycache_prefix = os.path.join(scratch, "pycache")
        import swprocess
        if not os.path.realpath(swprocess.__file__).startswith(os.path.realpath(repo) + os.sep):
            raise HarnessError(f"swprocess imported from {swprocess.__file__}, not from {repo}")
        prop = load(a.property)
        if a.replay:
            return replay(prop, a.replay)
        return explore(prop, a, tier, t0)
    except (HarnessError, MemoryError, KeyboardInterrupt, Exception):
        traceback.print_exc()
        print(f"ERROR property={a.property}: the check could not give an answer")
        return 2


def replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    check = next(c for c in prop.checks if c.name == data["check"])
    try:
        run_case(check, data["case"])
    except HarnessError:
        raise
    except Exception:
        traceback.print_exc()
        print(f"VIOLATION property={prop.pid} replay={path}")
        return 1
    print(f"replay of {path}: the property holds on this case")
    return 0


def explore(prop, a, tier, t0):
    stats = Stats()
    checks = [c for c in prop.checks if not a.only or c.name == a.only]
    deadline = t0 + (420 if tier == "quick" else 3300)
    violations, notes = [], []

    # Known findings: the exact recorded reproduction, checked every run.
    listed = {e["key"]: e for e in known_findings(prop.pid)}
    for key, fn in prop.probes:
        c = Check(f"known-{key}", lambda case, rec, fn=fn: fn(), None, 0, 0, "")
        try:
            rec_msg = []
            c.fn = lambda case, rec, fn=fn: rec_msg.append(fn())
            run_case(c, None)
            msg = rec_msg[0]
        except HarnessError:
            raise
        if msg and key in listed:
            print(f"KNOWN-FINDING: property={prop.pid} {listed[key]['what']}")
        elif msg:
            path = write_replay(prop.pid, f"known-{key}", None, msg, a.seed)
            print(f"VIOLATION property={prop.pid} replay={path}")
            return 1

    jobs = []
    for ci, c in enumerate(checks):
        n = max(1, int((c.quick * QUICK_FACTOR if tier == "quick" else c.thorough) * a.scale))
        shards = min(8, max(1, n // 60))
        for s in range(shards):
            jobs.append((prop.pid, c.name, max(1, math.ceil(n / shards)),
                         (a.seed * 1_000_003 + ci * 1009 + s * 97) % (2**63), deadline))

    result = None
    if len(jobs) == 1:
        results = map(_shard, jobs)
        pool = None
    else:
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(min(8, len(jobs)), maxtasksperchild=1)
        results = pool.imap_unordered(_shard, jobs)
    errors = []
    try:
        for name, res, st, err in results:
            stats.merge(st)
            if err:
                errors.append((name, err))
            elif res and res[0] == "deadline":
                notes.append(f"{name}: stopped at the time budget; inconclusive beyond the cases counted")
            elif res:
                result = (name,) + tuple(res)
                break
    finally:
        if pool:
            pool.terminate()
            pool.join()

    if result:
        name, case, tb = result
        print(tb)
        path = write_replay(prop.pid, name, case, tb, a.seed)
        violations.append(path)
    elif errors:
        for name, err in errors:
            print(f"[{name}]\n{err}", file=sys.stderr)
        raise HarnessError(f"{len(errors)} check(s) of {prop.pid} failed to run")

    stats.samples.sort(key=lambda s: s["check"])
    evidence = {
        "property": prop.pid, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": len(stats.seen),
            "rule": prop.rule,
            "samples": stats.samples[:16],
            "per_check": stats.per_check,
            "classes": dict(sorted(stats.labels.items())),
            "notes": notes,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if not a.no_evidence and not a.only:
        d = os.path.join(ENV["root"], "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{prop.pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=repr)
    print(f"{prop.pid} {tier} seed={a.seed}: {stats.evaluations} cases, {len(stats.seen)} distinct non-trivial, "
          f"{time.time() - t0:.1f} s")
    for k, v in sorted(stats.per_check.items()):
        print(f"  {k}: {v['evaluations']} cases, {v['nontrivial']} distinct non-trivial")
    if a.only or os.environ.get("VERIF_LABELS"):
        for k, v in sorted(stats.labels.items()):
            print(f"    {k}: {v}")
    for n in notes:
        print("  note:", n)
    if violations:
        print(f"VIOLATION property={prop.pid} replay={violations[0]}")
        return 1
    return 0

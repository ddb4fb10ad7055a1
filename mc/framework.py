"""Explicit-state exploration of the real calkulate code.

A check enumerates a finite space of cases (configurations, operation histories,
fault placements, file contents ...).  Every case is executed on the code in
/repo's working tree and the property is checked in every state that it reaches,
against an independent reference model (mc/ref.py) and/or against the relation
that the property states.  Nothing is sampled: the spaces are finite and every
member is executed, and the number executed is compared with the number enumerated.

Interface of a check module (mc/checks/cNN.py):
    PROPERTY  = "CNN"
    BOUNDS    = {"quick": "...", "thorough": "..."}     (words, for the evidence)
    ASSUMES   = [...]
    cases(tier)      -> list of JSON-able cases
    run(case, ctx)   -> outcome (JSON-able); failures through ctx.fail(key, msg)
"""

import argparse
import errno
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CALK_REPO", "/repo")
CASE_TIMEOUT = 240  # seconds; cases take well under 5 s


class DidNotTerminate(BaseException):
    pass


class CheckError(BaseException):
    """The check cannot give an answer (environment trouble)."""


def import_target():
    """Import calkulate from the working tree, never from stale bytecode."""
    # third-party modules first, so that only calkulate itself is recompiled
    import autograd  # noqa: F401
    import matplotlib.dates  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    import numpy  # noqa: F401
    try:
        import openpyxl  # noqa: F401
    except ImportError:
        pass

    import pandas  # noqa: F401
    import PyCO2SYS  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.stats  # noqa: F401

    prefix = tempfile.mkdtemp(prefix="calk-pyc-")
    sys.pycache_prefix = prefix
    sys.path.insert(0, REPO)
    try:
        import calkulate

        for m in (
            "classes constants convert core dataset default density files "
            "interface loss meta plot simulate settings read.metadata "
            "read.titrations plot.titration plot.misc"
        ).split():
            try:
                importlib.import_module("calkulate." + m)
            except ImportError:
                pass
    finally:
        shutil.rmtree(prefix, ignore_errors=True)
    got = os.path.realpath(os.path.dirname(calkulate.__file__))
    want = os.path.realpath(os.path.join(REPO, "calkulate"))
    if got != want:
        raise CheckError(f"calkulate was imported from {got}, not {want}")
    return calkulate


def digest(obj):
    return hashlib.sha1(
        json.dumps(obj, sort_keys=True, default=repr).encode()
    ).hexdigest()[:16]


class Ctx:
    """Per-chunk context given to run(): counters, scratch directory, failures."""

    def __init__(self, scratch, tier):
        self.scratch = scratch
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.fails = []
        self.maxdev = {}
        self._n = 0

    def begin(self):
        self.fails = []

    def state(self, *obj):
        self.states.add(digest(obj))

    def step(self, n=1):
        self.transitions += n

    def validate(self, n=1):
        """n model traces compared with the implementation."""
        self.validated += n

    def fail(self, key, msg):
        self.fails.append((key, msg))

    def check(self, ok, key, msg):
        if not ok:
            self.fails.append((key, msg() if callable(msg) else msg))
        return bool(ok)

    def dev(self, name, value):
        """Record the largest deviation seen (reported in the evidence)."""
        if value == value and value > self.maxdev.get(name, 0.0):
            self.maxdev[name] = float(value)

    def close(self, key, got, want, atol, rtol=0.0, what=""):
        """got and want agree elementwise (NaN equals NaN)."""
        import numpy as np

        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            self.fail(key, f"{what}: got {got!r}, expected {want!r}")
            return False
        if g.shape != w.shape:
            self.fail(key, f"{what}: shape {g.shape}, expected {w.shape}")
            return False
        nan = np.isnan(w)
        if np.any(np.isnan(g) != nan):
            self.fail(key, f"{what}: got {_short(g)}, expected {_short(w)}")
            return False
        with np.errstate(all="ignore"):
            d = np.where(nan | (g == w), 0.0, np.abs(g - w))
            over = d > atol + rtol * np.abs(np.where(nan, 0.0, w))
        if d.size and np.max(d, initial=0.0) == np.max(d, initial=0.0):
            self.dev(key, np.max(d, initial=0.0))
        if np.any(over) or np.any(np.isnan(d)):
            self.fail(
                key,
                f"{what}: got {_short(g)}, expected {_short(w)} "
                f"(deviation {np.max(d):.3g} > {atol:g}+{rtol:g}*|x|)",
            )
            return False
        return True

    def path(self, name="f"):
        self._n += 1
        d = os.path.join(self.scratch, f"d{self._n}")
        os.mkdir(d)
        return os.path.join(d, name)

    def dir(self):
        self._n += 1
        d = os.path.join(self.scratch, f"d{self._n}")
        os.mkdir(d)
        return d


def _short(a):
    import numpy as np

    a = np.asarray(a)
    if a.ndim == 0:
        return repr(float(a))
    return np.array2string(a, precision=10, threshold=8, edgeitems=3)


def deviations(axes, k, ok=None):
    """All configurations reachable from the baseline (first value of each axis) by
    changing at most k axes: breadth-first over the configuration lattice.
    Each yielded dict only holds the axes that deviate."""
    names = list(axes)
    frontier = [((), {})]
    yield {}
    for _ in range(k):
        new = []
        for idxs, cfg in frontier:
            start = idxs[-1] + 1 if idxs else 0
            for i in range(start, len(names)):
                for v in axes[names[i]][1:]:
                    c = dict(cfg)
                    c[names[i]] = v
                    new.append((idxs + (i,), c))
        for idxs, cfg in new:
            if ok is None or ok(cfg):
                yield cfg
        frontier = new


def product(**axes):
    import itertools

    names = list(axes)
    for vs in itertools.product(*axes.values()):
        yield dict(zip(names, vs))


def sequences(alphabet, lo, hi):
    import itertools

    for n in range(lo, hi + 1):
        for s in itertools.product(alphabet, repeat=n):
            yield list(s)


def _alarm(signum, frame):
    raise DidNotTerminate()


def run_case(mod, case, ctx):
    """Run one case; returns (outcome, fails)."""
    import matplotlib.pyplot as plt

    ctx.begin()
    before = set(os.listdir(ctx.scratch))
    outcome = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    cwd = os.getcwd()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            outcome = mod.run(case, ctx)
    except DidNotTerminate:
        ctx.fail("no-termination", f"no result within {CASE_TIMEOUT} s")
    except (MemoryError, CheckError) as e:
        raise CheckError(repr(e))
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EDQUOT):
            raise CheckError(repr(e))
        ctx.fail("exception", _exc(e))
    except Exception as e:
        ctx.fail("exception", _exc(e))
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        plt.close("all")
        for n in set(os.listdir(ctx.scratch)) - before:
            if n.startswith("keep-"):
                continue  # read-only fixtures shared by the cases of a chunk
            shutil.rmtree(os.path.join(ctx.scratch, n), ignore_errors=True)
    return outcome, list(ctx.fails)


def _exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
    return f"{type(e).__name__}: {e} [{where}]"


def _child(mod, todo, tier, outfile):
    """Run the cases in a fresh process, results to outfile."""
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    scratch = tempfile.mkdtemp(prefix="calk-mc-")
    res = {"results": [], "error": None}
    try:
        ctx = Ctx(scratch, tier)
        for i, case in todo:
            outcome, fails = run_case(mod, case, ctx)
            res["results"].append([i, digest(outcome), fails])
        res["states"] = sorted(ctx.states)
        res["transitions"] = ctx.transitions
        res["validated"] = ctx.validated
        res["maxdev"] = ctx.maxdev
    except BaseException as e:
        res["error"] = repr(e) + traceback.format_exc()[-1500:]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    with open(outfile, "w") as f:
        json.dump(res, f, default=repr)


def fork_run(mod, chunks, tier, jobs):
    """Run each chunk [(i, case), ...] in its own forked process."""
    base = tempfile.mkdtemp(prefix="calk-res-")
    out = {}
    running = {}
    pending = list(enumerate(chunks))[::-1]
    try:
        while pending or running:
            while pending and len(running) < jobs:
                n, todo = pending.pop()
                f = os.path.join(base, str(n))
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        _child(mod, todo, tier, f)
                    except BaseException:
                        code = 3
                    os._exit(code)
                running[pid] = (n, f)
            pid, status = os.wait()
            if pid not in running:
                continue
            n, f = running.pop(pid)
            if status != 0 or not os.path.exists(f):
                out[n] = {"error": f"worker ended with status {status}", "results": []}
            else:
                with open(f) as fh:
                    out[n] = json.load(fh)
    finally:
        for pid in running:
            os.kill(pid, signal.SIGKILL)
        shutil.rmtree(base, ignore_errors=True)
    return [out[n] for n in range(len(chunks))]


def load_known():
    """known_findings.txt: lines 'open: property=<id> key=<key> <what>' and
    'fixed: property=<id> <commit> <what>' (the latter suppress nothing)."""
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("open: "):
                parts = line[6:].strip().split(" ", 2)
                prop = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                known[(prop, key)] = parts[2]
    return known


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=max(1, os.cpu_count() or 1))
    ap.add_argument("--limit", type=int, help="development only")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    pid = a.property.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        try:
            import_target()
        except CheckError:
            raise
        except Exception as e:
            # the package itself no longer imports
            print(f"calkulate does not import: {_exc(e)}")
            return _violation(pid, a.tier, seed, t0, [], "import", _exc(e), 0)
        mod = importlib.import_module("mc.checks." + pid.lower())
        if a.replay:
            return replay(mod, pid, a)
        return explore(mod, pid, a, seed, t0)
    except CheckError as e:
        print(f"CHECK-ERROR property={pid} {e}")
        return 2


def _evidence(pid, tier, seed, t0, coverage, violations, assumes):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": assumes,
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)


def _violation(pid, tier, seed, t0, cases, key, msg, violations, coverage=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rp = os.path.join(VERIF, "evidence", f"replay-{pid}.json")
    with open(rp, "w") as f:
        json.dump(
            {"property": pid, "tier": tier, "cases": cases, "key": key, "message": msg},
            f,
            indent=1,
            default=repr,
        )
    cov = coverage or {
        "states": 0,
        "transitions": 0,
        "traces_validated_against_impl": 0,
        "samples": cases[:1],
        "exhaustive": False,
    }
    _evidence(pid, tier, seed, t0, cov, max(1, violations), [])
    print(f"VIOLATION property={pid} replay={rp}")
    return 1


def replay(mod, pid, a):
    with open(a.replay) as f:
        rp = json.load(f)
    known = load_known()
    r = fork_run(mod, [list(enumerate(rp["cases"]))], rp.get("tier", "quick"), 1)[0]
    if r["error"]:
        raise CheckError(r["error"])
    bad = 0
    for i, _, fails in r["results"]:
        for key, msg in fails:
            if (pid, key) in known:
                print(f"KNOWN-FINDING: property={pid} {known[(pid, key)]}")
            else:
                bad += 1
                print(f"case {i}: [{key}] {msg}")
    if bad:
        print(f"VIOLATION property={pid} replay={a.replay}")
        return 1
    print("replay: no violation")
    return 0


def explore(mod, pid, a, seed, t0):
    cases = list(mod.cases(a.tier))
    if a.limit:
        step = max(1, len(cases) // a.limit)
        cases = cases[::step]
    numbered = list(enumerate(cases))
    size = max(1, min(getattr(mod, "CHUNK", 40), -(-len(cases) // (a.jobs * 3))))
    chunks = [numbered[i : i + size] for i in range(0, len(numbered), size)]
    results = fork_run(mod, chunks, a.tier, a.jobs)
    states, transitions, validated, done = set(), 0, 0, 0
    outcomes, maxdev, failures = set(), {}, []
    for ci, r in enumerate(results):
        if r.get("error"):
            # once more, alone: a worker may have been killed for lack of memory
            r = results[ci] = fork_run(mod, [chunks[ci]], a.tier, 1)[0]
            if r.get("error"):
                raise CheckError(f"chunk {ci}: {r['error']}")
        states.update(r["states"])
        transitions += r["transitions"]
        validated += r["validated"]
        for k, v in r["maxdev"].items():
            maxdev[k] = max(v, maxdev.get(k, 0.0))
        for i, od, fails in r["results"]:
            done += 1
            outcomes.add(od)
            if fails:
                failures.append((ci, i, fails))
    if done != len(cases):
        raise CheckError(f"{done} of {len(cases)} cases were executed")
    known = load_known()
    seen_known, fresh = {}, []
    for ci, i, fails in failures:
        for key, msg in fails:
            if (pid, key) in known:
                seen_known.setdefault(key, (i, msg))
        new = [(k, m) for k, m in fails if (pid, k) not in known]
        if new:
            fresh.append((ci, i, new))
    n = len(cases)
    coverage = {
        "states": len(states),
        "transitions": transitions,
        "traces_validated_against_impl": validated,
        "cases": n,
        "distinct_outcomes": len(outcomes),
        "samples": [cases[j] for j in sorted({0, n // 3, (2 * n) // 3, n - 1})] if n else [],
        "exhaustive": not a.limit,
        "bounds": mod.BOUNDS.get(a.tier, mod.BOUNDS.get("quick", "")),
        "largest_deviation_from_model": {k: maxdev[k] for k in sorted(maxdev)},
        "known_findings_seen": sorted(seen_known),
    }
    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {known[(pid, key)]}")
    if not fresh:
        _evidence(pid, a.tier, seed, t0, coverage, 0, list(getattr(mod, "ASSUMES", [])))
        print(
            f"{pid} {a.tier}: held on {n} cases, {len(states)} states, "
            f"{transitions} transitions, {validated} model traces validated, "
            f"{len(outcomes)} distinct outcomes, {time.time() - t0:.1f} s"
        )
        if a.verbose:
            print(json.dumps(coverage["largest_deviation_from_model"], indent=1))
        return 0
    # Confirm in a fresh process: the case alone, else with everything before it
    if a.verbose:
        for ci, i, new in fresh[:12]:
            print(i, json.dumps(cases[i])[:300], str(new[:2])[:400])
        print(len(fresh), "failing cases")
        from collections import Counter

        print(Counter(k for _, _, new in fresh for k, _ in new))
        print(json.dumps(coverage["largest_deviation_from_model"], indent=1))
    for ci, i, new in fresh[:3]:
        prefix = [c for j, c in chunks[ci] if j <= i]
        for attempt in ([cases[i]], prefix):
            r = fork_run(mod, [list(enumerate(attempt))], a.tier, 1)[0]
            if r.get("error"):
                raise CheckError(r["error"])
            last = [
                (k, m)
                for _, _, fails in r["results"]
                for k, m in fails
                if (pid, k) not in known
            ]
            if last:
                print(f"case {json.dumps(cases[i], default=repr)}")
                for k, m in last[:6]:
                    print(f"  [{k}] {m}")
                print(f"  {len(fresh)} of {n} cases violate the property")
                return _violation(
                    pid, a.tier, seed, t0, attempt, last[0][0], last[0][1],
                    len(fresh), coverage,
                )
    raise CheckError(f"failure did not reproduce: {fresh[0][2]}")

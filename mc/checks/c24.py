"""C24: titrations that cannot be processed are announced by name."""
import contextlib
import io
import os
import warnings

import numpy as np

from .. import framework as fw
from .. import gen, util
from . import c04

PROPERTY = "C24"
# faults that make processing raise (windows without points may also just give no number)
FAULTS = [f for f in c04.FAULTS if f not in ("empty-window", "blank-name", "nan-cells", "words", "header", "one-row",
                                             "no-salinity", "bad-carbonic", "na-salinity", "number-name", "text-carbonic")]
BOUNDS = {
    "quick": f"{len(FAULTS)} kinds of fault x reference/sample x every position among 3 rows x calkulate, calibrate, solve x verbose or not (EMF data); the same faults in 5 other "
             "modes or file types; every ordered pair of faults; every table of <=3 usable rows over 4 modes x verbose",
    "thorough": "the same in all 6 modes and file types; ordered triples of half of the faults",
}
ASSUMES = ["messages are what a user sees: standard output, standard error and warnings together",
           "faults that do not prevent processing but leave no usable point (an empty pH window, a blank salinity, an unknown set of constants) need not be announced"]
CHUNK = 30


def cases(tier):
    th = tier == "thorough"
    out = []
    for mode in c04.MODES:
        full = th or mode == "emf"
        for f in FAULTS:
            if not c04.applies(f, mode):
                continue
            for role in ("reference", "sample"):
                for pos in (0, 1, 2) if full else (1,):
                    for op in ("calkulate", "calibrate", "solve"):
                        for verbose in (False, True):
                            out.append(case(mode, [f], [role], pos, op, verbose))
    for i, a in enumerate(FAULTS):
        for j, b in enumerate(FAULTS):
            out.append(case("emf", [a, b], ["reference", "sample"] if (i + j) % 2 else ["sample", "reference"], 1, "calkulate", (i + j) % 3 == 0))
    for rows in fw.sequences(["emf", "pH", "pH_adjust", "pH_gran"], 1, 3):
        for verbose in (False, True):
            for op in ("solve", "calkulate"):
                out.append({"usable": list(rows), "op": op, "verbose": verbose})
    if th:
        sub = FAULTS[::2]
        for a in sub:
            for b in sub:
                for c in sub:
                    out.append(case("emf", [a, b, c], ["reference", "sample", "reference"], 1, "calkulate", False))
    return out


def case(mode, faults, roles, pos, op, verbose):
    return {"mode": mode, "faults": faults, "roles": roles, "pos": pos, "op": op, "verbose": verbose, "stale": False, "batch": False}


def heard(f, **kw):
    """What the user sees while f runs."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        f(**kw)
    return out.getvalue() + "\n".join(str(x.message) for x in w)


def run(case, ctx):
    if "usable" in case:
        return usable(case, ctx)
    d, good, bad, rows, where = c04.build(case, ctx)
    what = f"{case['op']} {case['mode']} faults {case['faults']} roles {case['roles']} position {case['pos']} verbose {case['verbose']}"
    for j, (f, r) in enumerate(zip(case["faults"], bad)):
        if f in c04.FILE_FAULTS:
            c04.break_file(f, os.path.join(d, f"bad{j}.dat"))
        r.update(c04.cells(f))
    ds = c04.store(util.frame(rows), case["faults"])
    ctx.state(case)
    ctx.step(len(rows))
    text = heard(getattr(ds, case["op"]), verbose=case["verbose"])
    outcome = []
    for j, (f, role, i) in enumerate(zip(case["faults"], case["roles"], where)):
        mol = ds.titrant_molinity.iloc[i] if "titrant_molinity" in ds else np.nan
        tried = not f.startswith("flagged") and ((role == "reference" and case["op"] != "solve") or mol == mol)
        named = f"bad{j}.dat" in text
        outcome.append(named)
        if tried:
            ctx.check(named, "silent", f"{what}: nothing announces bad{j}.dat ({f}); messages: {text[-300:]!r}")
            if f in c04.FILE_FAULTS and role == "reference" and case["op"] != "solve" and mol == mol:  # fails twice
                n = text.count(f"bad{j}.dat")
                ctx.check(n >= 2 + 2 * case["verbose"], "silent",
                          f"{what}: bad{j}.dat ({f}) fails calibration and solving but is named {n} times; messages: {text[-300:]!r}")
        elif f.startswith("flagged"):
            ctx.check(not named, "flagged-announced", f"{what}: bad{j}.dat is flagged as not good, but announced: {text[-300:]!r}")
    others(case, ctx, text, good, ds, rows, what)
    # talking about it changes nothing
    again = c04.store(util.frame(rows), case["faults"])
    heard(getattr(again, case["op"]), verbose=not case["verbose"])
    for i in range(len(rows)):
        keys = util.RESULTS + (util.CAL if case["op"] != "solve" else [])
        util.compare_dicts(ctx, "verbose", util.results(ds, i, keys), util.results(again, i, keys), f"{what}: row {i}, verbose or not", 0, 0)
    ctx.validate(len(rows))
    return outcome


def others(case, ctx, text, good, ds, rows, what):
    for r in good:
        named = r["file_name"] in text
        i = rows.index(r)
        mol = ds.titrant_molinity_here.iloc[i] if "titrant_molinity_here" in ds else np.nan
        done = ds.alkalinity.iloc[i] == ds.alkalinity.iloc[i]
        if case["verbose"]:
            n = int(done) + int(mol == mol and case["op"] != "solve")
            ctx.check(text.count(r["file_name"]) >= n, "verbose-silent", f"{what}: {r['file_name']} was processed but is not named: {text[-300:]!r}")
        else:
            ctx.check(not named, "wrongly-announced", f"{what}: {r['file_name']} is announced: {text[-300:]!r}")


def usable(case, ctx):
    d = ctx.dir()
    rows = []
    for i, m in enumerate(case["usable"]):
        name = f"file{i}-{m}.dat"
        c04.good_file(os.path.join(d, name), m, i)
        r = c04.base(m, name, d)
        if case["op"] == "solve":
            r["titrant_molinity"] = 0.1
        elif i != 1:
            r["alkalinity_certified"] = 2300.0
        rows.append(r)
    ds = util.frame(rows)
    ctx.state(case)
    ctx.step(len(rows))
    text = heard(getattr(ds, case["op"]), verbose=case["verbose"])
    ctx.check(ds.alkalinity.notnull().all(), "precondition", f"{case}: unsolved rows")
    others(case, ctx, text, rows, ds, rows, str(case))
    ctx.validate(len(rows))
    return [round(float(x), 6) for x in ds.alkalinity]

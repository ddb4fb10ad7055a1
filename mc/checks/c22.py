"""C22: reported diagnostics describe the reported solution."""
import os

import numpy as np
import pandas as pd

from .. import framework as fw
from .. import gen, ref, util

PROPERTY = "C22"
BOUNDS = {
    "quick": "4 solve modes x every configuration with <=2 changes over 18 axes (shape, salinity, sample mass, temperatures, disturbance, window, titrant, units, chemistry, solver) through a dataset, the file interface and a Titration; "
             "every history of <=3 solves of a two-row table whose rows are, at each solve, in one of 6 statuses (4 modes, missing file, file_good False)",
    "thorough": "<=3 changes; histories of 4 solves",
}
ASSUMES = ["no pH within 1e-4 of an edge of the window (rounding could move the point in or out; such cases only check the relations within the result)",
           "fits to a single point are underdetermined: only the relations within the result are checked",
           "alkalinity to 0.05 umol/kg and EMF0 to 0.02 mV of the exact least-squares solution, the accuracy of the solver's stopping rule"]
CHUNK = 40

AXES = {
    "shape": [(28, 0.0), (9, 0.0), (15, 1.9), (60, 0.0)],
    "temp": ["ramp", "cold", "zigzag", "flat"],
    "size": [1.0, 0.0, 6.0],
    "alk": [2300.0, 1500.0],
    "window": [None, (3.2, 3.8), (3.0, 6.5), (2.5, 3.3), (1.0, 9.0), (3.45, 3.55)],
    "salinity": [35.0, 5.0, 42.0],
    "mass": [0.1, 0.25, 0.03],
    "normality": [None, 2],
    "unit": ["g", "ml", "kg"],
    "override": [None, 18.0],
    "dic": [None, 2050.0],
    "phosphate": [None, 40.0],
    "tts": [None, 1.0],
    "carbonic": [None, 4],
    "dilute": [None, True],
    "double": [None, False],
    "logic": [None, "legacy"],
    "init": [None, {"emf0_init": 603.0}, {"alkalinity_init": 1900.0}],
}
MODES = ["emf", "pH_adjust", "pH", "pH_gran"]
STATUS = ["emf", "pH_adjust", "pH", "pH_gran", "missing", "bad"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in MODES:
        for c in fw.deviations(AXES, 3 if th else 2):
            if m in ("pH", "pH_gran") and {"double", "logic", "init"} & set(c):
                continue
            out.append({"part": "solve", "mode": m, "cfg": c})
    st = [(a, b) for a in STATUS for b in STATUS]
    # every history of the first row, with the second row one status further on
    for n in range(1, (4 if th else 3) + 1):
        for i, h in enumerate(fw.sequences(STATUS, n, n)):
            out.append({"part": "history", "statuses": [(s, STATUS[(STATUS.index(s) + 1 + i % 5) % 6]) for s in h], "op": "calkulate" if n == 2 and i % 2 else "solve"})
    return out


def options(case):
    c = dict(case["cfg"])
    o = {"solve_mode": case["mode"], "analyte_mass": c.get("mass", 0.1), "titrant_amount_unit": c.get("unit", "g")}
    if c.get("window"):
        o["pH_min"], o["pH_max"] = c["window"]
    for a, b in (("normality", "titrant_normality"), ("override", "temperature_override"), ("dic", "dic"), ("phosphate", "total_phosphate"), ("tts", "titrant_total_sulfate"),
                 ("carbonic", "opt_k_carbonic"), ("dilute", "dilute_totals_for_ks"), ("double", "double"), ("logic", "gran_logic")):
        if c.get(a) is not None:
            o[b] = c[a]
    o.update(c.get("init") or {})
    return c, o


def data(c, o, mode, which=0):
    n, start = c.get("shape", (28, 0.0))
    alk = c.get("alk", 2300.0)
    norm = o.get("titrant_normality", 1)
    chem = {k: v for k, v in o.items() if k in util.CHEM + util.TT + ["titrant_normality"]}
    top = 4.2 if alk > 2000 else 3.4
    start = min(start, top - 2.2)
    am = c.get("mass", 0.1)
    top, start = top * am / 0.1, start * am / 0.1
    g, m, t = gen.titration(am=am, salinity=c.get("salinity", 35.0), alk=alk, molinity=0.1 / norm, n=n, top=top, start=start, temp=c.get("temp", "ramp"), mode="emf" if mode == "emf" else "pH",
                            noisy=False, opts=chem, unit=o["titrant_amount_unit"])
    size = c.get("size", 1.0)
    m = m + gen.noise(n, which, size * (0.25 if mode == "emf" else 0.004))
    return (g, np.round(m, 5), t), 0.1 / norm


def run(case, ctx):
    ctx.state(case)
    return solve(case, ctx) if case["part"] == "solve" else history(case, ctx)


def expected(s):
    """Diagnostics of the model's solution."""
    d = {k: np.nan for k in util.RESULTS}
    if s is None:
        d["alkalinity_npts"] = 0
        return d
    d.update(alkalinity_npts=int(s.used.sum()), alkalinity=s.alkalinity, pH_init=s.pH[0], temperature_init=s.temp[0])
    if s.mode != "ph_gran":
        d["alkalinity_std"] = float(np.sqrt(np.mean((s.alkalinity_all[s.used] - s.alkalinity_all[s.used].mean()) ** 2)))
    if s.mode in ("emf", "ph_adjust"):
        d.update(emf0=s.emf0, gran_alkalinity=s.gran.alkalinity * 1e6, gran_emf0=s.gran.emf0)
    return d


TOL = {"alkalinity": (0.05, 0), "alkalinity_std": (0.02, 1e-4), "emf0": (0.02, 0), "gran_alkalinity": (1e-4, 1e-9), "gran_emf0": (1e-5, 1e-9), "pH_init": (3e-4, 0),
       "temperature_init": (1e-9, 0), "alkalinity_npts": (0, 0)}


def against(ctx, got, want, what):
    ctx.validate()
    for k, (a, r) in TOL.items():
        g = got[k]
        if g == "absent":
            ctx.fail("column", f"{what}: no column {k}")
            continue
        ctx.close("model " + k, g, want[k], a, r, f"{what}: {k}")


def near_edge(s, o):
    ph = getattr(s, "start_pH", s.pH)
    return any(np.min(np.abs(ph - o.get(k, d))) < 1e-4 for k, d in (("pH_min", 3), ("pH_max", 4)))


def relations(ctx, sr, what, mode, o, mol):
    """Within one solve result."""
    used = np.asarray(sr.used, bool)
    t = {k: np.asarray(v) for k, v in sr.totals.items()}
    k = {n: np.asarray(v) for n, v in sr.k_constants.items()}
    mass, am, ph = np.asarray(sr.titrant_mass), sr.analyte_mass, np.asarray(sr.pH)
    if mode != "pH_gran":
        acid = mass * mol * o.get("titrant_normality", 1) / (mass + am)
        est = 1e6 * (ref.alk(ph, t, k) + acid) * (mass + am) / am
        ctx.close("estimates", sr.alkalinity_all, est, 1e-6, 1e-9, f"{what}: per-point alkalinity")
        ctx.close("std", sr.alkalinity_std, np.std(est[used]), 1e-6, 1e-9, f"{what}: standard deviation")
    if mode == "pH":
        ctx.close("mean", sr.alkalinity, np.mean(np.asarray(sr.alkalinity_all)[used]), 1e-6, 0, f"{what}: alkalinity")
    if hasattr(sr, "emf0"):
        ctx.close("pH", ph, ref.ph_from_emf(np.asarray(sr.emf), sr.emf0, np.asarray(sr.temperature)), 1e-9, 0, f"{what}: pH")
    else:
        lo, hi = o.get("pH_min", 3), o.get("pH_max", 4)
        ctx.check(np.array_equal(used, (ph >= lo) & (ph <= hi)), "window", f"{what}: points outside {lo}..{hi} used, or others left out")


def solve(case, ctx):
    import calkulate as calk
    from calkulate import files

    c, o = options(case)
    mode = case["mode"]
    dat, mol = data(c, o, mode)
    p = ctx.path("t.dat")
    gen.write_genfromtxt(p, dat)
    what = f"{mode} {case['cfg']}"
    sal = c.get("salinity", 35.0)
    s = ref.solve(dat, mol, sal, o)
    row = {"file_name": p, "salinity": sal, "titrant_molinity": mol, **o}
    ds = util.frame([row])
    ds.solve()
    ctx.step(3)
    got = util.results(ds, 0, util.RESULTS)
    # a line through one point is not determined: only the relations can be checked
    if s is None:
        ph = dat[1]
        single = mode == "pH_gran" and np.sum((ph >= o.get("pH_min", 3)) & (ph <= o.get("pH_max", 4))) == 1
    else:
        single = mode != "pH" and s.used.sum() < 2
    edge = single or (s is not None and near_edge(s, o))
    want = expected(s)
    if s is None and mode in ("pH", "pH_gran"):
        # no points to use: the first pH was measured all the same
        want.update({k: got[k] for k in ("pH_init", "temperature_init")})
    if not edge:
        against(ctx, got, want, f"dataset {what}")
    if s is None and not edge or edge and got["alkalinity_npts"] == 0:
        return "nothing"
    sr = files.solve(p, mol, sal, **o)
    util.compare_dicts(ctx, "file", got, util.diagnostics(sr), f"dataset vs its own solution {what}")
    relations(ctx, sr, what, mode, o, mol)
    tt = calk.Titration(pd.Series(row))
    for k in util.RESULTS:
        v = tt.row.get(k, np.nan)
        ctx.check(util.same(float(v), got[k], 1e-9, util.slack(k, got)), "titration", f"Titration {what}: {k} is {v!r}, the dataset says {got[k]!r}")
    return [got["alkalinity_npts"], round(got["alkalinity"], 2)]


def history(case, ctx):
    d = ctx.dir()
    rows, dats, opts = [], {}, {}
    for i in range(2):
        for m in ("emf", "pH"):
            c = {"shape": (28, 0.0) if i == 0 else (19, 0.4), "temp": "ramp" if i == 0 else "cold", "alk": 2300.0 - 300 * i}
            o = {"analyte_mass": 0.1, "titrant_amount_unit": "g", "dic": 2000.0}
            dats[i, m] = data(c, o, m, which=i)[0]
            gen.put(d, f"t{i}{m}.dat", dats[i, m])
    ds = util.frame([{"file_name": "t0emf.dat", "file_path": d, "salinity": 35.0, "titrant_molinity": 0.1, "analyte_mass": 0.1, "titrant_amount_unit": "g", "dic": 2000.0,
                      "solve_mode": "emf", "file_good": True, **({"alkalinity_certified": np.nan} if case["op"] == "calkulate" else {})} for _ in range(2)], index=["a", "b"])
    out = []
    for n, st in enumerate(case["statuses"]):
        for i, s in enumerate(st):
            kind = "emf" if s in ("emf", "missing", "bad") else "pH"
            ds.loc["ab"[i], "file_name"] = f"t{i}{kind}.dat" if s != "missing" else "gone.dat"
            ds.loc["ab"[i], "solve_mode"] = s if s in MODES else "emf"
            ds.loc["ab"[i], "file_good"] = s != "bad"
        if case["op"] == "calkulate":
            ds["analysis_batch"] = [0, 0]
            ds["alkalinity_certified"] = np.nan
            ds.calkulate()
            # nothing to calibrate with: every row is unsolved, whatever was there before
            for i in range(2):
                ctx.check(all(util.same(v, util.EMPTY[k]) for k, v in util.results(ds, i, util.RESULTS).items()), "left over", f"{case} step {n} row {i}: {util.results(ds, i)}")
            ds["titrant_molinity"] = 0.1
        ds.solve()
        ctx.step()
        ctx.state(case["statuses"][:n + 1], case["op"])
        for i, s in enumerate(st):
            what = f"{case['statuses'][:n + 1]} row {i}"
            if s in MODES:
                o = {"analyte_mass": 0.1, "titrant_amount_unit": "g", "dic": 2000.0, "solve_mode": s}
                want = expected(ref_solution(i, s, dats[i, "emf" if s == "emf" else "pH"], o))
            else:
                want = expected(None)
            got = util.results(ds, i, util.RESULTS)
            against(ctx, got, want, what)
            out.append(round(got["alkalinity"], 2) if got["alkalinity"] == got["alkalinity"] else None)
    return out


_CACHE = {}


def ref_solution(i, s, dat, o):
    if (i, s) not in _CACHE:
        _CACHE[i, s] = ref.solve(dat, 0.1, 35.0, o)
    return _CACHE[i, s]

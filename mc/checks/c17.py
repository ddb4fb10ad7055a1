"""C17: Gran estimates follow the selected points and the regression."""
import itertools
import warnings

import numpy as np

from .. import gen, ref, util

PROPERTY = "C17"
BOUNDS = {
    "quick": "every pattern of Gran-function levels (0.02, 0.0999, 0.1001, 0.5, 0.8999, 0.9001, 1 of the maximum) over 4 points and of 4 levels over 6 points x both rules; "
             "the full product of strong-acid titrations (alkalinity x EMF0 x molinity x normality x sample size x temperature x number of points x rule); "
             "seawater titrations x rule x double x normality x initial values through core, file, dataset and Titration, solving and calibrating",
    "thorough": "7 levels over 5 points and 4 levels over 8 points; larger products",
}
ASSUMES = ["levels are kept 0.01 % away from exactly 10 % and 90 % of the maximum, where rounding decides",
           "selections that leave no straight line (fewer than two different masses, or no slope) may raise or give no number"]
CHUNK = 24

LEVELS = [1.0, 0.5, 0.02, 0.1001, 0.0999, 0.8999, 0.9001]
FEW = [1.0, 0.6, 0.05, 0.15]


def cases(tier):
    n7, n4 = (4, 6) if tier == "quick" else (5, 8)
    out = []
    for head in itertools.product(LEVELS, repeat=n7 - 2):
        out.append({"pattern": list(head), "tail": 2, "levels": "all"})
    for head in itertools.product(FEW, repeat=n4 - 3):
        out.append({"pattern": list(head), "tail": 3, "levels": "few"})
    for alk in (2300.0, 150.0, 4000.0) if tier == "quick" else (2300.0, 50.0, 150.0, 1000.0, 4000.0):
        for emf0 in (600.0, -50.0, 0.0):
            for mol in (0.1, 0.02, 1.0):
                for norm in (1, 1.07, 2):
                    out.append({"acid": True, "alk": alk, "emf0": emf0, "mol": mol, "norm": norm})
    for mode in ("core", "file", "dataset", "titration", "calibrate", "calibrate-dataset"):
        for logic in (None, "v23.7+", "legacy"):
            for double in (None, True, False):
                for norm in (None, 1.06):
                    for init in ({}, {"emf0_init": 612.0}, {"alkalinity_init": 2100.0}, {"pH_min": 3.15, "pH_max": 3.75}):
                        for sample in ("sea", "spiky"):
                            out.append({"via": mode, "logic": logic, "double": double, "norm": norm, "init": init, "sample": sample})
    for norm in (None, 1.06, 2):
        for lo, hi in ((None, None), (3.2, 3.8), (2.8, 3.3), (3.0, 5.0)):
            for temp in ("flat", "ramp"):
                for am in (0.1, 0.025):
                    for mol in (0.1, 0.05):
                        out.append({"via": "pH_gran", "norm": norm, "lo": lo, "hi": hi, "temp": temp, "am": am, "mol": mol})
    return out


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def compare(ctx, what, mass, emf, temp, am, mol, norm, logic):
    """gran_guesses and its parts against the model; returns the model or None."""
    from calkulate import core

    kw = {"titrant_normality": norm}
    if logic is not None:
        kw["gran_logic"] = logic
    ctx.step()
    ctx.validate()
    g = (mass + am) * np.exp(emf * ref.F / (ref.R * (temp + ref.T0)))
    above = g > 0.1 * g.max()
    if logic == "legacy":
        used = above & (g < 0.9 * g.max())
    else:
        used = np.arange(len(g)) >= np.flatnonzero(above)[0]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        got, err = attempt(lambda: core.gran_guesses(mass, emf, temp, am, mol, **kw))
    degenerate = len(set(mass[used])) < 2
    m = None
    if not degenerate:
        m = ref.gran(mass, emf, temp, am, mol, norm, logic or "v23.7+")
        degenerate = abs(m.slope) * (mass[used].max() - mass[used].min()) < 1e-6 * g[used].max()
    if degenerate:
        return None
    if got is None:
        ctx.fail("raised", f"{what}: {err!r}")
        return None
    said = " / ".join(str(w.message) for w in caught)
    ctx.check(("Fewer than 3" in said) == (used.sum() < 3), "few points", f"{what}: {used.sum()} points, warnings: {said!r}")
    r = np.corrcoef(mass[used], g[used])[0, 1]
    if abs(r - 0.95) > 1e-6:
        ctx.check(("0.95" in said) == (r < 0.95), "not straight", f"{what}: correlation {r}, warnings: {said!r}")
    ctx.close("gran function", got.gfunc, g, 0, 1e-10, what)
    ctx.check([bool(x) for x in got.used] == list(used), "used", f"{what}: used {[int(x) for x in got.used]}, expected {used.astype(int).tolist()}")
    ctx.close("gran alkalinity", got.alkalinity, m.alkalinity, 1e-12, 1e-8, what)
    excess = mass * mol * norm - am * m.alkalinity
    clear = np.abs(excess) > 1e-6 * np.max(np.abs(excess))  # else the logarithm of a rounding error
    ctx.close("gran emf0s", got.emf0s[clear], m.emf0s[clear], 1e-6, 1e-8, what)
    if np.all(clear[used]):
        ctx.close("gran emf0", got.emf0, m.emf0, 1e-6, 1e-8, what)
        ctx.close("gran pH", got.pH, m.pH, 1e-7, 1e-8, what)
    return m


def run(case, ctx):
    ctx.state(case)
    if "pattern" in case:
        levels = LEVELS if case["levels"] == "all" else FEW
        out = []
        n = len(case["pattern"]) + case["tail"]
        mass = np.round(np.linspace(0.5, 4.0, n), 3) / 1000
        temp = gen.temps("zigzag", n)
        for tail in itertools.product(levels, repeat=case["tail"]):
            lv = np.array(case["pattern"] + list(tail))
            if lv.max() < 1:
                continue
            # EMF that gives these levels
            emf = 350 + np.log(lv / (mass + 0.1)) * ref.R * (temp + ref.T0) / ref.F + 350 * (temp - temp[0]) / (temp[0] + ref.T0)
            g = (mass + 0.1) * np.exp(emf * ref.F / (ref.R * (temp + ref.T0)))
            if np.max(np.abs(g / g.max() - lv)) > 1e-9:
                raise AssertionError("harness: levels not met")
            for logic in (None, "legacy"):
                m = compare(ctx, f"levels {lv.tolist()} rule {logic}", mass, emf, temp, 0.1, 0.1, 1, logic)
                out.append(None if m is None else [int(x) for x in m.used])
        return out
    if "acid" in case:
        return acid(case, ctx)
    if case["via"] == "pH_gran":
        return ph_gran(case, ctx)
    return sample(case, ctx)


def acid(case, ctx):
    from calkulate import core

    out = []
    for am in (0.1, 0.02):
        for kind in ("flat", "ramp", "zigzag", "cold"):
            for n in (4, 9, 30):
                for start in (0.0, 1.1):
                    eq = am * case["alk"] * 1e-6 / (case["mol"] * case["norm"])
                    mass = np.linspace(start * eq, 1.9 * eq, n)
                    temp = gen.temps(kind, n)
                    excess = (mass * case["mol"] * case["norm"] - am * case["alk"] * 1e-6) / (mass + am)
                    h = np.where(excess > 1e-8, excess, 1e-8)
                    if np.any((excess < 0.12 * excess.max()) & (excess > 1e-3 * excess.max())):
                        pass
                    emf = case["emf0"] + np.log(h) * ref.R * (temp + ref.T0) / ref.F
                    for logic in ("v23.7+", "legacy"):
                        what = f"{case} am={am} temp={kind} n={n} start={start} {logic}"
                        with_h = (mass + am) * h
                        g = (mass + am) * np.exp(emf * ref.F / (ref.R * (temp + ref.T0)))
                        used = g > 0.1 * g.max()
                        if logic == "legacy":
                            used &= g < 0.9 * g.max()
                        else:
                            used = np.arange(n) >= np.flatnonzero(used)[0]
                        if used.sum() < 2 or np.any(excess[used] < 1e-8):
                            continue
                        r = core.gran_guesses(mass, emf, temp, am, case["mol"], titrant_normality=case["norm"], gran_logic=logic)
                        ctx.step()
                        ctx.validate()
                        if kind == "flat":
                            # G is exactly a straight line
                            ctx.close("strong acid alkalinity", r.alkalinity * 1e6, case["alk"], 1e-6, 1e-8, what)
                            ctx.close("strong acid EMF0", r.emf0, case["emf0"], 1e-5, 0, what)
                        compare(ctx, what, mass, emf, temp, am, case["mol"], case["norm"], logic)
                        # a Gran alkalinity and EMF0 estimator given the true alkalinity is exact at any temperature
                        e = core.gran_emf0s(mass[used], emf[used], temp[used], am, case["mol"], case["alk"] * 1e-6, titrant_normality=case["norm"])
                        ctx.close("strong acid EMF0s", e, np.full(used.sum(), case["emf0"]), 1e-5, 0, what)
                        out.append(float(r.alkalinity))
    # the pH-based Gran solution
    mass = np.linspace(1.05, 1.9, 12) * 0.1 * case["alk"] * 1e-6 / (case["mol"] * case["norm"])
    h = (mass * case["mol"] * case["norm"] - 0.1 * case["alk"] * 1e-6) / (mass + 0.1)
    r = core.solve_pH_gran(case["mol"], mass, -np.log10(h), np.full(12, 25.0), 0.1, {}, {}, pH_min=0, pH_max=14, titrant_normality=case["norm"])
    ctx.close("strong acid pH_gran", r.alkalinity, case["alk"], 1e-6, 1e-9, f"{case} pH_gran")
    return out


def dat(kind):
    a, m, t = gen.titration(n=26, noisy=True)
    if kind == "spiky":
        # an early point and a late point out of line: the two rules differ, as does "from the first"
        m = m.copy()
        g = (a / 1000 + 0.1) * np.exp(m * ref.F / (ref.R * (t + ref.T0)))
        first = int(np.argmax(g > 0.1 * g.max()))
        m[first - 1] = m[first] + 0.5
        m[first + 3] -= 3
        m[-1] -= 4
    return a, m, t


def sample(case, ctx):
    import calkulate as calk
    from calkulate import core, files

    a, m, t = dat(case["sample"])
    mass = a / 1000
    d = ctx.dir()
    gen.put(d, "t.dat", (a, m, t))
    kw = dict(case["init"])
    for k, n in (("logic", "gran_logic"), ("double", "double"), ("norm", "titrant_normality")):
        if case[k] is not None:
            kw[n] = case[k]
    norm = case["norm"] or 1
    logic = case["logic"] or "v23.7+"
    o = {"analyte_mass": 0.1, "titrant_amount_unit": "g"}
    what = str(case)
    row = util.base_row("t.dat", file_path=d, titrant_molinity=0.1, **kw)
    g = ref.gran(mass, m, t, 0.1, 0.1, norm, logic)
    ctx.step()
    ctx.validate()
    if case["via"] in ("core", "file", "titration"):
        if case["via"] == "core":
            totals, ks = ref.totals_ks(mass, t, 0.1, 35.0, {})
            sr = core.solve_emf(0.1, mass, m, t, 0.1, totals, ks, **kw)
            res = sr.ggr.alkalinity, sr.ggr.emf0, sr.ggr.used
        elif case["via"] == "file":
            sr = files.solve("t.dat", 0.1, 35.0, file_path=d, **o, **kw)
            res = sr.ggr.alkalinity, sr.ggr.emf0, sr.ggr.used
        else:
            import pandas as pd

            tt = calk.Titration(pd.Series(row))
            res = tt.gran_alkalinity * 1e-6, tt.gran_emf0, tt.titration.gran_used.to_numpy()
            ctx.close("gran function", tt.titration.gran_func.to_numpy(), g.gfunc, 0, 1e-10, what)
            fin = np.isfinite(g.emf0s)
            ctx.close("gran emf0s", tt.titration.gran_emf0.to_numpy()[fin], g.emf0s[fin], 1e-6, 0, what)
            sr = tt.sr
        ctx.check([bool(x) for x in res[2]] == list(g.used), "used", f"{what}: Gran points {[int(x) for x in res[2]]}, expected {g.used.astype(int).tolist()}")
    elif case["via"] == "dataset":
        ds = util.frame([row])
        ds.solve()
        res = ds.gran_alkalinity.iloc[0] * 1e-6, ds.gran_emf0.iloc[0]
    else:
        return calibration(case, ctx, kw, o, d, row, (a, m, t), norm, logic)
    ctx.close("gran alkalinity", res[0], g.alkalinity, 1e-12, 1e-8, what)
    if g.emf0 == g.emf0:
        ctx.close("gran emf0", res[1], g.emf0, 1e-6, 0, what)
    return [float(res[0]), float(res[1])]


def calibration(case, ctx, kw, o, d, row, dat, norm, logic):
    """The selection rule asked for also counts while calibrating."""
    from calkulate import files

    what = str(case)
    if case["via"] == "calibrate":
        x = float(files.calibrate("t.dat", 2345.0, 35.0, file_path=d, **o, **kw)["x"][0])
    else:
        ds = util.frame([dict({k: v for k, v in row.items() if k != "titrant_molinity"}, alkalinity_certified=2345.0)])
        ds.calkulate()
        x = float(ds.titrant_molinity.iloc[0])
        g = ref.gran(dat[0] / 1000, dat[1], dat[2], 0.1, x, norm, logic)
        ctx.close("gran alkalinity", ds.gran_alkalinity.iloc[0] * 1e-6, g.alkalinity, 1e-12, 1e-8, what)
        if g.emf0 == g.emf0:
            ctx.close("gran emf0", ds.gran_emf0.iloc[0], g.emf0, 1e-6, 0, what)
    s = files.solve("t.dat", x, 35.0, file_path=d, **o, **kw)
    # (no exact closure where the set of points itself jumps at the solution: C01)
    lo, hi = kw.get("pH_min", 3), kw.get("pH_max", 4)
    closed = abs(s.alkalinity - 2345.0) < 1e-3
    if not closed:
        eps = 1e-4
        near = [files.solve("t.dat", x * (1 + e), 35.0, file_path=d, **o, **kw) for e in (-eps, -eps / 20, eps / 20, eps)]
        same = len({tuple(map(bool, r.used)) for r in near + [s]}) == 1
        ctx.check(not same, "calibration", f"{what}: calibrated with {x} but this gives {s.alkalinity}")
    return x


def ph_gran(case, ctx):
    import calkulate as calk
    from calkulate import files

    n = 22
    a, m, t = gen.titration(n=n, mode="pH", temp=case["temp"], am=case["am"], molinity=case["mol"], top=4.2 * case["am"] / case["mol"])
    d = ctx.dir()
    gen.put(d, "t.dat", (a, m, t))
    kw = {"solve_mode": "pH_gran", "titrant_amount_unit": "g", "analyte_mass": case["am"]}
    lim = {}
    if case["norm"]:
        lim["titrant_normality"] = case["norm"]
    if case["lo"]:
        lim.update(pH_min=case["lo"], pH_max=case["hi"])
    w = ref.solve_ph_gran(case["mol"], a / 1000, m, case["am"], **lim)
    sr = files.solve("t.dat", case["mol"], 35.0, file_path=d, **kw, **lim)
    ds = util.frame([util.base_row("t.dat", file_path=d, titrant_molinity=case["mol"], **{**kw, **lim})])
    ds.solve()
    ctx.step(2)
    ctx.validate(2)
    for name, got in (("file", sr.alkalinity), ("dataset", ds.alkalinity.iloc[0])):
        ctx.close("pH_gran alkalinity", got, w.alkalinity, 1e-6, 1e-9, f"{case} {name}")
    ctx.check(ds.alkalinity_npts.iloc[0] == w.used.sum(), "npts", f"{case}: {ds.alkalinity_npts.iloc[0]} points")
    return float(sr.alkalinity)

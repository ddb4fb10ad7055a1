"""C11: exactly the points inside the pH window determine the result."""
import os

import numpy as np

from .. import gen, ref, util

PROPERTY = "C11"
BOUNDS = {
    "quick": "5 shapes of titration (monotonic, zigzag, with repeated values, few points, values just beside round limits) x every ordered pair of limits over all point values, "
             "all midpoints and beyond, and (two shapes) 1e-7 and 3e-5 beside every point (empty and reversed windows included) x (pH, pH_gran) with limits on and off the points, "
             "(EMF, pH_adjust) with limits off the points x solved once or twice x starting EMF0 given or from Gran; array, file and dataset interfaces, "
             "limits in the table, in the call and as a pair; every outside point disturbed in turn",
    "thorough": "the same with longer titrations (twice as many limits)",
}
ASSUMES = ["a window without width (equal limits) may be refused",
           "limits that coincide with a point are only used for measured pH, where the comparison is exact"]
CHUNK = 6


def shape(kind, tier):
    """pH values, titrant amounts (g)"""
    if kind == "monotonic":
        ph = [6.0, 5.0, 4.4, 4.0, 3.7, 3.5, 3.3, 3.15, 3.0, 2.9]
        if tier == "thorough":
            ph = [7.5, 6.0, 5.5, 5.0, 4.7, 4.4, 4.2, 4.0, 3.85, 3.7, 3.6, 3.5, 3.4, 3.3, 3.2, 3.15, 3.1, 3.0, 2.95, 2.9]
    elif kind == "zigzag":
        ph = [6.0, 3.9, 4.4, 3.5, 4.1, 3.2, 3.6, 3.0, 3.3]
    elif kind == "repeated":
        ph = [5.0, 4.0, 4.0, 3.5, 3.5, 3.5, 3.0, 3.0]
    elif kind == "fine":
        ph = [5.00003, 4.00003, 3.99997, 3.500004, 3.499996, 3.0000002, 2.9999998, 2.95]
    else:
        ph = [4.5, 4.0, 3.0]
    ph = np.array(ph)
    n = len(ph)
    return ph, np.round(np.linspace(1.9, 3.4, n), 4), gen.temps("zigzag", n)


SHAPES = ["monotonic", "zigzag", "repeated", "few", "fine"]


def grid(ph):
    v = sorted(set(ph))
    return v, [0.5 * (a + b) for a, b in zip(v, v[1:])] + [v[0] - 0.5, v[-1] + 0.5, 0.0]


def near(s, ph):
    """Limits just beside the points (of the shapes with few different values)."""
    if s == "fine":
        return [3.0, 3.5, 4.0, 5.0]
    if s not in ("few", "repeated"):
        return []
    return [round(v + d, 9) for v in sorted(set(ph)) for d in (-3e-5, -1e-7, 1e-7, 3e-5)]


def cases(tier):
    out = []
    for s in SHAPES:
        ph = shape(s, tier)[0]
        on, off = grid(ph)
        on = on + near(s, ph)
        for mode in ("pH", "pH_gran"):
            for lo in on + off:
                out.append({"shape": s, "mode": mode, "lo": lo, "via": "core"})
        for lo in on + off:
            out.append({"shape": s, "mode": "pH", "lo": lo, "via": "dataset"})
            out.append({"shape": s, "mode": "pH_gran", "lo": lo, "via": "dataset"})
        if s == "few":
            continue
        for mode in ("emf", "pH_adjust"):
            for lo in off + near(s, ph):
                for double in (True, False):
                    for init in ((None, 600.0, 590.0) if mode == "emf" else (0.0,)):
                        out.append({"shape": s, "mode": mode, "lo": lo, "via": "core", "double": double, "init": init})
                out.append({"shape": s, "mode": mode, "lo": lo, "via": "dataset"})
        out.append({"shape": s, "mode": "pH", "lo": None, "via": "default"})
        out.append({"shape": s, "mode": "pH_gran", "lo": None, "via": "default"})
        for mode in ("pH", "pH_gran"):
            out.append({"shape": s, "mode": mode, "lo": None, "via": "disturb"})
    return out


MOL, SAL, AM = 0.1, 33.0, 0.1
_prep = {}


def prepare(s, tier):
    """Totals and constants of the shape from the package itself (checked in C13)."""
    from calkulate import convert, core

    k = (s, tier)
    if k not in _prep:
        ph, amount, temp = shape(s, tier)
        cv = convert.Converted(amount / 1000, ph, temp, AM, SAL)
        totals, ks = core.totals_ks(cv, total_phosphate=20.0)
        _prep[k] = ph, amount, temp, totals, ks
    return _prep[k]


def window(ph, lo, hi):
    return np.array([lo <= p <= hi for p in ph])


def run(case, ctx):
    ph, amount, temp, totals, ks = prepare(case["shape"], ctx.tier)
    on, off = grid(ph)
    mode = case["mode"]
    his = (on + off) if mode in ("pH", "pH_gran") else off
    if mode in ("pH", "pH_gran") or case["via"] == "core":
        his = his + near(case["shape"], ph)
    ctx.state(case)
    if case["via"] == "core":
        return [core_case(case, ctx, hi, ph, amount, temp, totals, ks) for hi in his]
    if case["via"] == "disturb":
        return disturb(case, ctx, ph, amount, temp)
    return dataset_case(case, ctx, his, ph, amount, temp)


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def core_case(case, ctx, hi, ph, amount, temp, totals, ks):
    from calkulate import core

    lo, mode = case["lo"], case["mode"]
    mass = amount / 1000
    what = f"{case} hi={hi}"
    ctx.step()
    ctx.validate()
    if mode in ("pH", "pH_gran"):
        f = core.solve_pH if mode == "pH" else core.solve_pH_gran
        sr, err = attempt(lambda: f(MOL, mass, ph, temp, AM, totals, ks, pH_min=lo, pH_max=hi))
        used = window(ph, lo, hi)
        if used.sum() == 0:
            ctx.check(sr is None or not np.isfinite(sr.alkalinity), "empty", f"{what}: alkalinity {sr and sr.alkalinity} without any point")
            return None
        if lo == hi and sr is None:
            return None  # a window without width may be refused
        if mode == "pH":
            m = ref.solve_ph(MOL, mass, ph, temp, AM, totals, ks, lo, hi)
        else:
            m = ref.solve_ph_gran(MOL, mass, ph, AM, lo, hi)
            if m is None or len(set(mass[used])) < 2:
                ctx.check(sr is None or not np.isfinite(sr.alkalinity), "empty", f"{what}: Gran alkalinity from one point")
                return None
        if sr is None:
            ctx.fail("raised", f"{what}: {err!r} with {used.sum()} points")
            return None
        ctx.check(list(map(bool, sr.used)) == list(used), "used", f"{what}: used {list(map(bool, sr.used))} instead of {list(used)}")
        ctx.close("alkalinity", sr.alkalinity, m.alkalinity, 1e-6, 1e-9, what)
        return float(sr.alkalinity)
    # EMF
    init = case["init"]
    e0 = 600.0 if mode == "emf" else 0.0
    emf = ref.emf_from_ph(ph, e0, temp)
    if init is None:
        if case["shape"] != "monotonic":
            return None  # no Gran line
        g = ref.gran(mass, emf, temp, AM, MOL)
        start = ref.ph_from_emf(emf, g.emf0, temp)
        kw = {}
    else:
        start = ref.ph_from_emf(emf, init, temp)
        kw = {"emf0_init": init}
    used = window(start, lo, hi)
    if np.min(np.abs(np.subtract.outer(start, [lo, hi]))) < 1e-6:
        return None  # too close to call
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        one, err1 = attempt(lambda: core.solve_emf(MOL, mass, emf, temp, AM, totals, ks, pH_min=lo, pH_max=hi, double=False, **kw))
        sr, err = attempt(lambda: core.solve_emf(MOL, mass, emf, temp, AM, totals, ks, pH_min=lo, pH_max=hi, double=case["double"], **kw))
    if used.sum() == 0 or lo >= hi:
        for s in (one, sr):
            ctx.check(s is None or not np.isfinite(s.alkalinity), "empty", f"{what}: alkalinity {s and s.alkalinity} although the window is empty")
        return None
    if one is None:
        ctx.fail("raised", f"{what}: {err1!r} with {used.sum()} points")
        return None
    ctx.check(list(map(bool, one.used)) == list(used), "used", f"{what}: used {list(map(bool, one.used))} instead of {list(used)}")
    if case["double"]:
        again = ref.ph_from_emf(emf, one.emf0, temp)
        if np.min(np.abs(np.subtract.outer(again, [lo, hi]))) < 1e-6:
            return None
        used = window(again, lo, hi)
        if used.sum() == 0:
            ctx.check(sr is None or not np.isfinite(sr.alkalinity), "empty", f"{what}: alkalinity although the second window is empty")
            return None
    if sr is None:
        ctx.fail("raised", f"{what}: {err!r}")
        return None
    ctx.check(list(map(bool, sr.used)) == list(used), "used", f"{what}: used {list(map(bool, sr.used))} instead of {list(used)}")
    # the measurements follow from no alkalinity in particular, so only stationarity is checked for >2 points
    return [int(b) for b in sr.used]


def table(ctx, case, ph, amount, temp):
    d = ctx.dir()
    meas = ph if case["mode"] != "emf" else ref.emf_from_ph(ph, 600.0, temp)
    gen.put(d, "t.dat", (amount, meas, temp))
    return d, meas


def dataset_case(case, ctx, his, ph, amount, temp):
    import calkulate as calk
    from calkulate import files

    mode, lo = case["mode"], case["lo"]
    d, meas = table(ctx, case, ph, amount, temp)
    o = {"analyte_mass": AM, "titrant_amount_unit": "g", "solve_mode": mode, "total_phosphate": 20.0}
    if mode == "emf":
        o.update(emf0_init=600.0, double=False)
    elif mode == "pH_adjust":
        o.update(double=False)
    if case["via"] == "default":
        his = [None]
    rows = [dict(o, file_name="t.dat", file_path=d, salinity=SAL, titrant_molinity=MOL, pH_min=lo, pH_max=hi) for hi in his]
    for r in rows:
        for k in ("pH_min", "pH_max"):
            if r[k] is None:
                del r[k]
    ds = util.frame(rows)
    ds.solve()
    for i, hi in enumerate(his):
        one = util.frame([{k: v for k, v in rows[i].items() if k not in ("pH_min", "pH_max")}])
        kw = {} if hi is None else {"pH_range": (lo, hi)}
        kw2 = {} if hi is None else {"pH_min": lo, "pH_max": hi}
        one.solve(**kw)
        sr, err = attempt(lambda: files.solve("t.dat", MOL, SAL, file_path=d, **o, **kw2))
        used = window(ph, 3 if lo is None else lo, 4 if hi is None else hi)
        what = f"{case} hi={hi}"
        ctx.step(3)
        ctx.validate()
        for name, t, j in (("table", ds, i), ("pair", one, 0)):
            r = util.results(t, j, ["alkalinity", "alkalinity_npts"])
            # too few points for a straight line, or none
            no = used.sum() == 0 or (mode == "pH_gran" and len(set(amount[used])) < 2)
            if lo is not None and lo == hi and not np.isfinite(r["alkalinity"]):
                continue  # a window without width may be refused
            if no:
                ctx.check(not np.isfinite(r["alkalinity"]), "empty", f"{what} {name}: alkalinity {r['alkalinity']} from {used.sum()} points")
                if used.sum() == 0:
                    ctx.check(r["alkalinity_npts"] == 0, "npts", f"{what} {name}: {r['alkalinity_npts']} points reported, none used")
                continue
            ctx.check(r["alkalinity_npts"] == used.sum(), "npts", f"{what} {name}: {r['alkalinity_npts']} points reported, {used.sum()} in the window")
            if sr is None:
                ctx.fail("raised", f"{what}: {err!r}")
                continue
            ctx.check(list(map(bool, sr.used)) == list(used), "used", f"{what}: files.solve used {list(map(bool, sr.used))}")
            ctx.close("alkalinity", r["alkalinity"], sr.alkalinity, 1e-7, 1e-9, f"{what} {name}")
            if mode in ("pH", "pH_gran"):
                m = ref.solve((amount, meas, temp), MOL, SAL, dict(o, **kw2))
                ctx.close("alkalinity model", r["alkalinity"], m.alkalinity, 1e-3, 1e-6, f"{what} {name}")
    # a window without points calibrates nothing, either
    if case["via"] == "dataset" and mode == "pH":
        for r in rows:
            r["alkalinity_certified"] = 2300.0
            r.pop("titrant_molinity")
        rows = rows[:: max(1, len(rows) // 4)]
        hs = his[:: max(1, len(his) // 4)]
        cs = util.frame(rows)
        cs["analysis_batch"] = range(len(rows))
        cs.calkulate()
        for i, hi in enumerate(hs):
            used = window(ph, lo, hi)
            g = float(cs.titrant_molinity_here.iloc[i])
            if used.sum() == 0:
                ctx.check(not np.isfinite(g) and not np.isfinite(cs.alkalinity.iloc[i]), "empty calibration",
                          f"{case} hi={hi}: molinity {g}, alkalinity {cs.alkalinity.iloc[i]} without any point")
            elif lo < hi:
                ctx.close("calibration", cs.alkalinity.iloc[i], 2300.0, 1e-3, 0, f"{case} hi={hi}: alkalinity after calibration")
    return [float(x) for x in ds.alkalinity]


def disturb(case, ctx, ph, amount, temp):
    """Every point outside the window is moved elsewhere outside, in turn."""
    from calkulate import files

    mode = case["mode"]
    d = ctx.dir()
    o = {"analyte_mass": AM, "titrant_amount_unit": "g", "solve_mode": mode, "file_path": d}
    gen.put(d, "t.dat", (amount, ph, temp))
    for lo, hi in ((3.1, 4.05), (3.25, 3.75), (3.0, 4.0)):
        base = files.solve("t.dat", MOL, SAL, pH_min=lo, pH_max=hi, **o)
        for i in np.flatnonzero(~window(ph, lo, hi)):
            for what, new in (("pH", 8.0), ("pH", 2.0), ("pH", hi + 0.011), ("pH", lo - 0.011), ("amount", amount[i] + 0.4), ("temperature", 5.0)):
                p, a, t = ph.copy(), amount.copy(), temp.copy()
                {"pH": p, "amount": a, "temperature": t}[what][i] = new
                gen.put(d, "u.dat", (a, p, t))
                sr = files.solve("u.dat", MOL, SAL, pH_min=lo, pH_max=hi, **o)
                ctx.step()
                ctx.validate()
                ctx.close("outside", sr.alkalinity, base.alkalinity, 1e-9, 1e-11, f"{case} window {lo}-{hi}: {what} of outside point {i} set to {new}")
                ctx.check(list(sr.used) == list(base.used), "outside", f"{case} window {lo}-{hi}: used points changed with outside point {i}")
    return float(base.alkalinity)

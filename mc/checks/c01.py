"""C01: self-calibration closes."""
import numpy as np

from .. import framework as fw
from .. import gen, ref, util

PROPERTY = "C01"
BOUNDS = {
    "quick": "4 solve modes x every configuration with <=2 deviations over 24 axes (titrant composition, normality, first guess, "
             "window, Gran rule, solver options, constants options, composition, salinity, units, certified value) through the "
             "array and file interfaces; <=1 deviation through the dataset with options as columns and as call arguments; rougher data x Gran rule x one or two solves x window x certified value",
    "thorough": "<=3 deviations (array and file interfaces), <=2 through the dataset",
}
ASSUMES = ["measurements are disturbed by a fixed irregular noise of 0.25 mV or 0.004 pH",
           "no closure is demanded where the set of points inside the window itself jumps at the calibrated value (the model shows that the equation has no root there)"]
CHUNK = 60

AXES = {
    "titrant_normality": [None, 2, 0.5],
    "titrant_total_sulfate": [None, 1, 0.4],
    "titrant_total_phosphate": [None, 0.05],
    "titrant_total_fluoride": [None, 0.08],
    "titrant_molinity_init": [None, 0.06, 0.25],
    "window": [None, (3.0, 3.5), (3.3, 4.6), (2.9, 5.5), (3.35, 4.2)],
    "gran_logic": [None, "legacy"],
    "double": [None, False],
    "alkalinity_init": [None, 2000.0],
    "emf0_init": [None, 607.0],
    "opt_k_carbonic": [None, 4, 16],
    "opt_k_bisulfate": [None, 2],
    "opt_k_fluoride": [None, 2],
    "opt_total_borate": [None, 2],
    "k_bisulfate": [None, 0.13],
    "dilute_totals_for_ks": [None, True],
    "dic": [None, 150.0],
    "total_phosphate": [None, 20.0],
    "total_alpha": [None, 25.0],
    "total_sulfate": [None, 0.0, 15000.0],
    "salinity": [35.0, 7.0],
    "temperature_override": [None, 18.0],
    "size": ["g", "ml", "volume"],
    "certified": [2300.0, 2180.0, 2461.5],
}
MODES = ["emf", "pH_adjust", "pH", "pH_gran"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for mode in MODES:
        seen = set()
        for c in fw.deviations(AXES, 3 if th else 2):
            if mode in ("pH", "pH_gran") and any(k in c for k in ("gran_logic", "double", "alkalinity_init", "emf0_init")):
                if len(c) > 1:
                    continue
            if mode == "pH_adjust" and "emf0_init" in c and len(c) > 1:
                continue
            out.append({"mode": mode, "cfg": c, "via": "array+file"})
        for c in fw.deviations(AXES, 2 if th else 1):
            for via in ("columns", "kwargs"):
                out.append({"mode": mode, "cfg": c, "via": via})
    # rougher data, for which the first set of points differs between the Gran rules
    for mode in ("emf", "pH_adjust"):
        for c in fw.product(noise=[4, 7, 11] if th else [4, 7], gran_logic=[None, "legacy"], double=[None, False],
                            window=AXES["window"], certified=AXES["certified"],
                            **({"titrant_normality": [None, 2], "emf0_init": [None, 600.0]} if th else {})):
            out.append({"mode": mode, "cfg": {k: v for k, v in c.items() if v is not None}, "via": "array+file"})
    return out


def options(case):
    c = dict(case["cfg"])
    c.pop("noise", None)
    o = {"analyte_mass": 0.1, "titrant_amount_unit": "g"}
    size = c.pop("size", "g")
    if size == "ml":
        o["titrant_amount_unit"] = "ml"
    elif size == "volume":
        o.pop("analyte_mass")
        o["analyte_volume"] = 97.7
    w = c.pop("window", None)
    if w:
        o["pH_min"], o["pH_max"] = w
    sal = c.pop("salinity", 35.0)
    cert = c.pop("certified", 2300.0)
    if "total_alpha" in c:
        o["k_alpha"] = 10**-4.1
    o.update(c)
    o["solve_mode"] = case["mode"]
    return o, sal, cert


def make(case, o, sal):
    """Data near 2300 umol/kg and 0.1 mol/kg with this chemistry, disturbed."""
    chem = {k: v for k, v in o.items() if k not in util.UNITS + ["solve_mode"]}
    mode = case["mode"]
    norm = o.get("titrant_normality", 1)
    return gen.titration(alk=2300.0, molinity=0.1 / norm, am=0.1, salinity=sal, n=40, top=4.3,
                         mode="emf" if mode == "emf" else "pH", which=len(case["cfg"]), opts=chem,
                         rough=case["cfg"].get("noise", 1))


def run(case, ctx):
    from calkulate import convert, core, files
    from ..util import DatData

    o, sal, cert = options(case)
    dat = make(case, o, sal)
    mode = case["mode"]
    p = ctx.path("t.dat")
    gen.write_genfromtxt(p, dat)
    x = {}
    a = {}
    solve_o = {k: v for k, v in o.items() if k != "titrant_molinity_init"}
    ctx.step(4)
    if case["via"] == "array+file":
        x["file"] = float(files.calibrate(p, cert, sal, **o)["x"][0])
        a["file"] = float(files.solve(p, x["file"], sal, **solve_o).alkalinity)
        x["array"], a["array"] = array_level(dat, cert, sal, o)
    else:
        row = {"file_name": p, "salinity": sal, "alkalinity_certified": cert}
        kw = {}
        (row if case["via"] == "columns" else kw).update(o)
        if case["via"] == "kwargs":
            for k in ("analyte_mass", "analyte_volume"):
                if k in kw:
                    row[k] = kw.pop(k)
        ds = util.frame([row])
        ds.calkulate(**kw)
        x[case["via"]] = float(ds.titrant_molinity.iloc[0])
        a[case["via"]] = float(ds.alkalinity.iloc[0])
        ctx.close("offset", ds.alkalinity_offset.iloc[0], ds.alkalinity.iloc[0] - cert, 1e-9, 0, "alkalinity_offset")
    for via in x:
        ctx.state(case, via)
        what = f"{via} {mode} {case['cfg']}"
        if not (abs(a[via] - cert) <= 2e-3):
            if x[via] == x[via] and x[via] > 0 and jumps(dat, x[via], sal, solve_o):
                continue
            ctx.fail("closure", f"{what}: calibrated to {x[via]!r}, solves to {a[via]!r} instead of {cert!r}")
            continue
        # the same titrant closes the loop in the model (roots need not be unique)
        sref = ref.solve(dat, x[via], sal, solve_o)
        ctx.validate()
        if (sref is None or abs(sref.alkalinity - cert) > 0.02) and jumps(dat, x[via], sal, solve_o):
            continue
        ctx.close("molinity", np.nan if sref is None else sref.alkalinity, cert, 0.02, 0,
                  what + " alkalinity in the model with the calibrated titrant")
    return a


def jumps(dat, x, sal, o):
    used = []
    for f in (1 - 2e-5, 1 - 2e-6, 1 - 2e-7, 1, 1 + 2e-7, 1 + 2e-6, 1 + 2e-5):
        s = ref.solve(dat, x * f, sal, o)
        used.append(None if s is None else s.used.tolist())
    return any(u != used[0] for u in used)


def array_level(dat, cert, sal, o):
    from calkulate import convert, core
    from ..util import DatData

    mode = o["solve_mode"].lower()
    cv = convert.amount_units(DatData(*[np.array(d) for d in dat]), sal,
                              **{k: o[k] for k in util.UNITS if k in o})
    totals, ks = core.totals_ks(cv, **{k: o[k] for k in util.CHEM if k in o})
    tt = {k: o[k] for k in util.TT if k in o}
    keys = ["pH_min", "pH_max", "titrant_normality"]
    kw = {}
    meas = cv.measurement
    if mode in ("emf", "ph_adjust"):
        keys += ["alkalinity_init", "double", "gran_logic", "emf0_init"]
        cal, sol = core.calibrate_emf, core.solve_emf
    elif mode == "ph":
        cal, sol = core.calibrate_pH, core.solve_pH
    else:
        cal, sol = core.calibrate_pH_gran, core.solve_pH_gran
    kw = {k: o[k] for k in keys if k in o}
    if mode == "ph_adjust":
        kw["emf0_init"] = 0
        meas = convert.pH_to_emf(meas, 0, cv.temperature)
    kc = dict(kw)
    if "titrant_molinity_init" in o:
        kc["titrant_molinity_init"] = o["titrant_molinity_init"]
    x = float(cal(cert, cv.titrant_mass, meas, cv.temperature, cv.analyte_mass, totals, ks, **kc, **tt)["x"][0])
    totals = core.add_titrant_totals(totals, cv.titrant_mass, cv.analyte_mass, x, **tt)
    a = sol(x, cv.titrant_mass, meas, cv.temperature, cv.analyte_mass, totals, ks, **kw)
    return x, float(a.alkalinity)

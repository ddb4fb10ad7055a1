"""C02: solving recovers the alkalinity and EMF0 that generated a titration."""
import numpy as np

from .. import framework as fw
from .. import gen, ref, util

PROPERTY = "C02"
BOUNDS = {
    "quick": "3 solve modes x every configuration with <=2 deviations over 27 axes (alkalinity, EMF0, titrant, composition, "
             "conditions, window, constants options, units), noise-free data from the model, through files; the package's own "
             "simulator on every configuration with <=2 deviations over 23 axes, compared with the model and solved back",
    "thorough": "<=3 deviations (files), <=3 deviations (simulator)",
}
ASSUMES = ["measurements follow exactly from the reference model (double precision)",
           "recovery to 0.005 umol/kg and 0.005 mV, the accuracy of the least-squares solver's default stopping rule"]
CHUNK = 100

AXES = {
    "alk": [2300.0, 1000.0, 2600.0, 60.0],
    "emf0": [610.0, 590.0, 655.5, 400.0],
    "molinity": [0.1, 0.06, 0.25],
    "am": [0.1, 0.025, 0.31],
    "salinity": [35.0, 33.3, 5.0, 40, 0.4, 0.0, 60.0],
    "temp": ["ramp", "flat", "cold", "zigzag"],
    "window": [None, (3.0, 3.5), (3.4, 4.5), (3.0, 6.0), (2.9, 8.0)],
    "dic": [None, 2000.0, 80.0],
    "total_phosphate": [None, 30.0],
    "total_silicate": [None, 100.0],
    "total_ammonia": [None, 15.0],
    "total_sulfide": [None, 12.0],
    "total_alpha": [None, 25.0],
    "total_beta": [None, 40.0],
    "total_borate": [None, 0.0, 300.0],
    "total_fluoride": [None, 0.0, 200.0],
    "total_sulfate": [None, 0.0, 15000.0],
    "titrant_normality": [None, 2, 0.5],
    "titrant_total_sulfate": [None, 1.0],
    "titrant_total_phosphate": [None, 0.05],
    "titrant_total_fluoride": [None, 0.1],
    "opt_k_carbonic": [None, 1, 4, 12, 16],
    "opt_k_bisulfate": [None, 2],
    "opt_k_fluoride": [None, 2],
    "opt_total_borate": [None, 2],
    "dilute_totals_for_ks": [None, True],
    "solver": [None, {"double": False}, {"gran_logic": "legacy"}, {"alkalinity_init": 2100.0}],
    "k_user": [None, {"k_bisulfate": 0.14}, {"k_fluoride": 0.003}, {"k_borate": 4e-9}, {"k_water": 9e-14}, {"k_carbonic_1": 2e-6}],
}
OFFSETS = {"pH_adjust": [0.0, 12.0, -9.0, 30.0]}
SIM = {
    "alkalinity": [2300.0, 1800.0, 2500.0],
    "analyte_mass": [0.1, 0.05],
    "dic": [0, 2000.0, 150.0],
    "emf0": [600, 640.0],
    "salinity": [35, 20.0],
    "temperature": [25, 15.0, "ramp"],
    "titrant_mass_start": [0, 0.3e-3],
    "titrant_mass_step": [0.15e-3, 0.1e-3],
    "titrant_mass_stop": [4.2e-3, 3.8e-3],
    "titrant_molinity": [0.1, 0.12],
    "total_phosphate": [None, 20.0],
    "total_silicate": [None, 60.0],
    "total_ammonia": [None, 15.0],
    "total_sulfide": [None, 12.0],
    "total_alpha": [None, 25.0],
    "total_beta": [None, 40.0],
    "total_borate": [None, 0.0, 300.0],
    "total_fluoride": [None, 0.0, 200.0],
    "total_sulfate": [None, 0.0, 15000.0],
    "opt_k_carbonic": [None, 4],
    "opt_k_bisulfate": [None, 2],
    "opt_k_fluoride": [None, 2],
    "opt_total_borate": [None, 2],
}


def cases(tier):
    th = tier == "thorough"
    out = []
    for mode in ("emf", "pH_adjust", "pH"):
        for c in fw.deviations(AXES, 3 if th else 2):
            if mode != "emf" and "emf0" in c:
                continue
            if mode == "pH" and "solver" in c:
                continue
            offs = [0.0]
            if mode == "pH_adjust":
                offs = OFFSETS["pH_adjust"] if len(c) <= (2 if th else 1) else [12.0]
            for e in offs:
                out.append({"kind": "solve", "mode": mode, "cfg": c, "offset": e})
    for c in fw.deviations(SIM, 3 if th else 2):
        out.append({"kind": "simulate", "cfg": c})
    out.append({"kind": "simulate-class"})
    return out


def run(case, ctx):
    ctx.state(case)
    if case["kind"] == "simulate":
        return simulate(case, ctx)
    if case["kind"] == "simulate-class":
        return simulate_class(ctx)
    from calkulate import files

    c = dict(case["cfg"])
    mode = case["mode"]
    alk, mol, am = c.pop("alk", 2300.0), c.pop("molinity", 0.1), c.pop("am", 0.1)
    emf0, sal, temp = c.pop("emf0", 610.0), c.pop("salinity", 35.0), c.pop("temp", "ramp")
    w = c.pop("window", None)
    o = dict(c.pop("solver", None) or {})
    o.update(c.pop("k_user", None) or {})
    o.update(c)
    if w:
        o["pH_min"], o["pH_max"] = w
    if "total_alpha" in o:
        o["k_alpha"] = 10**-3.8
    if "total_beta" in o:
        o["k_beta"] = 10**-6.2
    norm = o.get("titrant_normality", 1)
    n = 40
    # far enough past the equivalence point to cover the window
    eq = alk * 1e-6 * am / (mol * norm)
    top = eq * 1e3 + 2.1 * am / 0.1 * 0.1 / (mol * norm)
    o["analyte_mass"] = am
    o["titrant_amount_unit"] = "g"
    lo = 0.0
    if alk < 500 or w is None or w[1] < 5:
        lo = max(0.0, eq * 1e3 - 0.4 * top)
    g = np.linspace(lo, top, n)
    t = gen.temps(temp, n)
    chem = {k: v for k, v in o.items() if k in util.CHEM + util.TT + ["titrant_normality"]}
    e = emf0 if mode == "emf" else case["offset"]
    emf = ref.forward(alk, mol, g / 1000, t, am, sal, chem, emf0=e, mode="emf")
    meas = emf if mode == "emf" else ref.ph_from_emf(emf, 0.0, t)
    p = ctx.path("t.dat")
    gen.write_genfromtxt(p, (g, meas, t))
    ctx.step(2)
    sr = files.solve(p, mol, sal, solve_mode=mode, **o)
    what = f"{mode} offset {case['offset']} {case['cfg']}"
    ctx.close("alkalinity " + mode, sr.alkalinity, alk, 0.005, 0, what + " alkalinity")
    if mode != "pH":
        ctx.close("emf0 " + mode, sr.emf0, e, 0.005, 0, what + " EMF0")
    else:
        ctx.close("alkalinity_all", sr.alkalinity_all, np.full(n, alk), 1e-4, 1e-7, what + " pointwise")
    ctx.check(np.sum(sr.used) >= 3, "points", f"{what}: only {np.sum(sr.used)} points used")
    ctx.validate()
    return round(float(sr.alkalinity), 3)


def simulate(case, ctx):
    from calkulate import core, simulate as sim

    c = dict(case["cfg"])
    kw = {k: c.get(k, v[0]) for k, v in SIM.items()}
    kw = {k: v for k, v in kw.items() if v is not None}
    mass = np.arange(kw["titrant_mass_start"], kw["titrant_mass_stop"], kw["titrant_mass_step"])
    if kw["temperature"] == "ramp":
        kw["temperature"] = gen.temps("ramp", len(mass))
        t = kw["temperature"].copy()
    else:
        t = np.full(len(mass), float(kw["temperature"]))
    for acid, k in (("alpha", 10**-3.8), ("beta", 10**-6.2)):
        if "total_" + acid in c:
            kw["k_" + acid] = c["k_" + acid] = k
    call = {k: v for k, v in kw.items() if k in c or k == "temperature"}
    call.pop("alkalinity", None)
    # omitted arguments take the documented defaults
    ctx.step(2)
    m, emf, temp, am, totals, ks = sim._titration(kw["alkalinity"], **call)
    what = f"simulator {case['cfg']}"
    ctx.close("sim mass", m, mass, 1e-15, 0, what + " titrant mass")
    ctx.close("sim temperature", temp, t, 0, 0, what + " temperature")
    o = {k: v for k, v in kw.items() if k in ref.TOTALS or k.startswith(("opt_", "k_"))}
    o["dilute_totals_for_ks"] = True
    want = ref.forward(kw["alkalinity"], kw["titrant_molinity"], mass, t, kw["analyte_mass"], kw["salinity"], o,
                       emf0=kw["emf0"], mode="emf")
    ctx.close("sim emf", emf, want, 1e-3, 0, what + " EMF")
    wt, wk = ref.totals_ks(mass, t, kw["analyte_mass"], kw["salinity"], o)
    for k in ("dic", "total_borate", "total_sulfate", "total_fluoride", "total_phosphate", "total_silicate",
              "total_ammonia", "total_sulfide", "total_alpha", "total_beta"):
        if k not in wt:
            ctx.check(not np.any(totals.get(k, 0)), "sim total", f"{what} {k} is {totals.get(k)}")
            continue
        ctx.close("sim total", np.broadcast_to(totals[k], mass.shape), wt[k], 1e-15, 1e-9, f"{what} {k}")
    sr = core.solve_emf(kw["titrant_molinity"], m, emf, temp, am, totals, ks)
    ctx.close("sim alkalinity", sr.alkalinity, kw["alkalinity"], 0.005, 0, what + " alkalinity")
    ctx.close("sim emf0", sr.emf0, kw["emf0"], 0.01, 0, what + " EMF0")
    cal = core.calibrate_emf(kw["alkalinity"], m, emf, temp, am, totals, ks)
    ctx.close("sim molinity", cal["x"][0], kw["titrant_molinity"], 0, 1e-5, what + " calibrated molinity")
    ctx.validate(2)
    return round(float(sr.alkalinity), 3)


def simulate_class(ctx):
    """simulate.titration: documented to return a calibrated and solved Titration."""
    from calkulate import simulate as sim

    ctx.step()
    try:
        tt = sim.titration(2300.0)
    except Exception as e:
        ctx.fail("simulate.titration-raises", f"simulate.titration(2300) raises {type(e).__name__}: {e}")
        return "raises"
    ctx.close("simulate.titration", tt.alkalinity, 2300.0, 0.02, 0, "simulate.titration alkalinity")
    return "ok"

"""C08: all interfaces give the same answer for the same titration."""
import os

import numpy as np
import pandas as pd

from .. import framework as fw
from .. import gen, ref, util

PROPERTY = "C08"
BOUNDS = {
    "quick": "all configurations within 2 deviations of the default over 16 axes (mode, sample size, titrant unit, normality, titrant salts, "
             "composition, organics, temperature, window, double, Gran rule, constants options, user constants, file layout, blank cells, "
             "how options are given), each through 8 interfaces, with the whole point-by-point table",
    "thorough": "the same within 3 deviations",
}
ASSUMES = ["for pH_gran the per-point estimates are not expected to average to the Gran alkalinity"]
CHUNK = 12
AXES = {
    "mode": ["emf", "pH_adjust", "pH", "pH_gran", "PH", "EMF"],
    "size": ["mass", "volume", "both", "blankmass"],
    "unit": ["g", "ml", "kg", "density", "H2SO4"],
    "normality": [None, 2.0],
    "tt": [None, "sulfate", "phosphate", "fluoride"],
    "totals": [None, "dic", "nutrients", "salts"],
    "organic": [None, "alpha", "both"],
    "temp": [None, 20.0],
    "window": [None, [3.2, 3.8]],
    "double": [None, False],
    "gran": [None, "legacy"],
    "opts": [None, {"opt_k_carbonic": 14}, {"opt_k_bisulfate": 2}, {"opt_k_fluoride": 2}, {"opt_total_borate": 2}, {"dilute_totals_for_ks": True}],
    "ks": [None, {"k_bisulfate": 0.1}, {"k_fluoride": 0.004, "k_water": 4e-14}, {"k_borate": 2e-9, "k_carbonic_1": 2e-6}],
    "file": ["genfromtxt", "columns", "pclims", "tiamo", "nopath"],
    "blank": ["absent", "nan", "none"],
    "how": ["row", "kw"],
}


def cases(tier):
    return [c for c in fw.deviations(AXES, 3 if tier == "thorough" else 2)]


_made = {}


def setup(ctx):
    if ctx.scratch in _made:
        return _made[ctx.scratch]
    d = os.path.join(ctx.scratch, "keep-files")
    os.makedirs(d)
    for mode in ("emf", "pH"):
        t = gen.titration(alk=2310, molinity=0.1, mode=mode, n=18, top=4.2, which=2)
        gen.put(d, mode + ".dat", t)
        gen.put(d, mode + "-columns.dat", t, delimiter=";", header=1, order=(3, 0, 2), extra=1)
        gen.write_pclims(os.path.join(d, mode + "-pclims.txt"), t)
        gen.write_tiamo(os.path.join(d, mode + "-tiamo.txt"), t, start=0.0)
        _dat[mode] = t
    _made[ctx.scratch] = d
    return d


_dat = {}
_k0 = {}


def solubility(t, s):
    """Weiss (1974) CO2 solubility, mol/kg/atm."""
    if (t, s) not in _k0:
        x = (t + 273.15) / 100
        _k0[t, s] = float(np.exp(-60.2409 + 93.4517 / x + 23.3585 * np.log(x) + s * (0.023517 - 0.023656 * x + 0.0047036 * x * x)))
    return _k0[t, s]


def config(case, d):
    """(file name, options, data) of a configuration"""
    c = {k: case.get(k, v[0]) for k, v in AXES.items()}
    meas = "emf" if c["mode"].lower() == "emf" else "pH"
    o = {}
    if c["mode"] != "emf":
        o["solve_mode"] = c["mode"]
    f = meas + {"genfromtxt": ".dat", "nopath": ".dat", "columns": "-columns.dat", "pclims": "-pclims.txt", "tiamo": "-tiamo.txt"}[c["file"]]
    if c["file"] == "nopath":
        f = os.path.join(d, f)
    else:
        o["file_path"] = d
    if c["file"] == "columns":
        o.update(delimiter=";", skip_header=1, col_titrant_amount=3, col_measurement=0, col_temperature=2)
    elif c["file"] == "pclims":
        o["file_type"] = "pclims"
    elif c["file"] == "tiamo":
        o["file_type"] = "tiamo_de"
    if c["size"] in ("mass", "both"):
        o["analyte_mass"] = 0.1
    if c["size"] != "mass":
        o["analyte_volume"] = 97.5
    if c["unit"] == "density":
        o["titrant_density"] = 1.035
    elif c["unit"] == "H2SO4":
        o.update(titrant="H2SO4", molinity_H2SO4=0.25)
    elif c["unit"] != "ml":
        o["titrant_amount_unit"] = c["unit"]
    if c["normality"]:
        o["titrant_normality"] = c["normality"]
    if c["tt"]:
        o["titrant_total_" + c["tt"]] = {"sulfate": 1.0, "phosphate": 0.1, "fluoride": 0.3}[c["tt"]]
    if c["totals"] == "dic":
        o["dic"] = 300.0
    elif c["totals"] == "nutrients":
        o.update(total_phosphate=40.0, total_silicate=50.0, total_ammonia=60.0, total_sulfide=70.0)
    elif c["totals"] == "salts":
        o.update(total_borate=500.0, total_fluoride=0.0, total_sulfate=26000.0)
    if c["organic"]:
        o.update(total_alpha=80.0, k_alpha=10 ** -4.1)
        if c["organic"] == "both":
            o.update(total_beta=60.0, k_beta=10 ** -6.0)
    if c["temp"]:
        o["temperature_override"] = c["temp"]
    if c["window"]:
        o["pH_min"], o["pH_max"] = c["window"]
    if c["double"] is not None:
        o["double"] = c["double"]
    if c["gran"]:
        o["gran_logic"] = c["gran"]
    o.update(c["opts"] or {})
    o.update(c["ks"] or {})
    amount, m, t = _dat[meas]
    if c["unit"] == "kg":
        pass
    return c, f, o, (amount, m, t)


def rescale(ctx, d, c, f, o):
    """Units other than g need an amount of the right size: the kg file."""
    if c["unit"] != "kg":
        return f
    meas = "emf" if c["mode"].lower() == "emf" else "pH"
    a, m, t = _dat[meas]
    t2 = (a / 1000, m, t)
    g = "kg-" + os.path.basename(f)
    p = os.path.join(d, g)
    if not os.path.exists(p):
        if c["file"] == "columns":
            gen.put(d, g, t2, delimiter=";", header=1, order=(3, 0, 2), extra=1)
        elif c["file"] == "pclims":
            gen.write_pclims(p, t2)
        elif c["file"] == "tiamo":
            gen.write_tiamo(p, t2)
        else:
            gen.put(d, g, t2)
    return p if os.path.isabs(f) else g


def answer(sr):
    d = {"alkalinity": float(sr.alkalinity), "emf0": np.nan, "gran_alkalinity": np.nan, "gran_emf0": np.nan}
    if hasattr(sr, "ggr"):
        d.update(emf0=float(sr.emf0), gran_alkalinity=float(sr.ggr.alkalinity) * 1e6, gran_emf0=float(sr.ggr.emf0))
    return d


def arrays(fname, mol, sal, o):
    """The array-level interface, step by step as documented."""
    import calkulate as calk
    from calkulate import convert, core

    o = dict(o)
    mode = o.pop("solve_mode", "emf").lower()
    fname = os.path.join(o.pop("file_path", ""), fname)
    pick = lambda keys: {k: o[k] for k in keys if k in o}
    dd = calk.read_dat(fname, **pick(util.READ))
    cv = convert.amount_units(dd, sal, **pick(util.UNITS))
    totals, ks = core.totals_ks(cv, **pick(util.CHEM))
    totals = core.add_titrant_totals(totals, cv.titrant_mass, cv.analyte_mass, mol, **pick(util.TT))
    args = (cv.titrant_mass, cv.measurement, cv.temperature, cv.analyte_mass, totals, ks)
    if mode == "emf":
        return core.solve_emf(mol, *args, **pick(util.SOLVER))
    if mode == "ph_adjust":
        args = (args[0], convert.pH_to_emf(args[1], 0, args[2])) + args[2:]
        return core.solve_emf(mol, *args, **dict(pick(util.SOLVER), emf0_init=0))
    kw = pick(["pH_min", "pH_max", "titrant_normality"])
    return (core.solve_pH if mode == "ph" else core.solve_pH_gran)(mol, *args, **kw)


def run(case, ctx):
    import calkulate as calk
    from calkulate import files

    d = setup(ctx)
    c, f, o, dat = config(case, d)
    f = rescale(ctx, d, c, f, o)
    if c["unit"] == "kg":
        dat = (dat[0] / 1000,) + tuple(dat[1:])
    mol = 0.1 / (c["normality"] or 1)
    sal = 34.5
    ctx.state(case)
    row = {"file_name": f, "salinity": sal, "titrant_molinity": mol, "file_good": True}
    kw = {}
    for k, v in o.items():
        (kw if c["how"] == "kw" and k not in ("analyte_mass", "analyte_volume", "file_path") else row)[k] = v
    if c["size"] == "blankmass":
        row["analyte_mass"] = np.nan
    if c["blank"] != "absent":
        b = np.nan if c["blank"] == "nan" else None
        for k in util.SOLVE_KEYS + ["alkalinity_certified", "read_dat_method"]:
            if k not in row:
                row[k] = b
    other = {"file_name": "nothing", "salinity": 30.0, "titrant_molinity": np.nan, "analyte_mass": 0.2, "file_good": False}
    cols = list(dict.fromkeys(list(row) + list(other)))
    data = {}
    for k in cols:
        v = [row.get(k, np.nan), other.get(k, np.nan)]
        data[k] = pd.Series(v, dtype=object) if (row.get(k, 0) is None) else v
    make = lambda cls: cls(data)

    out = {}
    ds = make(calk.Dataset)
    ds.index = ["x", "y"]
    ret = ds.solve(**kw)
    out["Dataset.solve"] = util.results(ds, 0, ["alkalinity", "emf0", "gran_alkalinity", "gran_emf0"])
    df = make(pd.DataFrame)
    ret = calk.solve(df, **kw)
    out["calk.solve"] = util.results(ret, 0, ["alkalinity", "emf0", "gran_alkalinity", "gran_emf0"])
    sr = files.solve(f, mol, sal, **o)
    out["files.solve"] = answer(sr)
    sa = arrays(f, mol, sal, o)
    out["core"] = answer(sa)
    ds0 = make(calk.Dataset)
    ds0.index = ["x", "y"]
    tts = {}
    before = util.snapshot(ds0)
    tts["Dataset.to_Titration"] = ds0.to_Titration("x", **kw)
    ctx.check(util.snapshot(ds0) == before, "changed", f"to_Titration changed the dataset, {case}")
    df0 = make(pd.DataFrame)
    if c["how"] == "kw" or len(case) < 2:
        tts["calk.to_Titration"] = calk.to_Titration(df0, 0, **kw)
    tts["Titration of solved row"] = calk.Titration(ds.loc["x"], **kw)
    for name, tt in tts.items():
        out[name] = {"alkalinity": float(tt.alkalinity)}
        want = ["emf0", "gran_alkalinity", "gran_emf0"] if hasattr(sr, "ggr") else []
        for k in want:
            out[name][k] = float(getattr(tt, k))
            ctx.check(util.same(float(tt[k]), out[name][k], 0, 0), "item access", f"{name}[{k!r}] {case}")
    ctx.step(len(out))
    base = out["files.solve"]
    for name, got in out.items():
        util.compare_dicts(ctx, "answer", got, {k: base[k] for k in got}, f"{name} against files.solve, {case}")
    # the reference model
    m = ref.solve(dat, mol, sal, o)
    ctx.close("model", base["alkalinity"], m.alkalinity, 0.005, 0, f"{case} alkalinity")
    if "emf0" in m.__dict__:
        ctx.close("model", base["emf0"], m.emf0, 0.005, 0, f"{case} EMF0")
        ctx.close("model", [base["gran_alkalinity"], base["gran_emf0"]], [m.gran.alkalinity * 1e6, m.gran.emf0], 0.001, 0, f"{case} Gran")
    # point-by-point table
    mass, temp, am = m.mass, m.temp, m.am
    k_co2 = np.array([solubility(float(x), sal) for x in temp])
    for name, tt in tts.items():
        t = tt.titration
        w = f"{name}.titration {case} "
        ctx.check(tt.t is t or tt.t.equals(t), "table", w + "t is not titration")
        ctx.check(len(t) == len(mass), "table", w + f"{len(t)} rows")
        ctx.close("table", tt.analyte_mass, am, 1e-12, 1e-9, w + "analyte_mass")
        ctx.close("table", t.titrant_mass, mass, 1e-15, 1e-12, w + "titrant_mass")
        ctx.close("table", t.temperature, temp, 0, 0, w + "temperature")
        ctx.close("table", t.pH, sr.pH, 0, 1e-10, w + "pH")
        ctx.close("table pH", t.pH, m.pH, 2e-5, 0, w + "pH")
        ctx.check(list(map(bool, t.used)) == list(map(bool, m.used)), "table", w + f"used {list(t.used)} instead of {list(m.used)}")
        ctx.close("table", t.dilution_factor, am / (am + mass), 0, 1e-12, w + "dilution_factor")
        for k, v in m.totals.items():
            if np.any(np.asarray(v) > 0):
                ctx.close("table", t[k] if k in t else np.full(len(mass), np.nan), v, 1e-15, 1e-9, w + k)
        for k, v in m.ks.items():
            if k in ("k_alpha", "k_beta") and "total_" + k[2:] not in t:
                continue
            ctx.close("table", t[k] if k in t else np.full(len(mass), np.nan), v, 0, 1e-9, w + k)
        norm = c["normality"] or 1
        acid = mass * mol * norm / (mass + am)
        ctx.close("table", t.alkalinity_from_acid, (base["alkalinity"] * 1e-6 * am - mass * mol * norm) / (am + mass), 1e-12, 0, w + "alkalinity_from_acid")
        sp = ref.species(t.pH.to_numpy(), m.totals, m.ks)
        for k in ref.CHARGE:
            ctx.close("species", t[k], sp[k], 2e-10, 1e-6, w + k)
        ctx.close("table", t["k_CO2"], k_co2, 0, 1e-9, w + "k_CO2")
        ctx.close("estimate", t.alkalinity_from_pH * 1e6, ref.alk(t.pH.to_numpy(), m.totals, m.ks) * 1e6, 0.002, 0, w + "alkalinity_from_pH")
        est = (ref.alk(t.pH.to_numpy(), m.totals, m.ks) + acid) * (am + mass) / am
        ctx.close("estimate", t.alkalinity_estimate * 1e6, est * 1e6, 0.002, 0, w + "alkalinity_estimate")
        if c["mode"].lower() != "ph_gran":
            ctx.close("mean estimate", np.mean(t.alkalinity_estimate[t.used]) * 1e6, base["alkalinity"], 0.05, 0, w + "mean of alkalinity_estimate")
        if hasattr(sr, "ggr"):
            emf = dat[1] if c["mode"].lower() == "emf" else ref.emf_from_ph(dat[1], 0.0, temp)
            ctx.close("table", t.emf, emf, 1e-9, 0, w + "emf")
            g = m.gran
            ctx.close("table", t.gran_func, sr.ggr.gfunc, 0, 1e-12, w + "gran_func")
            ctx.check(list(map(bool, t.gran_used)) == list(map(bool, g.used)), "table", w + "gran_used")
            ctx.close("table", t.gran_pH, ref.ph_from_emf(emf, g.emf0, temp), 1e-8, 0, w + "gran_pH")
        ctx.check(os.path.basename(f) in str(tt), "name", w + f"str is {str(tt)}")
        ctx.check(os.path.basename(f) in repr(tt), "name", w + f"repr is {repr(tt)}")
    ctx.validate(len(out))
    return [round(base["alkalinity"], 6)]

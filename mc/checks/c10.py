"""C10: titrant and sample amounts are converted to mass correctly."""
import math

import numpy as np

from .. import framework as fw
from .. import gen, ref

PROPERTY = "C10"
BOUNDS = {
    "quick": "density formulas on full grids; full product of unit spelling, density, titrant spelling, molinities, "
             "sample size form, salinity, temperature pattern and override for amount_units; every configuration with "
             "<=2 deviations through the file reader and the solver",
    "thorough": "denser density grids; larger products; every configuration with <=3 deviations through the file reader and solver",
}
ASSUMES = ["titrant densities are at 25 C (DSC07 / E-AIM fit); seawater density is MP81; outside their range of validity the same formulas are used, with a warning"]
CHUNK = 60

AXES = {
    "titrant_amount_unit": ["(default)", "ml", "g", "kg", "ML", "G", "Kg"],
    "titrant_density": [None, 1.0, 1.031, 0.5],
    "titrant": ["(default)", "HCl", "H2SO4", "hcl", "h2so4", "HCL"],
    "molinity_HCl": [None, 0.05, 0.2, 1.0, 0.0],
    "molinity_NaCl": [None, 0.0, 0.3, 0.7],
    "molinity_H2SO4": [None, 0.05, 0.3, 2.5, 0.01, 4.0],
    "size": ["mass", "volume", "both", "mass_nan", "volume_nan", "mass_big", "mass_tiny", "volume_big", "volume_tiny"],
    "salinity": [35.0, 0.5, 5.0, 20.5, 42.0, 35, 0.0, 0.2, 60.0],
    "temp": ["ramp", "flat", "cold", "zigzag", "down"],
    "override": [None, 0.0, 18.5, 25, 39.9, -1.5, 45.0],
    "mode": ["pH", "pH_gran", "emf", "pH_adjust"],
}


def cases(tier):
    th = tier == "thorough"
    out = []
    for t in [-1.5, 45.0] + list(np.linspace(0, 40, 41 if th else 17)):
        out.append({"kind": "sw", "t": float(t), "fine": th})
    for m in np.linspace(0, 1.5, 31 if th else 13):
        out.append({"kind": "hcl", "hcl": float(m), "fine": th})
    out.append({"kind": "h2so4", "fine": th})
    # full product at array level
    for unit in AXES["titrant_amount_unit"]:
        for dens in AXES["titrant_density"]:
            for tit in AXES["titrant"]:
                for size in AXES["size"]:
                    out.append({"kind": "product", "titrant_amount_unit": unit, "titrant_density": dens,
                                "titrant": tit, "size": size, "fine": th})
    for cfg in fw.deviations(AXES, 3 if th else 2):
        if cfg.get("molinity_HCl") == 0.0 and cfg.get("molinity_NaCl") == 0.0:
            continue  # pure water is no titrant: the density formula is undefined
        out.append({"kind": "file", "cfg": cfg})
    for t in ("flat", "whole"):
        for o in (None, 18.5, 0.0):
            for m in ("ph", "ph_gran"):
                out.append({"kind": "tiamo", "temp": t, "override": o, "mode": m})
    return out


def temps(kind, n):
    if kind == "down":
        return np.round(30.0 - 0.2 * np.arange(n), 3)
    return gen.temps(kind, n)


def opts_of(c):
    """(keyword options, effective options for the model)"""
    o = {}
    for k in ("titrant_amount_unit", "titrant"):
        if c.get(k, "(default)") != "(default)":
            o[k] = c[k]
    for k in ("titrant_density", "molinity_HCl", "molinity_NaCl", "molinity_H2SO4"):
        if c.get(k) is not None:
            o[k] = c[k]
    if c.get("override") is not None:
        o["temperature_override"] = c["override"]
    size = c.get("size", "mass")
    nan = float("nan")
    o.update({
        "mass": {"analyte_mass": 0.1007}, "volume": {"analyte_volume": 98.7},
        "both": {"analyte_mass": 0.1007, "analyte_volume": 250.0},
        "mass_nan": {"analyte_mass": nan, "analyte_volume": 98.7},
        "volume_nan": {"analyte_mass": 0.1007, "analyte_volume": nan},
        "mass_big": {"analyte_mass": 4.5}, "mass_tiny": {"analyte_mass": 0.0008, "analyte_volume": 55.0},
        "volume_big": {"analyte_volume": 5000.0}, "volume_tiny": {"analyte_volume": 0.75},
    }[size])
    return o


def run(case, ctx):
    from calkulate import convert, density, files
    from ..util import DatData

    kind = case["kind"]
    if kind == "sw":
        sal = [0.0, 0.2, 50.0, 0.5, 1.0, 5.0, 12.25, 20.0, 30.0, 33.3, 35.0, 38.0, 42.0, 43.0]
        if case["fine"]:
            sal = list(np.linspace(0.5, 43, 86))
        want = np.array([ref.rho_seawater(case["t"], s) for s in sal])
        got = [density.seawater_1atm_MP81(temperature=case["t"], salinity=s) for s in sal]
        ctx.close("rho-sw", got, want, 1e-12, 0, f"seawater density at {case['t']} C")
        ctx.close("rho-sw", density.seawater_1atm_MP81(temperature=case["t"], salinity=np.array(sal)), want,
                  1e-12, 0, "seawater density, array")
        if case["t"] == 25:
            ctx.close("rho-sw", density.seawater_1atm_MP81(), ref.rho_seawater(25.0, 35.0), 1e-12, 0, "default")
        ctx.state(case)
        ctx.step(len(sal))
        ctx.validate(len(sal))
        return want.tolist()
    if kind == "hcl":
        nacl = np.linspace(0.05, 1.5, 59 if case["fine"] else 13)
        want = np.array([ref.rho_hcl_nacl(case["hcl"], x) for x in nacl])
        got = [density.HCl_NaCl_25C_DSC07(molinity_HCl=case["hcl"], molinity_NaCl=float(x)) for x in nacl]
        ctx.close("rho-hcl", got, want, 1e-12, 0, f"HCl-NaCl density at {case['hcl']}")
        ctx.close("rho-hcl", density.HCl_NaCl_25C_DSC07(molinity_HCl=case["hcl"], molinity_NaCl=nacl), want, 1e-12, 0, "array")
        ctx.close("rho-hcl", density.HCl_NaCl_25C_DSC07(molinity_HCl=case["hcl"]), ref.rho_hcl_nacl(case["hcl"], 0.6), 1e-12, 0, "default NaCl")
        ctx.close("rho-hcl", density.HCl_NaCl_25C_DSC07(molinity_NaCl=0.33), ref.rho_hcl_nacl(0.1, 0.33), 1e-12, 0, "default HCl")
        ctx.state(case)
        ctx.step(len(nacl))
        ctx.validate(len(nacl))
        return want.tolist()
    if kind == "h2so4":
        m = np.append(np.linspace(0.05, 3, 119 if case["fine"] else 30), [0.0, 0.01, 3.5, 6.0])
        want = np.array([ref.rho_h2so4(x) for x in m])
        ctx.close("rho-h2so4", [density.H2SO4_25C_EAIM(float(x)) for x in m], want, 1e-12, 0, "H2SO4 density")
        ctx.state(case)
        ctx.step(len(m))
        ctx.validate(len(m))
        return want.tolist()
    if kind == "product":
        fine = case["fine"]
        sal = AXES["salinity"] if fine else [35.0, 5.0]
        tmp = AXES["temp"] if fine else ["ramp", "down"]
        ovr = AXES["override"]
        mols = [(None, None, None), (0.2, 0.3, 0.3), (0.05, None, 2.5), (None, 0.0, 0.05)]
        amount = np.array([0.0, 0.15, 0.31, 1.0, 2.5, 4.2])
        meas = np.array([8.0, 7.0, 6.1, 5.0, 3.5, 3.0])
        tot = 0.0
        for s in sal:
            for tk in tmp:
                t = temps(tk, len(amount))
                for ov in ovr:
                    for h, n, q in mols:
                        c = dict(case, salinity=s, temp=tk, override=ov, molinity_HCl=h, molinity_NaCl=n, molinity_H2SO4=q)
                        o = opts_of(c)
                        ctx.state(c)
                        ctx.step()
                        dd = DatData(amount.copy(), meas.copy(), t.copy())
                        got = convert.amount_units(dd, s, **o)
                        tot += compare(ctx, got, (amount, meas, t), s, o, str(c))
                        ctx.check(np.array_equal(dd.titrant_amount, amount) and np.array_equal(dd.temperature, t)
                                  and np.array_equal(dd.measurement, meas), "mutated", f"input changed: {c}")
        return tot
    if kind == "tiamo":
        n = 20
        g, m, t = gen.titration(mode="pH", n=n)
        m = np.round(m, 3)
        if case["temp"] == "whole":
            t = np.full(n, 21.0)
        p = ctx.path("t.txt")
        gen.write_tiamo(p, (g, m, t), start=0.75)
        if case["temp"] == "whole":
            s = open(p, encoding="latin-1").read().replace(";21.0;", ";21;")
            open(p, "w", encoding="latin-1").write(s)
        o = {"analyte_volume": 100.0}
        if case["override"] is not None:
            o["temperature_override"] = case["override"]
        ctx.state(case)
        ctx.step()
        sr = files.solve(p, 0.1, 35.0, solve_mode=case["mode"], file_type="tiamo_de", **o)
        return compare(ctx, sr, (g, m, t), 35.0, o, str(case), rt=1e-9)
    cfg = case["cfg"]
    mode = cfg.get("mode", "pH")
    o = opts_of(cfg)
    s = cfg.get("salinity", 35.0)
    n = 24
    g, m, t = gen.titration(mode="emf" if mode == "emf" else "pH", n=n, top=4.4)
    t = temps(cfg.get("temp", "ramp"), n)
    if o.get("titrant_amount_unit", "ml").lower() == "kg":
        g = g / 1000
    p = ctx.path("t.dat")
    gen.write_genfromtxt(p, (g, m, t))
    ctx.state(cfg)
    ctx.step()
    try:
        sr = files.solve(p, 0.1, s, solve_mode=mode, **o)
    except AssertionError:
        # e.g. no points in the window for an odd density: judge the conversion alone
        from calkulate import read_dat

        sr = convert.amount_units(read_dat(p), s, **o)
    return compare(ctx, sr, (g, m, t), s, o, str(cfg))


def compare(ctx, got, dat, s, o, what, rt=1e-12):
    mass, meas, temp, am = ref.convert(*dat, s, o)
    if not np.all(np.isfinite(mass)):
        return 0.0
    ctx.close("titrant_mass", got.titrant_mass, mass, 1e-18, rt, what + " titrant mass")
    ctx.close("temperature", got.temperature, temp, 0, rt, what + " temperature")
    ctx.close("analyte_mass", got.analyte_mass, am, 0, rt, what + " analyte mass")
    if hasattr(got, "measurement"):
        ctx.close("measurement", got.measurement, meas, 0, 0, what + " measurement")
    ctx.validate()
    return float(np.sum(mass)) + am

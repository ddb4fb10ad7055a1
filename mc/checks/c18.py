"""C18: solutions respect the symmetries of a titration."""
import itertools

import numpy as np

from .. import gen, ref, util

PROPERTY = "C18"
BOUNDS = {
    "quick": "4 modes x 4 base titrations x 6 settings; every composition of <=2 of 16 transformations (EMF shifts, joint scaling, normality for molinity, "
             "reordering of pH data, units and densities, temperature override, sample mass for volume); array, file and dataset interfaces in turn, "
             "all three for every single transformation",
    "thorough": "every composition of <=3 transformations",
}
ASSUMES = ["least-squares solutions are compared to 0.001 umol/kg and 0.0003 mV, the solver's own convergence"]
CHUNK = 4

# name -> applicable(state), apply(state)


def _t(name, s):
    """Apply a transformation; None if it does not apply."""
    s = dict(s)
    kind, _, arg = name.partition(":")
    if kind == "shift":
        if s["mode"] != "emf":
            return None
        d = float(arg)
        s["meas"] = s["meas"] + d
        s["emf0_shift"] += d
        if "emf0_init" in s["opts"]:
            s["opts"] = dict(s["opts"], emf0_init=s["opts"]["emf0_init"] + d)
    elif kind == "scale":
        f = float(arg)
        s["amount"] = s["amount"] * f
        for k in ("am", "av"):
            if s[k] is not None:
                s[k] = s[k] * f
    elif kind == "normality":
        f = float(arg)
        s["mol"] = s["mol"] / f
        o = dict(s["opts"])
        o["titrant_normality"] = o.get("titrant_normality", 1) * f
        for k in util.TT:
            if k in o:
                o[k] = o[k] * f
        s["opts"] = o
    elif kind == "order":
        if s["mode"] not in ("pH", "pH_gran"):
            return None
        n = len(s["amount"])
        p = {"reverse": np.arange(n)[::-1], "rotate": np.roll(np.arange(n), 5), "interleave": np.argsort(np.arange(n) % 3, kind="stable")}[arg]
        if s["av"] is not None and s["temp"][p[0]] != s["temp"][0]:
            return None  # the first temperature also sets the sample's density
        for k in ("amount", "meas", "temp"):
            s[k] = s[k][p]
    elif kind == "unit":
        if arg == "ml":
            if s["unit"] == "ml":
                return None
            rho = ref.rho_hcl_nacl()
            s["amount"] = s["amount"] / rho * (1 if s["unit"] == "g" else 1000)
            s["unit"] = "ml"
            s["density"] = None
        elif arg.startswith("density"):
            rho = float(arg[7:])
            g = grams(s)
            s["amount"], s["unit"], s["density"] = g / rho, "ml", rho
        else:
            if s["unit"] == arg:
                return None
            g = grams(s)
            s["amount"] = g if arg == "g" else g / 1000
            s["unit"], s["density"] = arg, None
    elif kind == "override":
        t = s["temp"]
        if np.ptp(t) != 0 or "temperature_override" in s["opts"]:
            return None
        s["opts"] = dict(s["opts"], temperature_override=float(t[0]))
        s["temp"] = np.full(len(t), 3.0) if arg == "blank" else t + np.arange(len(t))
    elif kind == "volume":
        if s["av"] is not None:
            return None
        t0 = s["opts"].get("temperature_override", s["temp"][0])
        s["av"] = s["am"] * 1000 / ref.rho_seawater(float(t0), SAL)
        s["am"] = None
    else:
        raise ValueError(name)
    return s


def grams(s):
    if s["unit"] == "g":
        return s["amount"]
    if s["unit"] == "kg":
        return s["amount"] * 1000
    return s["amount"] * (s["density"] or ref.rho_hcl_nacl())


TRANSFORMS = ["shift:-57.3", "shift:200", "shift:-650", "scale:0.25", "scale:3.2", "normality:2", "normality:0.9", "order:reverse", "order:rotate",
              "order:interleave", "unit:kg", "unit:ml", "unit:density1.05", "override:blank", "override:ramp", "volume"]
SAL = 33.0
MODES = ["emf", "pH_adjust", "pH", "pH_gran"]
BASES = ["flat", "ramp", "small", "strong"]
SETTINGS = {
    "default": {},
    "window": {"pH_min": 3.15, "pH_max": 3.8},
    "single": {"double": False},
    "legacy": {"gran_logic": "legacy", "titrant_normality": 1.02},
    "sulfate": {"titrant_total_sulfate": 0.4, "titrant_total_phosphate": 0.02, "total_phosphate": 15.0},
    "init": {"emf0_init": 611.0, "alkalinity_init": 2250.0},
}


def base(mode, kind, setting):
    o = dict(SETTINGS[setting])
    kw = {"flat": {"temp": "flat"}, "ramp": {"temp": "ramp"}, "small": {"am": 0.03, "top": 1.26, "temp": "zigzag"}, "strong": {"molinity": 0.25, "top": 1.7, "temp": "cold"}}[kind]
    mol = kw.get("molinity", 0.1)
    gm = "emf" if mode == "emf" else "pH"
    a, m, t = gen.titration(salinity=SAL, mode=gm, n=26, opts={k: v for k, v in o.items() if k.startswith(("titrant", "total"))}, which=len(kind), digits=None, **kw)
    if mode == "pH_adjust":
        m = m + 0.03
    if mode != "emf":
        o = {k: v for k, v in o.items() if k != "emf0_init"}
    if mode in ("pH", "pH_gran"):
        o = {k: v for k, v in o.items() if k in ("pH_min", "pH_max", "titrant_normality") or k.startswith(("total", "titrant_total"))}
    return {"mode": mode, "amount": a, "unit": "g", "density": None, "meas": m, "temp": t, "am": kw.get("am", 0.1), "av": None, "mol": mol, "opts": o, "emf0_shift": 0.0}


def cases(tier):
    depth = 2 if tier == "quick" else 3
    out = []
    for mode in MODES:
        for b in BASES:
            for st in SETTINGS:
                if mode in ("pH", "pH_gran") and st in ("single", "init"):
                    continue
                for first in TRANSFORMS:
                    out.append({"mode": mode, "base": b, "setting": st, "first": first, "depth": depth})
    return out


def solve(ctx, s, via, where=None):
    """(alkalinity, emf0, used count)"""
    from calkulate import convert, core, files

    o = dict(s["opts"])
    o["titrant_amount_unit"] = s["unit"]
    if s["density"] is not None:
        o["titrant_density"] = s["density"]
    if s["am"] is not None:
        o["analyte_mass"] = s["am"]
    if s["av"] is not None:
        o["analyte_volume"] = s["av"]
    if via == "core":
        cau = {k: v for k, v in o.items() if k in util.UNITS}
        cv = convert.amount_units(util.DatData(s["amount"], s["meas"], s["temp"]), SAL, **cau)
        totals, ks = core.totals_ks(cv, **{k: v for k, v in o.items() if k in util.CHEM})
        core.add_titrant_totals(totals, cv.titrant_mass, cv.analyte_mass, s["mol"], **{k: v for k, v in o.items() if k in util.TT})
        kw = {k: v for k, v in o.items() if k in util.SOLVER}
        meas = cv.measurement
        if s["mode"] == "pH_adjust":
            meas = convert.pH_to_emf(meas, 0, cv.temperature)
            kw["emf0_init"] = 0
        f = {"emf": core.solve_emf, "pH_adjust": core.solve_emf, "pH": core.solve_pH, "pH_gran": core.solve_pH_gran}[s["mode"]]
        sr = f(s["mol"], cv.titrant_mass, meas, cv.temperature, cv.analyte_mass, totals, ks, **kw)
        return float(sr.alkalinity), float(getattr(sr, "emf0", np.nan)), int(np.sum(sr.used))
    d = where
    gen.put(d, "t.dat", (s["amount"], s["meas"], s["temp"]))
    o["solve_mode"] = s["mode"]
    if via == "file":
        sr = files.solve("t.dat", s["mol"], SAL, file_path=d, **o)
        return float(sr.alkalinity), float(getattr(sr, "emf0", np.nan)), int(np.sum(sr.used))
    ds = util.frame([dict(o, file_name="t.dat", file_path=d, salinity=SAL, titrant_molinity=s["mol"])])
    ds.solve()
    return float(ds.alkalinity.iloc[0]), float(ds.emf0.iloc[0]), int(ds.alkalinity_npts.iloc[0])


def model(s):
    o = dict(s["opts"], titrant_amount_unit=s["unit"], solve_mode=s["mode"])
    for k, n in (("density", "titrant_density"), ("am", "analyte_mass"), ("av", "analyte_volume")):
        if s[k] is not None:
            o[n] = s[k]
    return ref.solve((s["amount"], s["meas"], s["temp"]), s["mol"], SAL, o)


def run(case, ctx):
    b = base(case["mode"], case["base"], case["setting"])
    d = ctx.dir()
    want = solve(ctx, b, "core")
    words = [[case["first"]]]
    for n in range(1, case["depth"]):
        words += [[case["first"]] + list(w) for w in itertools.product(TRANSFORMS, repeat=n)]
    out = []
    ls = case["mode"] in ("emf", "pH_adjust")
    atol, etol = (0.001, 0.0003) if ls else (1e-6, 0)
    for i, word in enumerate(words):
        s = b
        for name in word:
            s = _t(name, s)
            if s is None:
                break
        if s is None:
            continue
        ctx.state([case["mode"], case["base"], case["setting"], word])
        vias = ["core", "file", "dataset"] if len(word) == 1 else [["core", "file", "core", "dataset"][i % 4]]
        for via in vias:
            got = solve(ctx, s, via, d)
            ctx.step(len(word))
            ctx.validate()
            what = f"{case['mode']} {case['base']} {case['setting']} after {' and '.join(word)} ({via})"
            if got[2] != want[2] and s["emf0_shift"] and np.ptp(b["temp"]) > 0 and "emf0_init" not in s["opts"]:
                # where temperature varies, a shift bends the Gran line and thus moves the
                # starting EMF0: another point may fall into the window, as in the model
                m = model(s)
                if m is not None and m.used.sum() == got[2]:
                    ctx.close("alkalinity, other window", got[0], m.alkalinity, 0.01, 0, what)
                    continue
            ctx.close("alkalinity " + case["mode"], got[0], want[0], atol, 0, what)
            if ls:
                ctx.close("EMF0", got[1], want[1] + s["emf0_shift"], etol, 0, what)
            ctx.check(got[2] == want[2], "points", f"{what}: {got[2]} points used instead of {want[2]}")
        out.append(round(got[0], 3))
    return [case["first"], out[:1]]

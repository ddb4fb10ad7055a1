"""C13: totals and constants through the titration are right."""
import numpy as np

from .. import framework as fw
from .. import gen, ref

PROPERTY = "C13"
BOUNDS = {
    "quick": "every configuration with <=2 deviations from the default over 36 axes (10 totals, 14 constants, 5 PyCO2SYS "
             "options, salinity, temperature pattern, dilution flag, sample mass, titrant additions), compared point by point at "
             "array level; <=1 deviation through files in 4 modes and through datasets (estimated salt columns); the sulfuric-acid dilution helpers x 3 sample sizes x 3 strengths x 3 salinities x every single total",
    "thorough": "<=3 deviations at array level, <=2 through files and datasets",
}
ASSUMES = ["PyCO2SYS (a dependency) is the authority on salt contents and equilibrium constants, through its public sys function"]
CHUNK = 200

AXES = {
    "dic": [None, 0.0, 2100.0],
    "total_alpha": [None, 0.0, 31.0],
    "total_beta": [None, 47.0],
    "total_ammonia": [None, 0.0, 13.0],
    "total_phosphate": [None, 0.0, 29.0],
    "total_silicate": [None, 110.0],
    "total_sulfide": [None, 23.0],
    "total_borate": [None, 0.0, 300.0],
    "total_fluoride": [None, 0.0, 90.0],
    "total_sulfate": [None, 0.0, 21000.0],
    "opt_k_carbonic": [None, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18],
    "opt_k_bisulfate": [None, 1, 2, 3],
    "opt_k_fluoride": [None, 1, 2],
    "opt_total_borate": [None, 1, 2, 3],
    "salinity": [35.0, 33.2, 5.0, 40, 0.4],
    "temp": ["ramp", "flat", "cold", "zigzag"],
    "dilute_totals_for_ks": [None, True, False],
    "am": [0.1, 0.02, 0.35],
    "titrant_total_sulfate": [None, 1.0, 0.3, 0.0],
    "titrant_total_phosphate": [None, 0.02],
    "titrant_total_fluoride": [None, 0.05],
}
K0 = {
    "k_alpha": 10**-4.1, "k_ammonia": 5e-10, "k_beta": 10**-6.6, "k_bisulfate": 0.12, "k_borate": 2.1e-9,
    "k_carbonic_1": 1.3e-6, "k_carbonic_2": 9e-10, "k_fluoride": 0.0021, "k_phosphoric_1": 0.02,
    "k_phosphoric_2": 9e-7, "k_phosphoric_3": 1.1e-9, "k_silicate": 3e-10, "k_sulfide": 2e-7, "k_water": 5e-14,
}
for _k, _v in K0.items():
    AXES[_k] = [None, _v]


SCALED = dict(AXES, opt_pH_scale=[3, 1, 2])


def cases(tier):
    th = tier == "thorough"
    out = [{"kind": "array", "cfg": c} for c in fw.deviations(SCALED, 3 if th else 2)
           if not ("k_fluoride" in c and c.get("opt_pH_scale") == 1)]
    for am in (0.02, 0.1, 0.35):
        for mol in (0.0, 0.05, 0.3):
            for sal in (35.0, 3.0, 0.0):
                for c in fw.deviations({k: AXES[k] for k in ref.TOTALS}, 2 if th else 1):
                    out.append({"kind": "h2so4", "am": am, "mol": mol, "sal": sal, "cfg": c})
    for c in fw.deviations(AXES, 2 if th else 1):
        for mode in ("emf", "pH") if th else ("emf", "pH", "pH_adjust", "pH_gran"):
            out.append({"kind": "file", "mode": mode, "cfg": c})
    for c in fw.deviations({k: AXES[k] for k in (
            "salinity", "opt_k_carbonic", "opt_total_borate", "total_borate", "total_fluoride", "total_sulfate")},
            3 if th else 2):
        for place in ("column", "kwarg"):
            out.append({"kind": "dataset", "place": place, "cfg": c})
    return out


def split(cfg):
    o = {k: v for k, v in cfg.items() if k not in ("salinity", "temp", "am")}
    return o, cfg.get("salinity", 35.0), cfg.get("temp", "ramp"), cfg.get("am", 0.1)


def compare(ctx, totals, ks, want_t, want_k, n, what):
    for k in ref.TOTALS:
        g = np.broadcast_to(np.asarray(totals.get(k, 0.0), float), (n,))
        ctx.close("total " + k, g, np.broadcast_to(want_t[k], (n,)), 1e-18, 1e-10, f"{what} {k}")
    for k in totals:
        ctx.check(k in ref.TOTALS, "extra-total", f"{what}: unexpected total {k}")
    for k in ref.KS:
        if k in ("k_alpha", "k_beta") and k not in ks:
            continue
        ctx.check(k in ks, "missing-k", f"{what}: {k} is missing")
        if k in ks:
            g = np.broadcast_to(np.asarray(ks[k], float), (n,))
            ctx.close("constant " + k, g, want_k[k], 0, 1e-9, f"{what} {k}")
    ctx.validate()


def run(case, ctx):
    from calkulate import core, convert, files

    o, sal, temp, am = split(case["cfg"])
    tt = {k: v for k, v in o.items() if k.startswith("titrant_total_")}
    oo = {k: v for k, v in o.items() if k not in tt}
    kind = case["kind"]
    mol = 0.12
    ctx.state(case)
    ctx.step(2)
    if kind == "array":
        n = 7
        mass = np.linspace(0, 4.2e-3, n)
        t = gen.temps(temp, n)
        cv = convert.Converted(mass, np.linspace(8, 3, n), t, am, sal)
        totals, ks = core.totals_ks(cv, **oo)
        wt, wk = ref.totals_ks(mass, t, am, sal, oo)
        compare(ctx, totals, ks, wt, wk, n, str(case["cfg"]))
        for k in ("k_alpha", "k_beta"):
            if k in oo and k in ks:
                ctx.close("constant " + k, np.broadcast_to(ks[k], (n,)), np.full(n, oo[k]), 0, 1e-12, k)
        if tt:
            got = core.add_titrant_totals(totals, mass, am, mol, **tt)
            want = ref.add_titrant(wt, mass, am, mol, tt)
            compare(ctx, got, ks, want, wk, n, f"{case['cfg']} with titrant")
        return float(sum(np.sum(v) for v in wt.values()))
    if kind == "h2so4":
        return h2so4(case, ctx)
    if kind == "file":
        mode = case["mode"]
        o2 = dict(o)
        dat = gen.titration(alk=2300.0, molinity=0.1, am=0.1, mode="emf" if mode == "emf" else "pH", n=24, top=4.4)
        t = gen.temps(temp, 24)
        p = ctx.path("t.dat")
        gen.write_genfromtxt(p, (dat[0], dat[1], t))
        scale = am / 0.1
        try:
            sr = files.solve(p, 0.1 * scale, sal, solve_mode=mode, analyte_mass=am, titrant_amount_unit="g", **o2)
        except AssertionError as e:
            return "no solution"
        mass = dat[0] / 1000
        wt, wk = ref.totals_ks(mass, t, am, sal, oo)
        want = ref.add_titrant(wt, mass, am, 0.1 * scale, tt)
        compare(ctx, sr.totals, sr.k_constants, want, wk, 24, str(case))
        return "ok"
    # dataset: estimated salts appear as columns next to given ones
    import calkulate as calk

    dat = gen.titration(mode="pH", n=24, top=4.4)
    d = ctx.dir()
    gen.put(d, "a.dat", dat)
    gen.put(d, "b.dat", dat)
    cfg = case["cfg"]
    ds = calk.Dataset({"file_name": ["a.dat", "b.dat"], "file_path": [d + "/"] * 2, "analyte_mass": 0.1,
                       "titrant_amount_unit": "g", "solve_mode": "pH", "titrant_molinity": 0.1,
                       "salinity": [sal, 31.0]})
    kw = {}
    rows = [dict(oo), {}]
    if case["place"] == "kwarg":
        kw = dict(oo)
        rows = [dict(oo), dict(oo)]
    else:
        for k, v in oo.items():
            ds[k] = [v, np.nan]
    got = calk.solve(ds, **kw)
    for i in range(2):
        s = [sal, 31.0][i]
        wt = ref.base_totals(s, rows[i])
        for k in ("total_borate", "total_fluoride", "total_sulfate"):
            if k in kw:
                continue  # from the call: whether it becomes a column is not specified
            ctx.close("salt column", got[k].iloc[i], wt[k] * 1e6, 1e-9, 1e-10, f"{case} row {i} {k}")
        sr = ref.solve(dat, 0.1, s, dict(rows[i], analyte_mass=0.1, titrant_amount_unit="g", solve_mode="pH"))
        ctx.close("dataset alkalinity", got.alkalinity.iloc[i], sr.alkalinity, 1e-5, 0, f"{case} row {i}")
        ctx.validate()
    return got.alkalinity.tolist()


def h2so4(case, ctx):
    """The helpers for sulfuric acid titrants agree with dilution plus one sulfate per acid."""
    from calkulate import convert, interface

    mass = np.linspace(0, 4.2e-3, 6)
    am, mol, sal = case["am"], case["mol"], case["sal"]
    totals, tp = interface.get_totals(sal, **case["cfg"])
    wt = {k: v * am / (am + mass) for k, v in ref.base_totals(sal, case["cfg"]).items()}
    want = ref.add_titrant(wt, mass, am, mol, {"titrant_total_sulfate": 1})
    got = convert.dilute_totals_H2SO4(dict(totals), mol, mass, am)
    ctx.step(3)
    for k in ref.TOTALS:
        g = np.broadcast_to(np.asarray(got.get(k, 0.0), float), mass.shape)
        ctx.close("H2SO4 " + k, g, np.broadcast_to(want[k], mass.shape), 1e-18, 1e-10, f"{case} {k}")
    plain = convert.dilute_totals(dict(totals), mass, am)
    back = convert.totals_to_pyco2(got, sal)
    gp = convert.dilute_totals_pyco2_H2SO4(dict(tp), mol, mass, am)
    gd = convert.dilute_totals_pyco2(dict(tp), mass, am)
    ctx.check(back["Sal"] == sal, "Sal", f"{case}: salinity became {back['Sal']!r}")
    for p, k in (("TB", "total_borate"), ("TF", "total_fluoride"), ("TSO4", "total_sulfate"), ("TPO4", "total_phosphate"),
                 ("TSi", "total_silicate"), ("TNH3", "total_ammonia"), ("TH2S", "total_sulfide")):
        w = np.broadcast_to(want[k], mass.shape)
        w0 = np.broadcast_to(wt[k], mass.shape)
        ctx.close("pyco2 " + k, np.broadcast_to(gp[p], mass.shape), w, 1e-18, 1e-10, f"{case} {p} with sulfuric acid")
        ctx.close("pyco2 diluted " + k, np.broadcast_to(gd[p], mass.shape), w0, 1e-18, 1e-10, f"{case} {p} diluted")
        ctx.close("renamed " + k, np.broadcast_to(back[p], mass.shape), w, 1e-18, 1e-10, f"{case} {p} renamed")
        ctx.close("diluted " + k, np.broadcast_to(plain.get(k, 0.0), mass.shape), w0, 1e-18, 1e-10, f"{case} {k} diluted")
    ctx.validate(4)
    return float(np.sum(want["total_sulfate"]))

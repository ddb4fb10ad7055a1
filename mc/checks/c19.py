"""C19: DIC-loss modelling conserves DIC and recovers its coefficient."""
import numpy as np

from .. import ref

PROPERTY = "C19"
BOUNDS = {
    "quick": "full product of the loss model's recurrences: 6 coefficients x 4 steps x 3 sample sizes x 4 fCO2 patterns x 4 DIC x 5 lengths; forecasts x 3 pH patterns x 3 fCO2 of air; "
             "fits: 7 coefficients x 3 fCO2 curves x 4 split pH x 3 sample sizes x 3 fCO2 of air x 2 spacings, and with one point exactly at the split, with unknown values beyond it, uneven additions, or constants that vary; "
             "simulator: every <=2 changes over 5 coefficients, 3 fCO2 of air, 3 DIC, 2 samples, 2 steps, 3 conditions, 2 starts",
    "thorough": "more coefficients and lengths in the fits; the full product for the simulator, with a third step",
}
ASSUMES = ["titrations for the loss model start without titrant and are long enough to have points on both sides of the split",
           "dic_loss and fCO2_loss are in umol/kg and uatm, dic_start in mol/kg, as in the code",
           "data for the fit are the model curve sampled at the titration points, so the coefficient is recovered to the interpolation error (2 %)"]
CHUNK = 30


def cases(tier):
    from ..framework import deviations, product

    t = tier == "thorough"
    out = []
    for k in (0.0, 0.3, 2.0, 11.0, -1.0, 50.0):
        for step in (1e-6, 1.5e-5, 2e-4, 1e-3):
            for am in (0.1, 0.02, 0.25):
                for pat in ("zero", "rise", "zigzag", "negative"):
                    out.append({"part": "recurrence", "k": k, "step": step, "am": am, "fco2": pat})
    for k in (0.0, 0.5, 2.0, 5.0, 12.0, 0.05, 25.0) + ((1.0, 3.0, 40.0) if t else ()):
        for curve in ("linear", "flat", "bent"):
            for split in (5.5, 4.5, 6.2, 5.0):
                for am in (0.1, 0.03, 0.2):
                    for air in (450.0, 0.0, 800.0):
                        for n in (21, 28) if not t else (15, 21, 28, 41):
                            out.append({"part": "fit", "k": k, "curve": curve, "split": split, "am": am, "air": air, "n": n})
                        if air == 450.0:
                            for how in ("nan", "uneven", "warm"):
                                out.append({"part": "fit", "k": k, "curve": curve, "split": split, "am": am, "air": air, "n": 28, how: True})
                            # a point measured exactly at the split belongs to the fit
                            out.append({"part": "fit", "k": k, "curve": curve, "split": split, "am": am, "air": air, "n": 21, "on": True})
    axes = {"k": [2.0, None, 0, 0.5, 5.0], "air": [450, 0, 900], "dic": [2000, 0, 800], "am": [0.1, 0.05], "step": [0.6e-3, 0.3e-3],
            "cond": ["plain", "cold", "ramp"], "start": [0, 0.5e-3]}
    base = {a: v[0] for a, v in axes.items()}
    if t:
        axes["step"].append(0.15e-3)
        out += [{"part": "simulate", **c} for c in product(**axes)]
    else:
        out += [{"part": "simulate", **base, **d} for d in deviations(axes, 2)]
    return out


def run(case, ctx):
    ctx.state(case)
    return {"recurrence": recurrence, "fit": fit, "simulate": simulate}[case["part"]](case, ctx)


def pattern(kind, n):
    i = np.arange(n)
    return {"zero": np.zeros(n), "rise": 100.0 + 900 * i, "zigzag": 500.0 + 400 * (-1.0) ** i * i, "negative": -300.0 + 10.0 * i}[kind]


def co2(dic, ph, k0, k1, k2):
    h = 10.0 ** -ph
    return dic * h * h / (h * h + k1 * h + k1 * k2) / k0


def recurrence(case, ctx):
    from calkulate import loss

    k, step, am = case["k"], case["step"], case["am"]
    out = []
    for n in (1, 2, 3, 9, 40):
        d = pattern(case["fco2"], n)
        for dic in (0.0, 1e-6, 800e-6, 2300e-6):
            for start in (0.0, 1.3e-3):
                mass = start + step * np.arange(n)
                got = loss.dic_loss_model_fitted(k, mass, d, dic, am, step)
                ctx.step()
                ctx.validate()
                want = np.empty(n)
                want[0] = dic * 1e6
                for i in range(n - 1):
                    want[i + 1] = want[i] * (am + mass[i]) / (am + mass[i] + step) - k * d[i] * step
                what = f"{case} n={n} dic={dic} start={start}"
                ctx.close("fitted recurrence", got, want, 1e-9, 1e-11, what)
                if k == 0:
                    ctx.close("pure dilution", got, dic * 1e6 * (am + start) / (am + mass), 1e-9, 1e-11, what)
                if case["fco2"] == "zero" or k == 0:
                    ctx.check(np.all(np.diff(got) <= 1e-12), "gain", f"{what}: DIC grows without exchange")
                if n < 2 or dic == 0:
                    continue
                # forecast
                for ph0 in (5.4, 4.0, 7.5):
                    for air in (450.0, 0.0, 2000.0):
                        ph = np.linspace(ph0, ph0 - 1, n)
                        k0, k1, k2 = np.linspace(0.03, 0.035, n), np.linspace(1e-6, 1.2e-6, n), np.linspace(8e-10, 9e-10, n)
                        f = mass + step
                        delta0 = 700.0
                        fd, fdel = loss.dic_loss_model_future(k, f, ph, k0, k1, k2, delta0, dic * 1e6, ph0 + 0.1, 0.03, 1e-6, 8e-10, am, step, fCO2_air=air)
                        ctx.step()
                        ctx.validate()
                        what2 = f"{what} pH {ph0} air {air}"
                        first = dic * 1e6 * (am + f[0] - step) / (am + f[0]) - k * delta0 * step
                        ctx.close("forecast start", fd[0], first, 1e-9, 1e-10, what2)
                        want = fd[:-1] * (am + f[:-1]) / (am + f[:-1] + step) - k * fdel[:-1] * step
                        ctx.close("forecast recurrence", fd[1:], want, 1e-9, 1e-9, what2)
                        ctx.close("forecast fCO2", fdel[1:], co2(fd[1:], ph[1:], k0[1:], k1[1:], k2[1:]) - air, 1e-6, 1e-9, what2)
                        if k == 0:
                            ctx.close("forecast dilution", fd, dic * 1e6 * (am + f[0] - step) / (am + f), 1e-9, 1e-10, what2)
        out.append(round(float(got[-1]), 6))
    return out


def fit(case, ctx):
    from calkulate import loss

    n, am, air, split, k = case["n"], case["am"], case["air"], case["split"], case["k"]
    mass = np.linspace(0, 4.2e-3 * am / 0.1, n)
    if case.get("uneven"):  # a few smaller and larger additions
        d = np.ones(n - 1)
        d[3::5] = 0.5
        d[5::7] = 2.0
        mass = np.concatenate(([0.0], np.cumsum(d))) * (4.2e-3 * am / 0.1 / d.sum())
    x = mass / mass[-1]
    ph = 7.9 - 5.0 * x**1.2
    if case.get("on"):
        ph[np.argmin(np.abs(ph - split))] = split
    fco2 = {"linear": air + 200 + 9000 * x, "flat": air + np.full(n, 3000.0), "bent": air + 300 + 6000 * x**1.5}[case["curve"]]
    dic_start = 2000e-6
    step = np.median(np.diff(mass)) / 10
    grid = np.arange(0, mass[-1] + step / 2, step)
    # fine curve from the model with the CO2 of the curve above
    xf = grid / mass[-1]
    dfine = {"linear": 200 + 9000 * xf, "flat": np.full(len(xf), 3000.0), "bent": 300 + 6000 * xf**1.5}[case["curve"]]
    scale = 0.1 / am  # keep the loss at the same relative size
    kk = k * scale
    dic = np.empty(len(grid))
    dic[0] = dic_start * 1e6
    for i in range(len(grid) - 1):
        dic[i + 1] = dic[i] * (am + grid[i]) / (am + grid[i] + step) - kk * dfine[i] * step
    at = np.round(mass / step).astype(int)
    data = dic[at]
    k0, k1, k2 = np.full(n, 0.03), np.full(n, 1.1e-6), np.full(n, 8e-10)
    if case.get("warm"):  # the constants change with the temperature
        k0, k1, k2 = 0.031 - 0.004 * x, 1.0e-6 + 3e-7 * x, 8e-10 + 2e-10 * x
    args = [mass, ph, data, fco2, k0, k1, k2]
    keep = [a.copy() for a in args]
    got, hi = loss.get_dic_loss_hires(*args, am, dic_start, fCO2_air=air, split_pH=split)
    ctx.step(2)
    ctx.validate()
    what = str(case)
    ctx.close("coefficient", got, kk, 0.02 * scale, 0.02, what)
    m, d, p, dd = hi["titrant_mass"], hi["dic"], hi["pH"], hi["delta_fCO2"]
    ctx.close("curve start", d[0], dic_start * 1e6, 1e-9, 0, what)
    s = m[1] - m[0]
    ctx.close("curve step", s, step, 0, 1e-9, what)
    ctx.check(len(m) == len(d) == len(p) == len(dd), "curve", f"{what}: lengths {len(m)}, {len(d)}, {len(p)}, {len(dd)}")
    ctx.close("curve recurrence", d[1:], d[:-1] * (am + m[:-1]) / (am + m[:-1] + s) - got * dd[:-1] * s, 1e-7, 1e-9, what)
    fitted = p >= split
    ctx.close("curve CO2 before the split", dd[fitted], np.interp(m[fitted], mass, fco2) - air, 60, 0.02, what)
    late = np.flatnonzero(~fitted)[1:]  # the first forecast step starts from the last fitted pH
    ctx.close("curve CO2 after the split", dd[late], co2(d[late], p[late], *(np.interp(m[late], mass, v) for v in (k0, k1, k2))) - air, 1e-5, 1e-8, what)
    ctx.close("curve pH", p, np.interp(m, mass, ph), 0.06 if case.get("on") else 0.02, 0, what)
    k_again, dic_at, fco2_at, flag = loss.get_dic_loss(*args, am, dic_start, fCO2_air=air, split_pH=split)
    ctx.close("coefficient again", k_again, got, 0, 1e-9, what)
    ctx.check([bool(b) for b in flag] == [bool(b) for b in ph >= split], "flag", f"{what}: fitted flags {flag}")
    inner = mass <= m[-1]
    j = np.clip(np.round(mass[inner] / s).astype(int), 0, len(m) - 1)
    ctx.close("points DIC", dic_at[inner] * 1e6, d[j], 1e-5, 1e-7, what)
    ctx.close("points CO2", fco2_at[inner], dd[j] + air, 1e-3, 1e-6, what)
    ctx.check(len(dic_at) == n and len(fco2_at) == n, "points", f"{what}: {len(dic_at)} values for {n} points")
    if case.get("nan"):
        # what is unknown well beyond the split does not matter
        for gap in (3, 4, 6):
            first = np.flatnonzero(ph < split)[0] + gap
            for which in ((2,), (3,), (2, 3)):
                a = [v.copy() for v in args]
                for w in which:
                    a[w][first:] = np.nan
                    if w == 3:  # unknown CO2 counts as the largest known, so let it stay below
                        a[w][first - 1] = max(a[w][first - 1], np.nanmax(a[w]))
                b = [v.copy() for v in args]
                b[3][first - 1] = a[3][first - 1]
                g1, h1 = loss.get_dic_loss_hires(*a, am, dic_start, fCO2_air=air, split_pH=split)
                g2, h2 = loss.get_dic_loss_hires(*b, am, dic_start, fCO2_air=air, split_pH=split)
                ctx.step(2)
                ctx.close("unknown", g1, g2, 1e-9, 1e-6, f"{what}: coefficient with unknown values from point {first}, arrays {which}")
                for key in ("dic", "delta_fCO2"):
                    ctx.close("unknown curve", h1[key], h2[key], 1e-3, 1e-5, f"{what}: {key} with unknown values from point {first}, arrays {which}")
    if k == 0:
        ctx.close("no loss", dic_at[inner] * 1e6, dic_start * 1e6 * am / (am + mass[inner]), 0.5, 0, what)
    for a, b in zip(args, keep):
        ctx.check(np.array_equal(a, b), "inputs", f"{what}: inputs changed")
    return round(float(got), 6)


def simulate(case, ctx):
    from calkulate import simulate as sim

    kw = {"titrant_mass_start": case["start"], "titrant_mass_step": case["step"], "titrant_mass_stop": 4.2e-3 * case["am"] / 0.1,
          "analyte_mass": case["am"], "dic": case["dic"], "emf0": 600.0, "fCO2_air": case["air"]}
    if case["start"]:
        kw["titrant_mass_start"] = case["start"] * case["am"] / 0.1
    if case["k"] is not None:
        kw["k_dic_loss"] = case["k"] * 0.1 / case["am"]
    n = len(np.arange(kw["titrant_mass_start"], kw["titrant_mass_stop"], kw["titrant_mass_step"]))
    if case["cond"] == "cold":
        kw.update(temperature=8.0, salinity=31.0, total_phosphate=10.0, opt_k_carbonic=4)
    elif case["cond"] == "ramp":
        kw.update(temperature=np.linspace(20, 23, n), total_silicate=50.0)
    mass, emf, temp, am, totals, ks = sim._titration(2300.0, **kw)
    ctx.step()
    ctx.validate()
    what = str(case)
    ph = ref.ph_from_emf(emf, 600.0, temp)
    dic = np.broadcast_to(np.asarray(totals["dic"], float), mass.shape) * 1e6
    ctx.check(am == case["am"] and len(mass) == n, "shape", f"{what}: sample {am}, {len(mass)} points")
    ctx.close("start", dic[0], case["dic"] * am / (am + mass[0]), 1e-9, 1e-9, what)
    if not case["k"]:
        ctx.close("pure dilution", dic, case["dic"] * am / (am + mass), 1e-9, 1e-9, what)
    else:
        f = co2(dic, ph, ks["k_CO2"], ks["k_carbonic_1"], ks["k_carbonic_2"])
        want = dic[:-1] * (am + mass[:-1]) / (am + mass[1:]) - kw["k_dic_loss"] * (f[:-1] - case["air"]) * case["step"]
        ctx.close("loss", dic[1:], want, 1e-5, 1e-6, what)
    # the EMF follows from what is left
    target = (am * 2300e-6 - mass * 0.1) / (am + mass)
    t = {k: np.broadcast_to(np.asarray(v, float), mass.shape) for k, v in totals.items()}
    k = {x: np.broadcast_to(np.asarray(v, float), mass.shape) for x, v in ks.items()}
    ctx.close("alkalinity", ref.alk(ph, t, k) * 1e6, target * 1e6, 1e-3, 0, what)
    return [round(float(x), 4) for x in (dic[-1], emf[-1])]

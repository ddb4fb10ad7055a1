"""Independent reference model of what calkulate promises.

Written from the documentation and the literature formulas, sharing no code with
the package.  PyCO2SYS (a dependency, not the code under test) is used through its
public `sys` function as the authority on salt contents and equilibrium constants.
"""

import math
from types import SimpleNamespace

import numpy as np
import PyCO2SYS as pyco2

F = 96.4853365  # kC/mol
R = 8.3144621  # J/K/mol
T0 = 273.15

TOTALS = (
    "dic total_alpha total_beta total_ammonia total_phosphate total_silicate "
    "total_sulfide total_borate total_fluoride total_sulfate"
).split()
KS = (
    "k_alpha k_ammonia k_beta k_bisulfate k_borate k_carbonic_1 k_carbonic_2 "
    "k_fluoride k_phosphoric_1 k_phosphoric_2 k_phosphoric_3 k_silicate "
    "k_sulfide k_water"
).split()
NUTRIENTS = ("total_ammonia", "total_phosphate", "total_silicate", "total_sulfide")
OPTS = {
    "opt_k_bisulfate": 1,
    "opt_k_carbonic": 10,
    "opt_k_fluoride": 1,
    "opt_total_borate": 1,
}


# ---------------------------------------------------------------- densities
def rho_seawater(t, s):
    """Millero & Poisson (1981) one-atmosphere equation of state, kg/l."""
    a = [999.842594, 6.793952e-2, -9.095290e-3, 1.001685e-4, -1.120083e-6, 6.536336e-9]
    b = [8.24493e-1, -4.0899e-3, 7.6438e-5, -8.2467e-7, 5.3875e-9]
    c = [-5.72466e-3, 1.0227e-4, -1.6546e-6]
    d = 4.8314e-4
    poly = lambda p: sum(x * t**i for i, x in enumerate(p))
    return (poly(a) + poly(b) * s + poly(c) * s * math.sqrt(s) + d * s * s) / 1000


def rho_hcl_nacl(hcl=0.1, nacl=0.6):
    """Dickson, Sabine & Christian (2007) SOP 5, eqs. 13-17, g/ml at 25 C."""
    tot = hcl + nacl
    if tot == 0:
        return float("nan")
    phi_h = 17.854 + 1.460 * math.sqrt(tot) - 0.307 * tot
    phi_n = 16.613 + 1.811 * math.sqrt(tot) + 0.094 * tot
    m = hcl * 36.46 + nacl * 58.44
    phi = hcl * phi_h + nacl * phi_n
    return 0.99704 * (1000 + m) / (1000 + phi * 0.99704)


def rho_h2so4(m):
    return 0.99750018 + 0.06181819 * m - 0.00285491 * m * m


# --------------------------------------------------------------- conversions
def h_from_emf(emf, emf0, t):
    return np.exp((np.asarray(emf, float) - emf0) * F / (R * (np.asarray(t, float) + T0)))


def ph_from_emf(emf, emf0, t):
    return -(np.asarray(emf, float) - emf0) * F / (
        R * (np.asarray(t, float) + T0) * math.log(10)
    )


def emf_from_ph(ph, emf0, t):
    return emf0 - np.asarray(ph, float) * math.log(10) * R * (np.asarray(t, float) + T0) / F


def given(x):
    return x is not None and not (isinstance(x, float) and math.isnan(x))


def convert(amount, measurement, temperature, salinity, opts):
    """Titrant mass, measurement, temperature (arrays) and analyte mass."""
    amount = np.asarray(amount, float)
    temperature = np.asarray(temperature, float)
    o = opts
    if given(o.get("temperature_override")):
        temperature = np.full(temperature.shape, float(o["temperature_override"]))
    unit = o.get("titrant_amount_unit", "ml").lower()
    if unit == "kg":
        mass = amount
    elif unit == "g":
        mass = amount / 1000
    elif unit == "ml":
        if given(o.get("titrant_density")):
            rho = o["titrant_density"]
        else:
            kind = o.get("titrant", "HCl").upper()
            if kind == "H2SO4":
                rho = rho_h2so4(o.get("molinity_H2SO4", 0.1))
            elif kind == "HCL":
                rho = rho_hcl_nacl(o.get("molinity_HCl", 0.1), o.get("molinity_NaCl", 0.6))
            else:
                raise ValueError("titrant")
        mass = amount * rho / 1000
    else:
        raise ValueError("unit")
    if given(o.get("analyte_mass")):
        am = float(o["analyte_mass"])
    elif given(o.get("analyte_volume")):
        am = o["analyte_volume"] * rho_seawater(float(temperature[0]), salinity) / 1000
    else:
        raise ValueError("no analyte size")
    return mass, np.asarray(measurement, float), temperature, am


# ---------------------------------------------------------- totals, constants
_cache = {}


def _sys(key, **kw):
    k = (key, tuple(sorted((n, np.asarray(v, float).tobytes()) for n, v in kw.items())))
    if k not in _cache:
        if len(_cache) > 400:
            _cache.clear()
        _cache[k] = pyco2.sys(**kw)
    return _cache[k]


def base_totals(salinity, o):
    """Undiluted totals in mol/kg; absent zero-default totals are zero."""
    opt = {k: o.get(k, d) for k, d in OPTS.items()}
    est = _sys(
        "tot",
        salinity=float(salinity),
        opt_k_carbonic=opt["opt_k_carbonic"],
        opt_total_borate=opt["opt_total_borate"],
    )
    t = {}
    for k in TOTALS:
        if k in NUTRIENTS and opt["opt_k_carbonic"] in (6, 8):
            t[k] = 0.0  # PyCO2SYS: GEOSECS and pure-water definitions omit them
        elif given(o.get(k)):
            t[k] = o[k] * 1e-6
        elif k in ("total_borate", "total_fluoride", "total_sulfate"):
            t[k] = float(est[k]) * 1e-6
        else:
            t[k] = 0.0
    return t


def totals_ks(mass, temperature, am, salinity, o):
    """Diluted totals and constants at every point (arrays)."""
    t0 = base_totals(salinity, o)
    dil = am / (am + mass)
    totals = {k: v * dil for k, v in t0.items()}
    kw = {k: o.get(k, d) for k, d in OPTS.items()}
    for k in KS:
        if given(o.get(k)):
            kw[k] = o[k]
    pt = totals if o.get("dilute_totals_for_ks") else t0
    for k in TOTALS:
        if k.startswith("total_") and k not in ("total_alpha", "total_beta"):
            kw[k] = np.asarray(pt[k]) * 1e6
    r = _sys(
        "ks",
        salinity=float(salinity),
        temperature=np.asarray(temperature, float),
        opt_pH_scale=o.get("opt_pH_scale", 3),
        **kw,
    )
    ks = {k: np.broadcast_to(np.asarray(r[k], float), mass.shape).copy() for k in KS}
    if o.get("opt_pH_scale", 3) == 1:
        # PyCO2SYS leaves KF on the free scale; total = free x (1 + TSO4/KSO4)
        ks["k_fluoride"] = ks["k_fluoride"] * (1 + np.asarray(pt["total_sulfate"]) / ks["k_bisulfate"])
    return totals, ks


def add_titrant(totals, mass, am, molinity, o):
    out = dict(totals)
    for salt in ("sulfate", "phosphate", "fluoride"):
        f = o.get("titrant_total_" + salt)
        if given(f):
            out["total_" + salt] = out.get("total_" + salt, 0.0) + (
                mass * molinity * f / (mass + am)
            )
    return out


# ------------------------------------------------------------------ chemistry
def species(ph, t, k):
    """Every species, dict of arrays in mol/kg, free scale."""
    h = 10.0 ** (-np.asarray(ph, float))
    z = lambda name: t.get(name, 0.0)
    s = {"H": h, "OH": k["k_water"] / h}
    k1, k2 = k["k_carbonic_1"], k["k_carbonic_2"]
    d = h * h + k1 * h + k1 * k2
    s["CO2"] = z("dic") * h * h / d
    s["HCO3"] = z("dic") * k1 * h / d
    s["CO3"] = z("dic") * k1 * k2 / d
    p1, p2, p3 = k["k_phosphoric_1"], k["k_phosphoric_2"], k["k_phosphoric_3"]
    d = h**3 + p1 * h**2 + p1 * p2 * h + p1 * p2 * p3
    s["H3PO4"] = z("total_phosphate") * h**3 / d
    s["H2PO4"] = z("total_phosphate") * p1 * h**2 / d
    s["HPO4"] = z("total_phosphate") * p1 * p2 * h / d
    s["PO4"] = z("total_phosphate") * p1 * p2 * p3 / d
    with np.errstate(all="ignore"):
        for name, total, kk in (
            ("BOH4", "total_borate", "k_borate"),
            ("H3SiO4", "total_silicate", "k_silicate"),
            ("NH3", "total_ammonia", "k_ammonia"),
            ("HS", "total_sulfide", "k_sulfide"),
        ):
            s[name] = z(total) * k[kk] / (k[kk] + h)
        s["HSO4"] = z("total_sulfate") * h / (h + k["k_bisulfate"])
        s["HF"] = z("total_fluoride") * h / (h + k["k_fluoride"])
        for g in ("alpha", "beta"):
            tot = z("total_" + g)
            kg = np.asarray(k["k_" + g], float)
            if np.all(np.asarray(tot) == 0):
                s["alk_" + g] = 0.0 * h
            else:
                s["alk_" + g] = np.where(
                    -np.log10(kg) <= 4.5, -tot * h / (h + kg), tot * kg / (h + kg)
                )
    return s


CHARGE = {
    "H": -1, "OH": 1, "HCO3": 1, "CO3": 2, "H3PO4": -1, "HPO4": 1, "PO4": 2,
    "BOH4": 1, "H3SiO4": 1, "NH3": 1, "HS": 1, "HSO4": -1, "HF": -1,
    "alk_alpha": 1, "alk_beta": 1,
}


def alk(ph, t, k):
    s = species(ph, t, k)
    return sum(c * s[n] for n, c in CHARGE.items())


def solve_ph_for_alk(target, t, k):
    """pH at which alk(pH) = target (arrays), bisection then Newton polish."""
    lo = np.full(np.shape(target), -1.0)
    hi = np.full(np.shape(target), 13.0)
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        low = alk(mid, t, k) < target
        lo = np.where(low, mid, lo)
        hi = np.where(low, hi, mid)
    return 0.5 * (lo + hi)


# ------------------------------------------------------------------- solvers
def linfit(x, y):
    xm, ym = np.mean(x), np.mean(y)
    slope = np.sum((x - xm) * (y - ym)) / np.sum((x - xm) ** 2)
    return slope, ym - slope * xm


def gran(mass, emf, temp, am, molinity, normality=1.0, logic="v23.7+"):
    n = molinity * normality
    g = (mass + am) * np.exp(emf * F / (R * (temp + T0)))
    gm = np.max(g)
    above = g > 0.1 * gm
    if logic == "legacy":
        used = above & (g < 0.9 * gm)
    else:
        first = int(np.argmax(above))
        used = np.arange(len(g)) >= first
    slope, icpt = linfit(mass[used], g[used])
    x0 = -icpt / slope
    a = x0 * n / am
    with np.errstate(all="ignore"):
        e0s = emf - R * (temp + T0) / F * np.log((mass * n - am * a) / (mass + am))
    e0 = np.mean(e0s[used])
    return SimpleNamespace(
        alkalinity=a, gfunc=g, used=used, intercept_x=x0, slope=slope,
        intercept=icpt, emf0s=e0s, emf0=e0, pH=ph_from_emf(emf, e0, temp),
    )


def _fit(mass, emf, temp, am, t, k, acid, a0, e0):
    """Least-squares alkalinity (mol/kg) and EMF0: Gauss-Newton with the linear
    parameter (alkalinity) eliminated and a bracketing fallback."""
    dil = am / (am + mass)

    def best(e):
        y = alk(ph_from_emf(emf, e, temp), t, k) + acid
        a = np.sum(y * dil) / np.sum(dil * dil)
        r = y - a * dil
        return a, r

    e = e0
    for _ in range(60):
        d = 1e-3
        a, r = best(e)
        _, rp = best(e + d)
        _, rm = best(e - d)
        j = (rp - rm) / (2 * d)
        jj = np.sum(j * j)
        if jj == 0 or not np.isfinite(jj):
            break
        stepv = -np.sum(j * r) / jj
        stepv = max(-10.0, min(10.0, stepv))
        c0 = np.sum(r * r)
        while np.sum(best(e + stepv)[1] ** 2) > c0 and abs(stepv) > 1e-9:
            stepv /= 2
        e += stepv
        if abs(stepv) < 1e-8:
            break
    a, r = best(e)
    return a, e, r


def solve_emf(molinity, mass, emf, temp, am, t, k, alkalinity_init=None, double=True,
              emf0_init=None, gran_logic="v23.7+", pH_min=3, pH_max=4,
              titrant_normality=1):
    g = gran(mass, emf, temp, am, molinity, titrant_normality, gran_logic)
    e0 = g.emf0 if emf0_init is None else emf0_init
    a0 = g.alkalinity if alkalinity_init is None else alkalinity_init * 1e-6
    acid = mass * molinity * titrant_normality / (mass + am)
    for _ in range(2 if double else 1):
        ph = ph_from_emf(emf, e0, temp)
        used = (ph >= pH_min) & (ph <= pH_max)
        sub = lambda d: {
            n: (v[used] if np.size(v) > 1 else v) for n, v in d.items()
        }
        start_ph = ph
        if used.sum() == 0:
            return None
        a0, e0, r = _fit(mass[used], emf[used], temp[used], am, sub(t), sub(k),
                         acid[used], a0, e0)
    ph = ph_from_emf(emf, e0, temp)
    dil = am / (am + mass)
    alls = (alk(ph, t, k) + acid) / dil * 1e6
    return SimpleNamespace(
        alkalinity=a0 * 1e6, emf0=e0, used=used, pH=ph, start_pH=start_ph,
        alkalinity_all=alls, alkalinity_std=np.std(alls[used]), gran=g, resid=r,
    )


def solve_ph(molinity, mass, ph, temp, am, t, k, pH_min=3, pH_max=4, titrant_normality=1):
    used = (ph >= pH_min) & (ph <= pH_max)
    acid = mass * molinity * titrant_normality / (mass + am)
    alls = (alk(ph, t, k) + acid) * (am + mass) / am * 1e6
    if used.sum() == 0:
        return None
    return SimpleNamespace(
        alkalinity=np.mean(alls[used]), used=used, alkalinity_all=alls, pH=ph,
        alkalinity_std=np.std(alls[used]),
    )


def solve_ph_gran(molinity, mass, ph, am, pH_min=3, pH_max=4, titrant_normality=1):
    used = (ph >= pH_min) & (ph <= pH_max)
    if used.sum() < 2:
        return None
    g = (mass + am) * 10.0 ** (-ph)
    slope, icpt = linfit(mass[used], g[used])
    return SimpleNamespace(
        alkalinity=-icpt / slope * molinity * titrant_normality / am * 1e6,
        used=used, gfunc=g, pH=ph,
    )


SOLVER_KEYS = {
    "emf": "alkalinity_init double emf0_init gran_logic pH_min pH_max titrant_normality".split(),
    "ph_adjust": "alkalinity_init double gran_logic pH_min pH_max titrant_normality".split(),
    "ph": "pH_min pH_max titrant_normality".split(),
    "ph_gran": "pH_min pH_max titrant_normality".split(),
}


def solve(dat, molinity, salinity, o):
    """Whole solution of one titration: dat = (amount, measurement, temperature)."""
    mode = o.get("solve_mode", "emf").lower()
    mass, meas, temp, am = convert(*dat, salinity, o)
    totals, ks = totals_ks(mass, temp, am, salinity, o)
    t = add_titrant(totals, mass, am, molinity, o)
    kw = {k: o[k] for k in SOLVER_KEYS[mode] if k in o and given(o[k])}
    if mode == "emf":
        s = solve_emf(molinity, mass, meas, temp, am, t, ks, **kw)
    elif mode == "ph_adjust":
        s = solve_emf(molinity, mass, emf_from_ph(meas, 0.0, temp), temp, am, t, ks,
                      emf0_init=0.0, **kw)
    elif mode == "ph":
        s = solve_ph(molinity, mass, meas, temp, am, t, ks, **kw)
    else:
        s = solve_ph_gran(molinity, mass, meas, am, **kw)
    if s is not None:
        s.mode, s.mass, s.temp, s.am, s.totals, s.ks = mode, mass, temp, am, t, ks
    return s


def calibrate(dat, certified, salinity, o):
    """Titrant molinity for which solve() gives the certified alkalinity, found by
    secant iteration from the requested first guess."""
    x0 = float(o.get("titrant_molinity_init", 0.1))
    o = {k: v for k, v in o.items() if k != "titrant_molinity_init"}
    f = lambda x: solve(dat, x, salinity, o).alkalinity - certified
    a, fa = x0, f(x0)
    b = x0 * certified / (fa + certified) if fa + certified > 0 else x0 * 1.05
    if b == a:
        b = a * 1.001
    fb = f(b)
    for _ in range(30):
        if fb == fa or abs(fb) < 1e-10:
            break
        c = b - fb * (b - a) / (fb - fa)
        a, fa = b, fb
        b, fb = c, f(c)
        if abs(b - a) < 1e-15:
            break
    return b


# ----------------------------------------------------------- forward titration
def forward(alkalinity, molinity, mass, temp, am, salinity, o, emf0=600.0, mode="emf"):
    """Measurements that follow exactly from the model (EMF or pH)."""
    totals, ks = totals_ks(mass, temp, am, salinity, o)
    t = add_titrant(totals, mass, am, molinity, o)
    norm = o.get("titrant_normality", 1)
    target = (am * alkalinity * 1e-6 - mass * molinity * norm) / (am + mass)
    ph = solve_ph_for_alk(target, t, ks)
    if mode == "emf":
        return emf_from_ph(ph, emf0, temp)
    return ph

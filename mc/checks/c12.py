"""C12: speciation conserves mass and follows the alkalinity definition."""
import numpy as np

from .. import ref

PROPERTY = "C12"
BOUNDS = {
    "quick": "all 1024 subsets of the ten totals x 5 sets of constants x 3 pH scales x 15 pH values, scalar and array calls; contents and constants varying from point to point in 7 ways",
    "thorough": "all 1024 subsets of the ten totals x 14 sets of constants x 4 sets of contents x 3 pH scales x 57 pH values, scalar and array calls",
}
ASSUMES = ["an additional acid whose pK is exactly the zero level of protons (4.5) counts as one of the stronger acids"]
CHUNK = 64

NAMES = ref.TOTALS
CONTENT = {
    "dic": 2.1e-3, "total_alpha": 3.1e-5, "total_beta": 4.7e-5, "total_ammonia": 1.3e-5,
    "total_phosphate": 2.9e-5, "total_silicate": 1.1e-4, "total_sulfide": 2.3e-5,
    "total_borate": 4.2e-4, "total_fluoride": 7.0e-5, "total_sulfate": 0.0282,
}
EXPECT = {
    "dic": ["CO2", "HCO3", "CO3"], "total_borate": ["BOH4"],
    "total_phosphate": ["H3PO4", "HPO4", "PO4"], "total_silicate": ["H3SiO4"],
    "total_ammonia": ["NH3"], "total_sulfide": ["HS"], "total_alpha": ["alk_alpha"],
    "total_beta": ["alk_beta"], "total_fluoride": ["HF"], "total_sulfate": ["HSO4"],
}
BASE = {
    "k_alpha": 10**-3.9, "k_ammonia": 4.4e-10, "k_beta": 10**-6.6, "k_bisulfate": 0.1003,
    "k_borate": 1.97e-9, "k_carbonic_1": 1.11e-6, "k_carbonic_2": 8.2e-10,
    "k_fluoride": 2.37e-3, "k_phosphoric_1": 0.0192, "k_phosphoric_2": 9.1e-7,
    "k_phosphoric_3": 1.2e-9, "k_silicate": 3.1e-10, "k_sulfide": 2.6e-7, "k_water": 4.6e-14,
}


def constants(i):
    """Sets of constants: 0 seawater-like; 1 all shifted; 2 acid types exchanged;
    3 both additional acids strong; 4 no k_water, acids at the zero level; 5.. one constant moved far away."""
    k = dict(BASE)
    if i == 1:
        k = {n: v * (1.3 + 0.1 * j) for j, (n, v) in enumerate(sorted(k.items()))}
        k["k_alpha"], k["k_beta"] = 10**-4.6, 10**-9.0
    elif i == 2:
        k["k_alpha"], k["k_beta"] = 10**-6.6, 10**-3.9
    elif i == 3:
        k["k_alpha"], k["k_beta"] = 10**-4.4, 10**-2.0
    elif i == 4:
        del k["k_water"]
        k["k_alpha"] = k["k_beta"] = 10**-4.5  # exactly the zero level
    elif i >= 5:
        n = sorted(BASE)[(i - 5) * 3 % len(BASE)]
        k[n] *= 40.0 if i % 2 else 0.02
    return k


def cases(tier):
    nk, nc = (14, 4) if tier == "thorough" else (5, 1)
    return [
        {"subset": s, "nk": nk, "nc": nc, "fine": tier == "thorough"}
        for s in range(1 << len(NAMES))
    ]


def run(case, ctx):
    from calkulate import simulate

    subset = [n for j, n in enumerate(NAMES) if case["subset"] >> j & 1]
    ph = np.linspace(0.5, 12.75, 57) if case["fine"] else np.array(
        [0.5, 1.5, 2.5, 3, 3.4, 3.8, 4, 4.5, 5.2, 6, 7, 8.1, 9.3, 11, 12.75])
    total = 0.0
    for ci in range(case["nc"]):
        t = {n: CONTENT[n] * (1 + 0.37 * ci * (1 if j % 2 else -0.5)) for j, n in enumerate(NAMES)
             if n in subset}
        for ki in range(case["nk"]):
            k = constants(ki)
            kz = dict(k)
            kz.setdefault("k_water", 0.0)
            s = ref.species(ph, t, kz)
            want_free = ["H"] + (["OH"] if "k_water" in k else [])
            for n in subset:
                want_free += EXPECT[n]
            alk = sum(ref.CHARGE.get(n, 0) * s[n] for n in want_free)
            for scale in (3, 1, 2):
                h = s["H"]
                hx = h.copy()
                want = list(want_free)
                if scale in (1, 2) and "total_sulfate" in subset:
                    hx = hx + s["HSO4"]
                    want.remove("HSO4")
                if scale == 2 and "total_fluoride" in subset:
                    hx = hx + s["HF"]
                    want.remove("HF")
                if scale != 3 and hx is h:
                    continue
                r = hx / h
                kx = {n: (v * r if scale != 3 else v) for n, v in k.items()}
                if scale != 3:  # not used on these scales / stays free
                    kx["k_bisulfate"] = k["k_bisulfate"] * np.ones_like(r)
                if scale == 2:
                    kx["k_fluoride"] = k["k_fluoride"] * np.ones_like(r)
                if scale != 3:
                    # pK on the free scale decides the role of the additional acids;
                    # skip where the conversion moves it across the zero level
                    skip = [g for g in ("alpha", "beta") if "total_" + g in subset and np.any(
                        (-np.log10(kx["k_" + g]) <= 4.5) != (-np.log10(k["k_" + g]) <= 4.5))]
                    if skip:
                        continue
                phx = -np.log10(hx)
                ctx.state(subset, ci, ki, scale)
                ctx.step(3)
                tk = {n: (v * np.ones_like(ph) if scale != 3 else v) for n, v in t.items()}
                kw = {} if scale == 3 and ki % 2 else {"opt_pH_scale": scale}
                got = simulate.alkalinity_components(phx, tk, kx, **kw)
                what = f"scale {scale} totals {subset} constants {ki}"
                ctx.check(set(got) == set(want), "species-set",
                          lambda: f"{what}: species {sorted(got)}, expected {sorted(want)}")
                for n in want:
                    if n in got:
                        w = hx if n == "H" else s[n]
                        ctx.close("species", np.asarray(got[n]) * np.ones_like(ph), w, 1e-18, 1e-9, f"{what} {n}")
                a = simulate.alkalinity(phx, tk, kx, **kw)
                ctx.close("alkalinity", a, alk, 1e-12 * np.max(np.abs(alk)) * 1e-3, 1e-9, f"{what} alkalinity")
                # conservation, on the package's own numbers
                if "dic" in subset and {"CO2", "HCO3", "CO3"} <= set(got):
                    ctx.close("dic-sum", got["CO2"] + got["HCO3"] + got["CO3"],
                              np.full(ph.shape, t["dic"]), 0, 1e-11, what + " DIC sum")
                # elementwise: scalar calls give the same numbers
                for j in range(0, len(ph), 4 if case["fine"] else 3):
                    at = lambda d: {n: (v[j] if np.ndim(v) else v) for n, v in d.items()}
                    a1 = simulate.alkalinity(float(phx[j]), at(tk), at(kx), **kw)
                    ctx.close("elementwise", a1, alk[j], 1e-12 * np.max(np.abs(alk)) * 1e-3, 1e-9, what + " scalar")
                ctx.validate(2)
                total += float(np.sum(alk))
    total += varying(case, ctx, subset, ph)
    mult = simulate.component_multipliers
    for n, c in ref.CHARGE.items():
        ctx.check(mult.get(n) == c, "multiplier", f"component_multipliers[{n!r}] = {mult.get(n)}, expected {c}")
    ctx.check(mult.get("CO2") == 0, "multiplier", "component_multipliers['CO2'] must be 0")
    try:
        simulate.alkalinity_components(8.0, {}, {}, opt_pH_scale=4)
        ctx.fail("bad-scale", "an unknown pH scale was accepted")
    except AssertionError:
        pass
    except Exception:
        pass
    return total


def varying(case, ctx, subset, ph):
    """Contents and constants that differ from point to point, each in turn and all
    together, on both sides of the zero level: every point is its own solution."""
    from calkulate import simulate

    n = len(ph)
    i = np.arange(n)
    flip = np.where(i % 2 == 0, 10**-3.9, 10**-6.6)
    ks = {k: v * (1 + 0.03 * (i * (j + 3) % 7)) for j, (k, v) in enumerate(sorted(BASE.items()))}
    ts = {x: CONTENT[x] / (1 + 0.02 * (i * (j + 2) % 5)) for j, x in enumerate(NAMES) if x in subset}
    total = 0.0
    for way in ("k", "t", "both", "flip", "flop", "f-order", "ints"):
        p = ph.copy()
        k = dict(BASE) if way == "t" else dict(ks)
        t = {x: CONTENT[x] for x in ts} if way == "k" else dict(ts)
        if way == "flip":
            k["k_alpha"], k["k_beta"] = flip, np.roll(flip[::-1], i[1])
        elif way == "flop":
            k["k_alpha"], k["k_beta"] = np.roll(flip, 1), flip
        elif way == "f-order":  # points listed backwards
            p = p[::-1]
            k = {x: np.asarray(v)[::-1] for x, v in k.items()}
        elif way == "ints":  # whole-number pH values
            p = np.clip(np.round(p), 1, 12).astype(int)
        ctx.state(subset, way)
        ctx.step(2)
        what = f"totals {subset}, point-by-point {way}"
        s = ref.species(p.astype(float), t, k)
        names = ["H", "OH"] + [y for x in subset for y in EXPECT[x]]
        got = simulate.alkalinity_components(p, t, k)
        ctx.check(set(got) == set(names), "species-set", lambda: f"{what}: species {sorted(got)}")
        for y in names:
            if y in got:
                ctx.close("varying", np.asarray(got[y]) * np.ones(n), s[y], 1e-18, 1e-9, f"{what} {y}")
        alk = sum(ref.CHARGE.get(y, 0) * s[y] for y in names)
        ctx.close("varying", simulate.alkalinity(p, t, k), alk, 1e-15 * np.max(np.abs(alk)), 1e-9, what + " alkalinity")
        ctx.validate(1)
        total += float(np.sum(alk))
    return total

"""C14: EMF <-> [H+] <-> pH conversions are exact Nernst inverses."""
import math

import numpy as np

from .. import ref

PROPERTY = "C14"
BOUNDS = {
    "quick": "full product of 12 EMF x 7 EMF0 x 7 temperatures x 12 pH values x 10 kinds of argument",
    "thorough": "full product of 61 EMF x 15 EMF0 x 24 temperatures x 57 pH values x 10 kinds of argument",
}
ASSUMES = ["Faraday and gas constants are the CODATA 2010 values documented in calkulate.constants"]
CHUNK = 10

SHAPES = ["scalar", "int", "array", "array_t", "array_all", "matrix", "int-array", "np-int", "series", "strided"]


def cases(tier):
    if tier == "thorough":
        e0s = [-300, -100.5, -0.25, 0, 0.25, 50, 111.1, 300, 400, 500, 599.9, 600, 650.125, 700, 800]
        ts = [-1.9, 0, 0.5] + list(range(2, 41, 2)) + [50.0]
    else:
        e0s = [-100.5, 0, 0.25, 300, 600, 650.125, 800]
        ts = [-1.9, 0, 4.5, 15, 25, 33.3, 40]
    return [
        {"emf0": e0, "t": t, "shape": s, "fine": tier == "thorough"}
        for e0 in e0s for t in ts for s in SHAPES
    ]


def run(case, ctx):
    from calkulate import convert as cv

    e0, t, shape = case["emf0"], case["t"], case["shape"]
    if case["fine"]:
        emfs = np.linspace(-200.0, 800.0, 61)
        phs = np.linspace(0.0, 14.0, 57)
    else:
        emfs = np.array([-200, -31.7, 0, 12.25, 100, 183.1, 290.3, 343.4, 480, 600, 650.5, 700.0])
        phs = np.array([0, 0.5, 1, 2.75, 3, 3.5, 4, 5.5, 7, 8.1, 10, 13.0])
    tt = t
    if shape in ("int", "int-array", "np-int"):
        emfs = np.unique(np.round(emfs)).astype(int)
        phs = np.unique(np.round(phs)).astype(int)
        e0 = int(round(e0))
        tt = t = int(round(t))
    n = min(len(emfs), len(phs))
    emfs, phs = emfs[:n], phs[:n]
    e0a, ta = e0, t
    if shape == "array_t":
        ta = t + 0.1 * np.arange(n)
    elif shape == "array_all":
        ta = t + 0.1 * np.arange(n)
        e0a = e0 + 0.5 * np.arange(n)
    elif shape == "matrix":
        n -= n % 3
        emfs, phs = emfs[:n].reshape(3, -1), phs[:n].reshape(3, -1)
    elif shape == "series":
        import pandas as pd

        emfs, phs = pd.Series(emfs, index=range(3, 3 + n)), pd.Series(phs, index=range(3, 3 + n))
    elif shape == "strided":
        emfs, phs = np.repeat(emfs, 2)[::2], phs[::-1].copy()[::-1]
    if shape == "np-int":
        todo = [(x, p, np.int64(e0), np.int64(t)) for x, p in zip(emfs, phs)]
    elif shape in ("scalar", "int"):
        todo = [(x.item(), p.item(), e0, t) for x, p in zip(emfs, phs)]
    else:
        todo = [(emfs, phs, e0a, ta)]
    kt = lambda t: ref.R * (np.asarray(t, float) + 273.15) / ref.F
    for emf, ph, z, T in todo:
        ctx.state(case, str(emf), str(ph))
        ctx.step(8)
        keep = [np.copy(a) for a in (emf, ph, z, T)]
        h = cv.emf_to_h(emf, z, T)
        p = cv.emf_to_pH(emf, z, T)
        ctx.close("emf_to_h", h, ref.h_from_emf(emf, z, T), 0, 1e-11, "emf_to_h")
        ctx.close("emf_to_pH", p, ref.ph_from_emf(emf, z, T), 1e-11, 1e-12, "emf_to_pH")
        ctx.close("h-pH", h, 10.0 ** -np.asarray(p, float), 0, 1e-11, "h = 10^-pH")
        ctx.close("emf-back", cv.h_to_emf(h, z, T), np.asarray(emf, float), 1e-9, 1e-12, "h_to_emf(emf_to_h)")
        ctx.close("emf-back", cv.pH_to_emf(p, z, T), np.asarray(emf, float), 1e-9, 1e-12, "pH_to_emf(emf_to_pH)")
        e = cv.pH_to_emf(ph, z, T)
        ctx.close("pH_to_emf", e, ref.emf_from_ph(ph, z, T), 1e-9, 1e-12, "pH_to_emf")
        ctx.close("pH-back", cv.emf_to_pH(e, z, T), np.asarray(ph, float), 1e-10, 1e-12, "emf_to_pH(pH_to_emf)")
        ctx.close("h_to_emf", cv.h_to_emf(10.0 ** -np.asarray(ph, float), z, T),
                  np.asarray(z, float) - np.asarray(ph, float) * math.log(10) * kt(T), 1e-9, 1e-12, "h_to_emf")
        d = 7.5
        ctx.close("emf0-shift", cv.pH_to_emf(ph, np.asarray(z) + d, T) - e, np.full(np.shape(e), d), 1e-9, 0, "EMF0 shift")
        ctx.close("slope", cv.emf_to_pH(emf, z, T) - cv.emf_to_pH(np.asarray(emf) + 1.0, z, T),
                  np.broadcast_to(1.0 / (kt(T) * math.log(10)), np.shape(p)), 1e-11, 1e-9, "Nernst slope")
        for f in (0.5, 0.9, 1.0, 1.07, 2.0):
            ctx.close("f_to_demf0", cv.f_to_demf0(f, T), math.log(f) * kt(T), 1e-10, 1e-12, "f_to_demf0")
        for a, b in zip(keep, (emf, ph, z, T)):
            ctx.check(np.array_equal(a, b), "mutated", "a conversion changed its input")
        ctx.validate(4)
    return [case["shape"], float(np.sum(np.asarray(ref.ph_from_emf(emfs, e0a, ta))))]

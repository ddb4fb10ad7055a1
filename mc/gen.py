"""Deterministic titrations and files for the explored spaces."""

import os

import numpy as np

from . import ref


def amounts(n=28, top=4.2, start=0.0):
    """n evenly spaced titrant amounts (g)."""
    return np.round(np.linspace(start, top, n), 4)


def temps(kind, n):
    if kind == "flat":
        return np.full(n, 25.0)
    if kind == "ramp":
        return np.round(24.0 + 1.7 * np.arange(n) / max(1, n - 1), 3)
    if kind == "cold":
        return np.round(12.0 + 0.9 * np.arange(n) / max(1, n - 1), 3)
    if kind == "zigzag":
        return np.round(21.0 + 0.6 * (np.arange(n) % 3), 3)
    raise ValueError(kind)


def noise(n, which, size):
    """A fixed, irregular, zero-mean disturbance."""
    i = np.arange(n)
    x = np.sin(1.7 * i + which) + 0.6 * np.cos(2.9 * i + 2 * which)
    return size * (x - x.mean())


def titration(alk=2300.0, molinity=0.1, am=0.1, salinity=35.0, temp="ramp", n=28,
              top=4.2, emf0=610.0, mode="emf", which=0, noisy=True, digits=3,
              opts=None, unit="g", start=0.0, rough=1):
    """(amount, measurement, temperature) of a sample, amounts in `unit`.

    The measurements follow from the model (options `opts` included); if noisy,
    a fixed disturbance of about 0.3 mV (0.005 pH) is added."""
    o = dict(opts or {})
    g = amounts(n, top, start)
    t = temps(temp, n)
    mass = g / 1000
    meas = ref.forward(alk, molinity, mass, t, am, salinity, o, emf0=emf0,
                       mode="emf" if mode == "emf" else "pH")
    if noisy:
        meas = meas + noise(n, which, rough * (0.25 if mode == "emf" else 0.004))
    if digits is not None:
        meas = np.round(meas, digits + (0 if mode == "emf" else 2))
    if unit == "kg":
        g = mass
    elif unit == "ml":
        g = g / ref.rho_hcl_nacl()
    return g, meas, t


def write_genfromtxt(path, dat, delimiter="\t", header=2, order=(0, 1, 2), extra=0):
    rows = ["header line %d" % i for i in range(header)]
    for p in zip(*dat):
        cells = [None] * (3 + extra)
        for value, col in zip(p, order):
            cells[col] = repr(float(value))
        for i, c in enumerate(cells):
            if c is None:
                cells[i] = "77.25"
        rows.append(delimiter.join(cells))
    with open(path, "w") as f:
        f.write("\n".join(rows) + "\n")


def write_pclims(path, dat):
    rows = ["$S PC/LIMS V1", "$S Sample data V1", "x\t\t85.9\tg", "$E", "$S MPL V2"]
    for i, (a, m, t) in enumerate(zip(*dat)):
        rows.append("%d\t%r\t%r\t0.0\t0.0\t%r" % (i + 1, float(a), float(m), float(t)))
    rows += ["$E", "$S EP", "1\t2.2\t3.3\t4.4\t5.5\t6.6", "$E"]
    with open(path, "w") as f:
        f.write("\n".join(rows) + "\n")


def write_tiamo(path, dat, start=0.0):
    rows = [
        "Kopf;1", "Dosierung.1", "x;y;%r;z" % float(start), "a;b;c", "d",
    ]
    # the start volume is the third field of the line three above "Gran.1"
    rows += ["Gran.1", "Volumen [mL];Messwert;dMW [pH];Zeit [s];Temperatur [\u00b0C];Berechnet 1;Berechnet 2;Berechnet 3"]
    for i, (a, m, t) in enumerate(zip(*dat)):
        rows.append("%r;%r;0.1;%d;%r;1;2;3" % (float(a - start), float(m), i * 10, float(t)))
    with open(path, "w", encoding="latin-1") as f:
        f.write("\n".join(rows) + "\n")


def put(directory, name, dat, **kw):
    p = os.path.join(directory, name)
    write_genfromtxt(p, dat, **kw)
    return p

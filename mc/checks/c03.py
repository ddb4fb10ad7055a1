"""C03: a row's result depends only on that row."""
import os

import numpy as np
import pandas as pd

from .. import framework as fw
from .. import gen, util

PROPERTY = "C03"
BOUNDS = {
    "quick": "52 titrations that differ from another in one value only (each option, the salinity, one point, two exchanged temperatures, the folder), before and after it, in 2 solve modes x calkulate, solve; "
             "all ordered sequences of <=3 rows over 9 kinds of row (references and samples of each mode and file type, own options, "
             "missing file, flagged file, same file name in another folder) for calkulate; all sequences of <=2 for solve and calibrate, "
             "with 3 sets of call options; all pairs x 8 kinds of index",
    "thorough": "all sequences of <=4 rows for calkulate (9 kinds), <=3 for solve and calibrate; all triples of 6 kinds x 8 kinds of index",
}
ASSUMES = ["the file interface processes one titration on its own (its results are themselves checked against the model in C01, C02, C10-C13)"]
CHUNK = 30
KINDS = ["ref", "ref2", "opts", "ph", "pclims", "gran", "adjust", "missing", "flagged"]
INDEX = ["range", "reversed", "gaps", "duplicate", "string", "float", "date", "multi"]
KW = [{}, {"pH_max": 3.8, "dic": 90.0, "double": False, "titrant_density": 1.03},
      {"pH_range": (3.1, 4.2), "titrant_normality": 1.5, "opt_k_bisulfate": 2, "read_dat_kwargs": {"skip_header": 2}}]


def cases(tier):
    th = tier == "thorough"
    out = []
    for s in fw.sequences(KINDS, 1, 4 if th else 3):
        out.append({"rows": s, "op": "calkulate", "kw": 0, "index": "range"})
    for s in fw.sequences(KINDS, 1, 3 if th else 2):
        for op in ("solve", "calibrate", "calkulate"):
            for kw in range(3):
                if op != "calkulate" or kw:
                    out.append({"rows": s, "op": op, "kw": kw, "index": "range"})
    for s in fw.sequences(KINDS[:6] if th else KINDS, 2, 3 if th else 2):
        for ix in INDEX[1:]:
            for op in ("calkulate", "solve"):
                out.append({"rows": s, "op": op, "kw": 0, "index": ix})
    for mode in ("emf", "pH"):
        for dev in TWINS:
            for op in ("calkulate", "solve"):
                a, b = f"{mode}|", f"{mode}|{dev}"
                out += [{"rows": r, "op": op, "kw": 0, "index": "range"} for r in ([a, b], [b, a])]
    return out


# titrations that differ from the plain one in one value only
TWINS = {"salinity": 35.004, "analyte_mass": 0.10003, "analyte_volume": 98.0, "temperature_override": 24.75, "titrant_normality": 1.01, "titrant_total_sulfate": 0.2,
         "titrant_total_phosphate": 0.1, "titrant_total_fluoride": 0.1, "titrant_amount_unit": "ml", "titrant_density": 1.01, "molinity_HCl": 0.2, "molinity_NaCl": 0.5,
         "pH_min": 3.2, "pH_max": 3.7, "dilute_totals_for_ks": True, "dic": 30.0, "total_phosphate": 30.0, "total_silicate": 300.0, "total_ammonia": 200.0,
         "total_sulfide": 200.0, "total_alpha": 50.0, "total_beta": 50.0, "total_borate": 900.0, "total_fluoride": 75.0, "total_sulfate": 28000.0,
         "opt_k_carbonic": 4, "opt_k_bisulfate": 2, "opt_k_fluoride": 2, "opt_total_borate": 2, "k_bisulfate": 0.12, "k_fluoride": 2.4e-3, "k_water": 6e-14,
         "k_borate": 3e-9, "gran_logic": "legacy", "double": False, "emf0_init": 600.0, "alkalinity_certified": 2303.0, "titrant_molinity": 0.10002, "solve_mode": None,
         "temps exchanged": None, "one temperature": None, "one measurement": None, "one amount": None, "one more point": None, "temps reversed": None, "folder": None,
         "amounts and values": None, "first temperature": None, "last point": None, "header": None, "columns": None, "spaces": None}


def twin_data(dev, mode):
    g, m, t = gen.titration(alk=2290, mode=mode, n=26, which=1)
    g, m, t = np.array(g), np.array(m), np.array(t)
    step = 1.3 if mode == "emf" else -0.02
    if dev == "temps exchanged":
        t[[18, 22]] = t[[22, 18]]
    elif dev == "one temperature":
        t[20] += 0.4
    elif dev == "one measurement":
        m[20] += step
    elif dev == "one amount":
        g[20] += 0.02
    elif dev == "amounts and values":
        g[20] += 0.02
        g[19] -= 0.02
        m[21] += step
        m[19] -= step
    elif dev == "one more point":
        g, m, t = np.append(g, g[-1] + 0.1), np.append(m, m[-1] + step), np.append(t, t[-1])
    elif dev == "temps reversed":
        t = t[::-1].copy()
    elif dev == "first temperature":
        t[0] += 2.0
    elif dev in ("folder", "header", "columns", "spaces"):
        m = m + 0.4 * step
    elif dev == "last point":
        m[-1] += step
    return g, m, t


_made = {}


def setup(ctx):
    """Titration files, once per process (the scratch directory is per process)."""
    if ctx.scratch in _made and os.path.isdir(_made[ctx.scratch]):
        return _made[ctx.scratch]
    util.pristine(None)
    d = os.path.join(ctx.scratch, "keep-files")
    os.makedirs(os.path.join(d, "other"), exist_ok=True)
    n = 26
    gen.put(d, "ref.dat", gen.titration(alk=2250, mode="emf", n=n, which=1))
    gen.put(os.path.join(d, "other"), "ref.dat", gen.titration(alk=2150, molinity=0.102, mode="emf", n=n, which=2, salinity=33))
    gen.put(d, "opts.dat", gen.titration(alk=2400, mode="emf", n=n, which=3), delimiter=",", header=4, order=(2, 0, 1))
    gen.put(d, "ph.dat", gen.titration(alk=2300, mode="pH", n=n, which=4))
    gen.write_pclims(os.path.join(d, "pclims.txt"), gen.titration(alk=2330, mode="emf", n=n, which=5))
    gen.put(d, "gran.dat", gen.titration(alk=2200, mode="pH", n=n, which=6))
    gen.put(d, "adjust.dat", gen.titration(alk=2210, mode="pH", n=n, which=7))
    for mode in ("emf", "pH"):
        gen.put(d, f"plain{mode}.dat", twin_data(None, mode))
        for k, v in TWINS.items():
            if v is None and k != "solve_mode":
                if k == "folder":
                    gen.put(os.path.join(d, "other"), f"plain{mode}.dat", twin_data(k, mode))
                else:
                    gen.put(d, f"{k}{mode}.dat", twin_data(k, mode), **({"header": 3} if k == "header" else {"order": (1, 0, 2)} if k == "columns" else {}))
    _made[ctx.scratch] = d
    return d


def rows_for(kinds, d, op):
    out = []
    for i, k in enumerate(kinds):
        r = {"file_name": k + ".dat", "file_path": d, "salinity": 35.0, "analyte_mass": 0.1, "titrant_amount_unit": "g",
             "alkalinity_certified": np.nan}
        if "|" in k:
            mode, dev = k.split("|")
            r.update(file_name=f"plain{mode}.dat", solve_mode=mode, alkalinity_certified=2300.0)
            if dev == "solve_mode":
                r["solve_mode"] = "pH_adjust" if mode == "pH" else np.nan
            elif dev == "folder":
                r["file_path"] = os.path.join(d, "other")
            elif dev == "analyte_volume":
                r.update(analyte_mass=np.nan, analyte_volume=98.0)
            elif dev and TWINS[dev] is None:
                r["file_name"] = f"{dev}{mode}.dat"
                r.update({"skip_header": 3} if dev == "header" else {"col_titrant_amount": 1, "col_measurement": 0} if dev == "columns" else {})
            elif dev and dev != "titrant_molinity":
                r[dev] = TWINS[dev]
            if dev in ("titrant_density", "molinity_HCl", "molinity_NaCl"):
                r["titrant_amount_unit"] = "ml"
        elif k == "ref":
            r["alkalinity_certified"] = 2250.0
        elif k == "ref2":
            r.update(file_name="ref.dat", file_path=os.path.join(d, "other"), salinity=33.0, alkalinity_certified=2150.0, analysis_note="x")
        elif k == "opts":
            r.update(delimiter=",", skip_header=4, col_titrant_amount=2, col_measurement=0, col_temperature=1,
                     pH_min=3.1, pH_max=4.4, dic=60.0, total_phosphate=5.0, opt_k_bisulfate=2, temperature_override=23.0,
                     gran_logic="legacy", titrant_total_sulfate=0.3)
        elif k == "ph":
            r.update(solve_mode="pH", analyte_mass=np.nan, analyte_volume=98.0, total_silicate=50.0, alkalinity_certified=2300.0)
        elif k == "pclims":
            r.update(file_name="pclims.txt", file_type="pclims", titrant_amount_unit="ml", titrant_density=1.01, alkalinity_certified=2330.0)
        elif k == "gran":
            r.update(solve_mode="pH_gran", titrant_normality=2.0, titrant_amount_unit="ml", titrant="H2SO4", molinity_H2SO4=0.3, total_sulfate=14000.0)
        elif k == "adjust":
            r.update(solve_mode="pH_adjust", double=False, dilute_totals_for_ks=True, k_bisulfate=0.11, alkalinity_certified=2200.0)
        elif k == "missing":
            r.update(file_name="not-there.dat", alkalinity_certified=2000.0, dic=999.0)
        elif k == "flagged":
            r.update(file_name="ref.dat", file_good=False, alkalinity_certified=2250.0)
        if op == "solve":
            if "|" in k:
                r["titrant_molinity"] = TWINS["titrant_molinity"] if k.endswith("titrant_molinity") else 0.1
            else:
                r["titrant_molinity"] = 0.1 + 0.0011 * KINDS.index(k) if k != "gran" else 0.05
        r.setdefault("file_good", True)
        r["mark"] = f"m{i}"
        out.append(r)
    return out


def index_for(kind, n):
    return {
        "range": None, "reversed": list(range(n))[::-1], "gaps": [10 * (i + 1) for i in range(n)],
        "duplicate": [7] * n, "string": ["s%d" % i for i in range(n)][::-1], "float": [0.5 + i for i in range(n)],
        "date": list(pd.date_range("2024-01-01", periods=n)),
        "multi": None if n == 0 else pd.MultiIndex.from_tuples([("a" if i % 2 else "b", i) for i in range(n)]),
    }[kind]


_alone = {}


def alone(kind, row, kw, kwn, mol, ctx):
    k = (ctx.scratch, kind, kwn, mol)
    if k not in _alone:
        _alone[k] = util.pristine(util.solve_alone, row, kw, mol)
    return _alone[k]


def cal_alone(kind, row, kw, kwn, ctx):
    k = (ctx.scratch, "cal", kind, kwn)
    if k not in _alone:
        _alone[k] = util.pristine(util.calibrate_alone, row, kw)
    return _alone[k]


def run(case, ctx):
    d = setup(ctx)
    kw = KW[case["kw"]]
    rows = rows_for(case["rows"], d, case["op"])
    ix = index_for(case["index"], len(rows))
    ds = util.frame(rows, index=ix)
    user = util.snapshot(ds)
    ctx.state(case)
    ctx.step(len(rows))
    import copy

    getattr(ds, case["op"])(**copy.deepcopy(kw))
    what = f"{case['op']}({KW[case['kw']]}) on {case['rows']} index {case['index']}"
    if not ctx.check(len(ds) == len(rows), "rows", f"{what}: {len(ds)} rows instead of {len(rows)}"):
        return None
    out = []
    for i, (k, r) in enumerate(zip(case["rows"], rows)):
        w = f"{what}, row {i} ({k})"
        if case["op"] != "solve":
            ctx.close("calibration", ds.titrant_molinity_here.iloc[i], cal_alone(k, r, kw, case["kw"], ctx), 0, 1e-6, w + " titrant_molinity_here")
            mol = float(ds.titrant_molinity.iloc[i])
        else:
            mol = r["titrant_molinity"]
            ctx.close("molinity", ds.titrant_molinity.iloc[i], mol, 0, 0, w)
        got = util.results(ds, i, util.RESULTS)
        util.compare_dicts(ctx, "solution", got, alone(k, r, kw, case["kw"], mol, ctx), w)
        out.append(got["alkalinity"])
    # what the user provided is still there, on the same rows, in the same order
    after = util.snapshot(ds)
    ctx.check(after[1] == user[1], "index", f"{what}: index {after[1]} instead of {user[1]}")
    util.intact(ctx, ds, rows, what)
    ctx.validate(len(rows))
    return out

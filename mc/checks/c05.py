"""C05: the batch titrant is the mean of that batch's usable references only."""
import itertools
import math
import os

import numpy as np
import pandas as pd

from .. import gen, util

PROPERTY = "C05"
BOUNDS = {
    "quick": "all tables of <=3 rows over (batch a, b or blank) x (2 good references, bad reference, unusable reference, flagged reference, "
             "sample); all tables of <=4 rows without batch column; all tables of 3 rows x 7 kinds of batch label (and 10 pairs of labels that look alike) x reference_good column "
             "present or absent; every batch of 5 references that agree, lie far off or are marked bad, in one or two batches; "
             "every table of 3 rows with blank reference_good cells in 6 kinds of column; calkulate, and calibrate for every third",
    "thorough": "all tables of <=4 rows (18^4), all tables of <=5 rows without batch column, all label kinds with 4 rows",
}
ASSUMES = ["individual calibrations are those of the file interface (checked in C01 and C03)"]
CHUNK = 80
KINDS = ["good1", "good2", "badref", "unusable", "flagged", "sample"]
BATCH = ["a", "b", None]
LABELS = ["int", "str", "float", "date", "mixed", "bool", "category"]

ALIKE = {"case": ["A1", "a1"], "space": ["a1 ", "a1"], "prefix": ["b1", "b10"], "point": ["1", "1.0"], "big": [20240101123456789, 20240101123456788],
         "near": [1.0, 1.0000001], "hour": [pd.Timestamp("2024-03-01 06:00"), pd.Timestamp("2024-03-01 18:00")], "sign": [-2, 2], "zero": [0, 1], "empty": ["-", "--"]}


def cases(tier):
    th = tier == "thorough"
    cells = [(b, k) for b in BATCH for k in KINDS]
    out = []
    for n in range(1, (4 if th else 3) + 1):
        for t in itertools.product(cells, repeat=n):
            out.append({"rows": t, "labels": "str", "refcol": True})
    for n in range(1, (5 if th else 4) + 1):
        for t in itertools.product(KINDS, repeat=n):
            out.append({"rows": [(None, k) for k in t], "labels": None, "refcol": True})
    small = [(b, k) for b in BATCH for k in ("good1", "good2", "sample")]
    for lab in LABELS:
        for refcol in (True, False):
            for t in itertools.product(small, repeat=4 if th and refcol else 3):
                if lab in ("bool",) and any(b is None for b, _ in t):
                    continue
                if not refcol and lab not in ("int", "str"):
                    continue
                out.append({"rows": t, "labels": lab, "refcol": refcol})
    for lab in ALIKE:  # labels that are nearly the same
        for t in itertools.product([c for c in small if c[0]], repeat=3):
            out.append({"rows": t, "labels": lab, "refcol": True})
    # bigger batches: references that agree, one or more far off, some marked bad; one sample at the end
    for t in itertools.product(("near", "far", "badref"), repeat=6 if th else 5):
        for b in ("aaaaaaa", "abababa"):
            rows = [(b[i], "good1" if k != "badref" else k) for i, k in enumerate(t)] + [("a", "sample")]
            certs = [2235.0 + (0.4 * i if k == "near" else 300.0 * (-1) ** i if k == "far" else 40) for i, k in enumerate(t)] + [None]
            out.append({"rows": rows, "labels": "int", "refcol": True, "certs": certs})
    # reference_good left blank, in every kind of column that can hold a blank
    for dt in ("object", "None", "NA", "float", "boolean", "Int64"):
        for t in itertools.product(("good1", "blank", "badref", "sample"), repeat=4 if th else 3):
            out.append({"rows": [("a", k) for k in t], "labels": None, "refcol": dt})
    return out


def label(kind, b):
    if b is None:
        return np.nan if kind != "date" else pd.NaT
    i = 0 if b == "a" else 1
    if kind in ALIKE:
        return ALIKE[kind][i]
    return {
        "int": [3, 1], "str": ["b2", "a1"], "float": [2.5, -1.0],
        "date": [pd.Timestamp("2024-03-01"), pd.Timestamp("2023-01-05")],
        "mixed": ["7", 7], "bool": [True, False], "category": ["z", "y"],
    }[kind][i]


_fix = {}


def setup(ctx):
    if ctx.scratch in _fix:
        return _fix[ctx.scratch]
    d = os.path.join(ctx.scratch, "keep-files")
    os.makedirs(d)
    for i, k in enumerate(KINDS):
        if k != "unusable":
            gen.put(d, k + ".dat", gen.titration(alk=2200 + 40 * i, molinity=0.1, mode="pH", n=22, top=4.2, which=i))
    _fix[ctx.scratch] = d
    return d


_memo = {}


def run(case, ctx):
    import calkulate as calk

    d = setup(ctx)
    rows = []
    certs = case.get("certs") or [None] * len(case["rows"])
    for (b, k), cert in zip(case["rows"], certs):
        r = {"file_name": ("good2" if k == "blank" else k) + ".dat", "file_path": d, "salinity": 35.0, "analyte_mass": 0.1, "titrant_amount_unit": "g",
             "solve_mode": "pH", "file_good": k != "flagged",
             "alkalinity_certified": np.nan if k == "sample" else cert if cert else 2200.0 if k == "blank" else 2190.0 + 45 * KINDS.index(k)}
        if case["refcol"]:
            r["reference_good"] = k != "badref"
            if k == "blank" or (k == "sample" and case["refcol"] is not True):
                r["reference_good"] = {"None": None, "NA": pd.NA}.get(case["refcol"], np.nan)
        if case["labels"]:
            r["analysis_batch"] = label(case["labels"], b)
        rows.append(r)
    ds = util.frame(rows)
    if case["labels"] == "category":
        ds["analysis_batch"] = ds["analysis_batch"].astype("category")
    if case["labels"] == "mixed":
        ds["analysis_batch"] = pd.Series([r["analysis_batch"] for r in rows], index=ds.index, dtype=object)
    if case["refcol"] not in (True, False):
        ds["reference_good"] = pd.Series([r["reference_good"] for r in rows], index=ds.index,
                                         dtype=case["refcol"] if case["refcol"] in ("float", "boolean", "Int64") else object)
    op = "calibrate" if len(rows) == 3 and sum(map(len, map(str, case["rows"]))) % 3 == 0 else "calkulate"
    ctx.state(case)
    ctx.step(2)
    getattr(ds, op)()
    what = f"{op} {case}"
    # individual calibrations
    x = []
    for (b, k), r in zip(case["rows"], rows):
        m = (ctx.scratch, k, "x", r["alkalinity_certified"])
        if m not in _memo:
            _memo[m] = util.calibrate_alone(r, {})
        x.append(_memo[m])
    ctx.close("individual", ds.titrant_molinity_here.to_numpy(), x, 0, 1e-6, what + " titrant_molinity_here")
    # batch means: literal definition
    want = []
    for b, k in case["rows"]:
        if case["labels"] and b is None:
            want.append(np.nan)
            continue
        xs = [xx for (bb, kk), xx in zip(case["rows"], x)
              if (bb == b or not case["labels"]) and xx == xx and (kk != "badref" or not case["refcol"])]
        want.append(math.fsum(xs) / len(xs) if xs else np.nan)
    ctx.close("batch mean", ds.titrant_molinity.to_numpy(), want, 0, 1e-6, what + " titrant_molinity")
    stats = getattr(calk.dataset, "get_batches", None)
    if stats is not None:
        got = stats(ds)
        for i, (b, k) in enumerate(case["rows"]):
            if case["labels"] and b is None:
                continue
            xs = [xx for (bb, kk), xx in zip(case["rows"], x)
                  if (bb == b or not case["labels"]) and xx == xx and (kk != "badref" or not case["refcol"])]
            key = ds.analysis_batch.iloc[i]
            w = [math.fsum(xs) / len(xs) if xs else np.nan, float(np.std(xs, ddof=1)) if len(xs) > 1 else np.nan, len(xs)]
            g = [float(got[c].loc[key]) for c in ("titrant_molinity", "titrant_molinity__std", "titrant_molinity__count")]
            ctx.close("batch statistics", g, w, 1e-8, 1e-6, what + f" mean, spread and number of references of batch {key!r}")
    alk = []
    for i, ((b, k), r) in enumerate(zip(case["rows"], rows)):
        m = (ctx.scratch, k, "s", round(want[i], 15))
        if m not in _memo or want[i] != want[i]:
            _memo[m] = util.solve_alone(r, {}, want[i])
        alk.append(_memo[m]["alkalinity"])
    ctx.close("alkalinity", ds.alkalinity.to_numpy(), alk, 2e-3, 0, what + " alkalinity")
    ctx.close("offset", ds.alkalinity_offset.to_numpy(),
              [a - r["alkalinity_certified"] for a, r in zip(alk, rows)], 2e-3, 0, what + " alkalinity_offset")
    util.intact(ctx, ds, [{k: v for k, v in r.items() if k != "analysis_batch" and not (k == "reference_good" and pd.isnull(v))} for r in rows], what)
    if case["refcol"]:
        ctx.check(all(pd.isnull(g) == pd.isnull(r["reference_good"]) for g, r in zip(ds.reference_good, rows)), "flag", f"{what}: reference_good is {ds.reference_good.tolist()}")
    if case["labels"]:
        for i, r in enumerate(rows):
            g = ds.analysis_batch.iloc[i]
            v = r["analysis_batch"]
            ctx.check((pd.isnull(g) and pd.isnull(v)) or g == v, "batch label", f"{what}: label of row {i} is {g!r}, was {v!r}")
    ctx.validate(len(rows))
    return [round(float(v), 9) for v in want]

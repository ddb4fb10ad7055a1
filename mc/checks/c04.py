"""C04: one unusable titration never stops a dataset or yields a number."""
import os
import shutil

import numpy as np
import pandas as pd

from .. import framework as fw
from .. import gen, util

PROPERTY = "C04"
BOUNDS = {
    "quick": "38 kinds of fault x reference/sample x every position among 3 rows x calkulate, calibrate, solve x fresh dataset or one already "
             "processed when the fault appears (EMF data); the same faults in 4 other modes or file types; all pairs of faults",
    "thorough": "as quick, in all 6 modes/file types, with and without batches, all ordered pairs and all ordered triples of 12 faults",
}
ASSUMES = ["faults are injected by replacing the file or the row's cell; the machine itself does not fail"]
CHUNK = 30

FILE_FAULTS = ["missing", "empty", "header", "garbage", "binary", "directory", "one-row", "short-rows", "ragged", "nan-cells", "words", "gone-path"]
META_FAULTS = ["flagged", "no-size", "bad-mode", "bad-unit", "reversed-window", "empty-window", "bad-column", "bad-delimiter",
               "long-header", "no-salinity", "blank-name", "bad-titrant", "bad-gran", "bad-carbonic",
               "flagged-int", "flagged-nullable", "flagged-float", "text-salinity", "text-mass", "text-carbonic", "text-sulfate",
               "text-window", "number-mode", "number-unit", "na-salinity", "number-name"]
FAULTS = FILE_FAULTS + META_FAULTS
STORE = {"flagged-int": "int64", "flagged-nullable": "boolean", "flagged-float": "float64"}
MODES = ["emf", "pH", "pH_gran", "pH_adjust", "pclims", "tiamo"]


def applies(fault, mode):
    if fault == "nan-cells":
        return mode in ("emf", "pH_adjust")
    if fault in ("na-salinity", "text-carbonic") and mode == "pH_gran":
        return False
    if fault in ("no-salinity", "bad-carbonic"):
        return mode != "pH_gran"  # which needs neither
    if fault == "bad-gran":
        return mode in ("emf", "pH_adjust")
    if fault in ("bad-column", "long-header", "bad-delimiter"):
        return mode not in ("pclims", "tiamo")
    if fault in ("short-rows", "ragged", "one-row", "words"):
        return mode not in ("pclims", "tiamo")
    return True


def cases(tier):
    th = tier == "thorough"
    out = []
    for mode in MODES:
        full = th or mode == "emf"
        for f in FAULTS:
            if not applies(f, mode):
                continue
            for role in ("reference", "sample"):
                for pos in (0, 1, 2) if full else (1,):
                    for op in ("calkulate", "calibrate", "solve") if full else ("calkulate",):
                        for stale in (False, True):
                            for batch in (False, True) if th else (stale,):
                                out.append({"mode": mode, "faults": [f], "roles": [role], "pos": pos, "op": op,
                                            "stale": stale, "batch": batch})
    for i, a in enumerate(FAULTS):
        for j, b in enumerate(FAULTS):
            if not th and j < i:
                continue
            out.append({"mode": "emf", "faults": [a, b], "roles": ["reference", "sample"] if (i + j) % 2 else ["sample", "reference"],
                        "pos": 1, "op": "calkulate", "stale": (i + j) % 3 == 0, "batch": False})
    for f in FAULTS:  # nothing else in the dataset
        for op in ("calkulate", "solve"):
            out.append({"mode": "emf", "faults": [f], "roles": ["reference"], "pos": 0, "op": op, "stale": False, "batch": False, "only": True})
    if th:
        sub = FAULTS[::2][:12]
        for a in sub:
            for b in sub:
                for c in sub:
                    out.append({"mode": "emf", "faults": [a, b, c], "roles": ["reference", "sample", "reference"], "pos": 1,
                                "op": "calkulate", "stale": False, "batch": False})
    return out


def good_file(path, mode, which, alk=2300.0):
    dat = gen.titration(alk=alk, mode="emf" if mode in ("emf", "pclims") else "pH", n=24, top=4.3, which=which)
    if mode == "pclims":
        gen.write_pclims(path, dat)
    elif mode == "tiamo":
        gen.write_tiamo(path, dat, start=0.0)
    else:
        gen.write_genfromtxt(path, dat)


def base(mode, name, d):
    r = {"file_name": name, "file_path": d, "salinity": 35.0, "analyte_mass": 0.1, "titrant_amount_unit": "g",
         "alkalinity_certified": np.nan, "file_good": True, "solve_mode": "emf"}
    if mode in ("pH", "pH_gran", "pH_adjust"):
        r["solve_mode"] = mode
    elif mode == "pclims":
        r["file_type"] = "pclims"
    elif mode == "tiamo":
        r.update(file_type="tiamo_de", solve_mode="pH")
    return r


def break_file(fault, path):
    if fault == "missing":
        os.remove(path)
    elif fault == "empty":
        open(path, "w").close()
    elif fault == "header":
        lines = open(path, encoding="latin-1").read().split("\n")[:2]
        open(path, "w").write("\n".join(lines) + "\n")
    elif fault == "garbage":
        open(path, "w").write("this is\nnot a\ntitration file\nat all\n" * 3)
    elif fault == "binary":
        open(path, "wb").write(bytes(range(256)) * 8)
    elif fault == "directory":
        os.remove(path)
        os.mkdir(path)
    elif fault == "gone-path":
        pass
    else:
        lines = open(path).read().split("\n")
        head, body = lines[:2], [x for x in lines[2:] if x]
        if fault == "one-row":
            body = body[:1]
        elif fault == "short-rows":
            body = [x.rsplit("\t", 1)[0] for x in body]
        elif fault == "ragged":
            body[5] += "\t1\t2"
        elif fault == "nan-cells":
            c = body[-3].split("\t")
            c[1] = "-"
            body[-3] = "\t".join(c)
        elif fault == "words":
            body = ["a\tb\tc" for _ in body]
        open(path, "w").write("\n".join(head + body) + "\n")


def cells(fault):
    nan = np.nan
    return {
        "flagged": {"file_good": False}, "no-size": {"analyte_mass": nan}, "bad-mode": {"solve_mode": "banana"},
        "bad-unit": {"titrant_amount_unit": "furlong"}, "reversed-window": {"pH_min": 4.0, "pH_max": 3.0},
        "empty-window": {"pH_min": 0.1, "pH_max": 0.2}, "bad-column": {"col_measurement": 9},
        "bad-delimiter": {"delimiter": ";"}, "long-header": {"skip_header": 500}, "no-salinity": {"salinity": nan},
        "blank-name": {"file_name": nan}, "bad-titrant": {"titrant": "vinegar", "titrant_amount_unit": "ml"},
        "bad-gran": {"gran_logic": "psychic"}, "bad-carbonic": {"opt_k_carbonic": 99},
        "flagged-int": {"file_good": 0}, "flagged-nullable": {"file_good": False}, "flagged-float": {"file_good": 0.0},
        "text-salinity": {"salinity": "thirty-five"}, "text-mass": {"analyte_mass": "heavy"}, "text-carbonic": {"opt_k_carbonic": "best"},
        "text-sulfate": {"total_sulfate": "lots"}, "text-window": {"pH_min": "low"},
        "number-mode": {"solve_mode": 5}, "number-unit": {"titrant_amount_unit": 1.0}, "na-salinity": {"salinity": pd.NA}, "number-name": {"file_name": 7},
        "gone-path": {"file_path": "/nonexistent-folder-of-this-check"},
    }.get(fault, {})


def build(case, ctx):
    d = ctx.dir()
    good = []
    if not case.get("only"):
        for i, (name, m, cert, alk) in enumerate([("r1.dat", case["mode"], 2260.0, 2250.0), ("s1.dat", "emf", np.nan, 2380.0),
                                                 ("r2.dat", "emf", 2200.0, 2205.0)]):
            good_file(os.path.join(d, name), m, i, alk)
            r = base(m, name, d)
            r["alkalinity_certified"] = cert
            good.append(r)
        good = good[:2] if len(case["faults"]) == 1 and case["op"] != "solve" and case["pos"] == 2 else good
    bad = []
    for j, (f, role) in enumerate(zip(case["faults"], case["roles"])):
        name = f"bad{j}.dat"
        good_file(os.path.join(d, name), case["mode"], 5 + j, 2300.0 + 30 * j)
        r = base(case["mode"], name, d)
        if role == "reference":
            r["alkalinity_certified"] = 2310.0
        bad.append(r)
    if case["batch"]:
        for i, r in enumerate(good):
            r["analysis_batch"] = i // 2
        for r in bad:
            r["analysis_batch"] = 0
    if case["op"] == "solve":
        for i, r in enumerate(good + bad):
            r["titrant_molinity"] = 0.1 + 0.001 * i
    pos = min(case["pos"], len(good))
    rows = good[:pos] + bad + good[pos:]
    return d, good, bad, rows, list(range(pos, pos + len(bad)))


def store(ds, faults):
    for f in faults:
        if f in STORE:
            ds["file_good"] = ds["file_good"].astype(bool).astype(STORE[f])
    return ds


_clean = {}


def run(case, ctx):
    d, good, bad, rows, where = build(case, ctx)
    what = f"{case['op']} {case['mode']} faults {case['faults']} roles {case['roles']} position {case['pos']} stale {case['stale']}"
    ctx.state(case)
    ctx.step(3)
    extra = {}
    for f in case["faults"]:
        for k in cells(f):
            extra.setdefault(k, np.nan)
    if case["stale"]:
        ds = util.frame([dict({k: v for k, v in extra.items() if k not in r}, **r) for r in rows])
        if case["op"] == "solve":
            ds.solve()
        else:
            ds.calkulate()
        for i in where:
            ctx.check(ds.alkalinity.iloc[i] == ds.alkalinity.iloc[i], "precondition", f"{what}: row {i} is not solved before the fault")
    for j, (f, r) in enumerate(zip(case["faults"], bad)):
        if f in FILE_FAULTS:
            break_file(f, os.path.join(d, f"bad{j}.dat"))
        r.update(cells(f))
    if case["stale"]:
        for i, r, f in zip(where, bad, case["faults"]):
            for k, v in cells(f).items():
                if not (isinstance(v, float) and ds[k].dtype == float):
                    ds[k] = ds[k].astype(object)
                ds.loc[ds.index[i], k] = v
    else:
        ds = util.frame(rows)
    store(ds, case["faults"])
    try:
        getattr(ds, case["op"])()
    except Exception as e:
        ctx.fail("stopped", f"{what}: {type(e).__name__}: {e}")
        return None
    ctx.check(len(ds) == len(rows), "rows", f"{what}: {len(ds)} rows")
    for i in where:
        got = util.results(ds, i, util.RESULTS)
        for k in ("alkalinity", "alkalinity_std", "emf0", "gran_alkalinity", "gran_emf0"):
            ctx.check(got[k] != got[k], "yields-a-number", f"{what}: row {i} has {k} = {got[k]!r}")
        if case["op"] != "solve":
            x = ds.titrant_molinity_here.iloc[i]
            ctx.check(x != x, "yields-a-molinity", f"{what}: row {i} has titrant_molinity_here = {x!r}")
    # the other rows, and the batch titrant, are as without the unusable ones
    others = [i for i in range(len(rows)) if i not in where]
    if good:
        k = (case["mode"], case["op"], case["batch"], len(good))
        if k not in _clean:  # the good rows' files are the same in every case
            _clean[k] = util.frame(good)
            getattr(_clean[k], case["op"])()
        clean = _clean[k]
        keys = util.RESULTS + (util.CAL if case["op"] != "solve" else ["titrant_molinity"])
        for n, i in enumerate(others):
            util.compare_dicts(ctx, "influence", util.results(ds, i, keys), util.results(clean, n, keys), f"{what}: row {i}")
            ctx.check(clean.alkalinity.iloc[n] == clean.alkalinity.iloc[n] or case["batch"], "precondition", f"{what}: row {n} unsolved")
    ctx.validate()
    return [round(float(x), 6) for x in ds.alkalinity]

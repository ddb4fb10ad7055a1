"""C21: unrecognised options are announced and have no effect."""
import os
import re
import warnings

import numpy as np
import pandas as pd

from .. import gen, util
from .c06 import OPTS

PROPERTY = "C21"
BOUNDS = {
    "quick": "18 unknown names x 6 values x 4 operations x 3 solve modes, every ordered pair of unknown names x operations, the first and last 3..18 of them together; every recognised option (3 values each) and every old spelling x operations x 2 modes, alone and together with an unknown one; "
             "18 extra columns x 5 contents x operations and the Titration, and all pairs of extra columns; 5 unknown file types x 6 placements x operations",
    "thorough": "every unknown name with every recognised option; ordered triples of unknown names; extra columns with every solve mode",
}
ASSUMES = ["unknown names are not parameters of pandas.DataFrame.apply (raw, args, axis, func, result_type, by_row, engine), which the dataset functions pass them through",
           "column names are strings"]
CHUNK = 20

UNKNOWN = ["foo", "pH_mni", "opt_k_carbonics", "Double", "analysis_batch", "salinty", "alkalinity", "total_boron", "titrant_mass", "x", "reference_good", "k_foo", "PH_min", "solve_Mode", "pH_min_", "_private", "kwargs", "molinity"]
VALUES = [1, "text", None, [1, 2], float("nan"), False]
OPS = ["calibrate", "solve", "calkulate", "file"]
MODES = ["emf", "pH", "pH_gran"]
OLD = {"pH_range": (3.1, 3.9), "read_dat_kwargs": {"skip_header": 2}, "read_dat_method": "genfromtxt"}
OLD2 = {"pH_range": [3.0, 4.0], "read_dat_kwargs": {"delimiter": "\t", "col_measurement": 1}, "read_dat_method": "vindta"}
COLUMNS = ["comment", "date", "foo", "pH_range_", "Salinity", "titrant_mass", "measurement", "emf", "pH", "index", "level_0", "alkalinity_raw", "run type", "totals", "k_constants", "kwargs", "7", "temperature"]
CONTENTS = [[1, 2, 3], ["a", "b", "c"], [np.nan, "x", None], [True, False, True], [{"a": 1}, [1, 2], (3,)]]
FTYPES = ["foo", "VINDTA", "genfromtext", "pclims2", ""]


def cases(tier):
    t = tier == "thorough"
    out = []
    for op in OPS:
        for m in MODES:
            for u in UNKNOWN:
                for v in range(len(VALUES)):
                    out.append({"part": "unknown", "op": op, "mode": m, "kw": [(u, v)]})
        for i, a in enumerate(UNKNOWN):
            for j, b in enumerate(UNKNOWN):
                if i != j:
                    out.append({"part": "unknown", "op": op, "mode": "emf", "kw": [(a, i % 6), (b, j % 6)]})
                    if t:
                        out += [{"part": "unknown", "op": op, "mode": "pH", "kw": [(a, i % 6), (b, j % 6), (c, 0)]} for c in UNKNOWN if c not in (a, b)]
        for n in range(3, len(UNKNOWN) + 1):
            out.append({"part": "unknown", "op": op, "mode": "emf", "kw": [(u, i % 6) for i, u in enumerate(UNKNOWN[:n])]})
            out.append({"part": "unknown", "op": op, "mode": "pH", "kw": [(u, 0) for u in UNKNOWN[::-1][:n]]})
        for o in OPTS:
            for which in range(3):
                for m in ("emf", "pH"):
                    out.append({"part": "known", "op": op, "mode": m, "opt": o, "value": which, "extra": None})
                    out.append({"part": "known", "op": op, "mode": m, "opt": o, "value": which, "extra": UNKNOWN[(len(o) + which) % len(UNKNOWN)]})
                    if t:
                        out += [{"part": "known", "op": op, "mode": m, "opt": o, "value": which, "extra": u} for u in UNKNOWN]
        if op != "file":
            for m in ("emf", "pH"):
                for o in OLD:
                    for which in (0, 1):
                        for e in (None, "foo", "pH_mni"):
                            out.append({"part": "old", "op": op, "mode": m, "opt": o, "value": which, "extra": e})
        for m in MODES if t else ("emf",):
            for i, c in enumerate(COLUMNS):
                for k in range(len(CONTENTS)):
                    out.append({"part": "columns", "op": op if op != "file" else "Titration", "mode": m, "cols": [(i, k)]})
                for j in range(len(COLUMNS)):
                    if i < j:
                        out.append({"part": "columns", "op": op if op != "file" else "Titration", "mode": m, "cols": [(i, (i + j) % 5), (j, i % 5)]})
        for f in FTYPES:
            for place in ("call", "column", "old call", "old column", "old dict", "cell"):
                if op == "file" and place != "call":
                    continue
                out.append({"part": "ftype", "op": op, "ftype": f, "place": place})
    return out


def world(ctx, mode):
    """Three titrations (two references and a sample), shared by a chunk."""
    kind = "emf" if mode == "emf" else "pH"
    d = os.path.join(ctx.scratch, "keep-" + kind)
    if not os.path.isdir(d):
        os.makedirs(d)
        for i in range(3):
            gen.put(d, f"t{i}.dat", gen.titration(alk=2250.0 + 30 * i, which=i, mode=kind))
    rows = [util.base_row(f"t{i}.dat", file_path=d, solve_mode=mode, dic=2000.0, titrant_molinity=0.1, alkalinity_certified=[2250.0, np.nan, 2310.0][i]) for i in range(3)]
    return rows


def do(op, rows, kw, mode, index=None):
    """(results of the operation, warnings)."""
    from calkulate import files

    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        if op == "file":
            r = {k: v for k, v in rows[0].items() if k in util.CAL_KEYS and not util.blank(v)}
            r.update(kw)
            try:
                cal = files.calibrate(rows[0]["file_name"], rows[0]["alkalinity_certified"], rows[0]["salinity"], **r)
                res = [float(cal["x"][0])]
            except Exception as e:
                res = [type(e).__name__]
            ds = None
        else:
            ds = util.frame(rows, index=index)
            getattr(ds, op)(**kw)
            res = [util.results(ds, i) for i in range(len(rows))]
    return res, [str(w.message) for w in rec], ds


def names(messages, word):
    """Is this word among the names in a message about ignored options?"""
    pat = r"(?<![\w.])" + re.escape(str(word)) + r"(?!\w)"
    return any(re.search(pat, m) for m in messages)


def about(messages):
    """Messages about options that are not recognised or ignored."""
    return [m for m in messages if re.search(r"recogni|ignor|unknown|unused|unexpected", m, re.I)]


def equal(ctx, key, got, want, what):
    ctx.validate()
    if len(got) != len(want):
        return ctx.fail(key, f"{what}: {len(got)} results instead of {len(want)}")
    for g, w in zip(got, want):
        if isinstance(w, dict):
            util.compare_dicts(ctx, key, g, w, what, 1e-12, 1e-12)
        else:
            ctx.check(g == w or util.same(g, w, 1e-12, 1e-12), key, f"{what}: {g!r} instead of {w!r}")


def brief(res):
    return [(r if isinstance(r, str) else round(r, 8) if isinstance(r, float) else (round(r["alkalinity"], 4) if r["alkalinity"] == r["alkalinity"] else None)) for r in res]


def run(case, ctx):
    ctx.state(case)
    return globals()[case["part"]](case, ctx)


def unknown(case, ctx):
    rows = world(ctx, case["mode"])
    kw = {n: VALUES[v] for n, v in case["kw"]}
    want, quiet, _ = do(case["op"], rows, {}, case["mode"])
    ctx.check(not about(quiet), "false report", f"{case}: without options: {about(quiet)[:1]}")
    got, said, ds = do(case["op"], rows, dict(kw), case["mode"])
    ctx.step(2)
    equal(ctx, "effect", got, want, f"{case} {kw}")
    for n in kw:
        ctx.check(names(said, n), "silent", f"{case}: no warning names {n!r}: {said[:2]}")
    if ds is not None:
        util.intact(ctx, ds, [{k: v for k, v in r.items() if k != "titrant_molinity"} for r in rows], f"{case}")
        ctx.check(all(n in rows[0] or n in ("analysis_batch", "reference_good", "alkalinity") or n not in ds.columns for n in kw), "column", f"{case}: the option became a column")
    return [case["op"], brief(got)]


def known(case, ctx):
    rows = world(ctx, case["mode"])
    o = case["opt"]
    value = OPTS[o]["values"][case["value"]]
    for r in rows:
        if o != "file_path":
            r.pop(o, None)
        for k in OPTS[o]["base"]:
            r.setdefault(k, OPTS[o]["base"][k])
    if o == "analyte_mass" and case["op"] != "file":
        rows = [{**r, "analyte_mass": np.nan} for r in rows]
    if o in ("delimiter",):
        value = ["\t", None, ","][case["value"]]
    kw = {o: value}
    if value is None:
        kw = {o: "\t"}
    if o == "file_path":
        kw = {o: rows[0]["file_path"]}
        if case["op"] != "file":
            rows = [{k: v for k, v in r.items() if k != "file_path"} for r in rows]
    got, said, _ = do(case["op"], rows, dict(kw), case["mode"])
    ctx.step()
    what = f"{case} {kw}"
    ctx.check(not names(about(said), o), "false report", f"{what}: {about(said)[:1]}")
    if case["extra"] is None:
        ctx.check(not [m for m in about(said) if "file_type" not in kw], "false report", f"{what}: {about(said)[:1]}")
        ctx.validate()
    else:
        got2, said2, _ = do(case["op"], rows, {case["extra"]: 5, **kw}, case["mode"])
        ctx.step()
        equal(ctx, "effect", got2, got, f"{what} with {case['extra']}")
        ctx.check(names(said2, case["extra"]), "silent", f"{what}: no warning names {case['extra']!r}")
        ctx.check(not names(about(said2), o), "false report", f"{what}: {about(said2)[:1]}")
    return [o, brief(got)]


def old(case, ctx):
    rows = world(ctx, case["mode"])
    o = case["opt"]
    value = (OLD, OLD2)[case["value"]][o]
    got, said, _ = do(case["op"], rows, {o: value, **({case["extra"]: 1} if case["extra"] else {})}, case["mode"])
    want, quiet, _ = do(case["op"], rows, util.newstyle({o: value}), case["mode"])
    ctx.step(2)
    what = f"{case} {value}"
    equal(ctx, "effect", got, want, what)
    for n in [o, *util.newstyle({o: value})]:
        ctx.check(not names(about(said), n), "false report", f"{what}: {about(said)[:1]}")
    if case["extra"]:
        ctx.check(names(said, case["extra"]), "silent", f"{what}: no warning names {case['extra']!r}")
    return [o, brief(got)]


def columns(case, ctx):
    rows = world(ctx, case["mode"])
    extra = {COLUMNS[i]: CONTENTS[k] for i, k in case["cols"]}
    more = [{**{c: v[i] for c, v in extra.items()}, **r} if case["cols"][0][1] % 2 else {**r, **{c: v[i] for c, v in extra.items()}} for i, r in enumerate(rows)]
    if case["op"] == "Titration":
        import calkulate as calk

        out = []
        for rs in (rows, more):
            ds = util.frame(rs)
            tt = calk.Titration(ds.loc[1])
            out.append([float(tt.sr.alkalinity), float(tt.sr.pH[0]), int(tt.sr.used.sum()), tt.titration.to_numpy(dtype=float)])
            ctx.step()
        for c, v in extra.items():
            ctx.check(same_cell(tt.row[c], v[1]), "column", f"{case}: {c} of the titration is {tt.row[c]!r}")
        ctx.validate()
        ctx.check(out[0][:3] == out[1][:3] and np.array_equal(out[0][3], out[1][3], equal_nan=True), "effect", f"{case}: {out[1][:3]} instead of {out[0][:3]}")
        return [round(out[1][0], 4)]
    want, _, _ = do(case["op"], rows, {}, case["mode"])
    got, said, ds = do(case["op"], more, {}, case["mode"])
    ctx.step(2)
    equal(ctx, "effect", got, want, f"{case}")
    for c, v in extra.items():
        if not ctx.check(c in ds.columns, "column", f"{case}: column {c} is gone"):
            continue
        for i in range(3):
            ctx.check(same_cell(ds[c].iloc[i], v[i]), "column", f"{case}: {c} of row {i} is {ds[c].iloc[i]!r} instead of {v[i]!r}")
    return [case["op"], brief(got)]


def same_cell(a, b):
    if isinstance(b, (dict, list, tuple)):
        return type(a) is type(b) and a == b
    return (util.blank(a) and util.blank(b)) or a == b


def ftype(case, ctx):
    rows = world(ctx, "emf")
    f = case["ftype"]
    want, _, _ = do(case["op"], rows, {}, "emf")
    kw = {}
    p = case["place"]
    if p == "call":
        kw = {"file_type": f}
    elif p == "old call":
        kw = {"read_dat_method": f}
    elif p == "old dict":
        kw = {"read_dat_kwargs": {"file_type": f}}
    elif p == "cell":
        rows = [{**r, "file_type": f if i == 2 else np.nan} for i, r in enumerate(rows)]
    else:
        rows = [{**r, "file_type" if p == "column" else "read_dat_method": f} for r in rows]
    got, said, _ = do(case["op"], rows, kw, "emf")
    ctx.step(2)
    equal(ctx, "effect", got, want, f"{case}")
    ctx.check(any(f"'{f}'" in m or f'"{f}"' in m or (f and names([m], f)) for m in said), "silent", f"{case}: no warning names the file type: {said[:2]}")
    ctx.check(not names([m for m in about(said) if "kwargs" in m], "file_type"), "false report", f"{case}: {said[:1]}")
    return [case["op"], p, brief(got)]

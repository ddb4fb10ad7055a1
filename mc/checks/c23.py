"""C23: results do not depend on how the metadata table was made or is stored."""
import io
import os

import numpy as np
import pandas as pd

from .. import framework as fw
from .. import gen, util

PROPERTY = "C23"
BOUNDS = {
    "quick": "tables of 4 rows with every set of <=1 of 23 optional columns (with and without blanks) x 7 origins (CSV, tab-separated, other separator with rows skipped, fixed "
             "width, Excel, clipboard, JSON records), every pair of optional columns through one origin; every column x every storage type that holds its values (11) x "
             "operation, every pair of columns both retyped; every ordered selection of rows by 3 means; every rotation of the columns; 17 sets of reader options",
    "thorough": "every pair of optional columns x blanks x origin x operation; every pair of retypings x operation; Dataset and plain DataFrame for each selection",
}
ASSUMES = ["numbers in fixed-width tables are written with enough digits", "the clipboard is replaced by a text given to pandas.read_clipboard"]
CHUNK = 60

N = 4
ESSENTIAL = {"file_name": ["a.dat", "b.dat", "c.dat", "d.dat"], "salinity": [35.0, 33.5, 35.0, 34.0]}
# column: values of the 4 rows without blanks, and the rows that are blank in the other variant
COLUMNS = {
    "analyte_mass": ([0.1, 0.1, 0.1, 0.1], None),
    "file_good": ([True, True, True, False], [0, 1]),
    "reference_good": ([True, False, True, True], [2, 3]),
    "analysis_batch": ([1, 1, 2, 2], [3]),
    "solve_mode": (["emf", "emf", "emf", "emf"], [0, 2]),
    "titrant_amount_unit": (["g", "g", "g", "g"], None),
    "dic": ([10.0, 20.0, 30.0, 40.0], [1, 3]),
    "pH_min": ([3.0, 3.1, 3.0, 3.2], [0]),
    "pH_max": ([4.0, 3.9, 3.8, 4.0], [1]),
    "total_phosphate": ([3.0, 5.0, 8.0, 2.0], [2]),
    "total_sulfate": ([28000.0, 27000.0, 28000.0, 27500.0], [0, 1]),
    "total_borate": ([410.0, 400.0, 415.0, 405.0], [2]),
    "opt_k_carbonic": ([10, 4, 10, 16], [0, 3]),
    "opt_k_bisulfate": ([1, 2, 1, 2], [1]),
    "opt_total_borate": ([1, 2, 2, 1], [2]),
    "k_bisulfate": ([0.11, 0.12, 0.1, 0.115], [0, 1, 2]),
    "temperature_override": ([25.0, 24.0, 23.0, 22.0], [0, 2]),
    "titrant_normality": ([1, 1, 1, 1], [1, 2]),
    "double": ([True, False, True, False], [1]),
    "dilute_totals_for_ks": ([True, False, False, True], [3]),
    "gran_logic": (["legacy", "v23.7+", "legacy", "v23.7+"], [0, 1]),
    "skip_header": ([2, 2, 2, 2], [0]),
    "col_measurement": ([1, 1, 1, 1], [3]),
    "emf0_init": ([610.0, 609.0, 611.0, 612.0], [0, 1]),
    "comment": (["x", "y", "z", "w"], [1]),
}
FIXED = ("analyte_mass", "titrant_amount_unit")
ORIGINS = ["dict", "frame", "csv", "table", "semicolon", "fwf", "excel", "clipboard", "json"]
TYPES = ["float64", "float32", "int64", "int8", "object", "Float64", "Int64", "boolean", "string", "category", "bool"]


def cases(tier):
    th = tier == "thorough"
    out = []
    optional = [c for c in COLUMNS if c not in FIXED]
    sets = [()] + [(c,) for c in optional]
    sets += [(a, b) for i, a in enumerate(optional) for b in optional[i + 1:]]
    for k, cols in enumerate(sets):
        for blanks in (False, True) if len(cols) < 2 or th else (k % 2 == 0,):
            for origin in ORIGINS[2:] if len(cols) < 2 or th else [ORIGINS[2 + k % 7]]:
                for op in ("calkulate", "solve") if th else (("calkulate", "solve")[len(out) % 2],):
                    out.append({"kind": "origin", "cols": list(cols), "blanks": blanks, "origin": origin, "op": op})
    names = list(ESSENTIAL) + list(COLUMNS) + ["alkalinity_certified", "file_path"]
    single = [(c, t) for c in names for t in TYPES if fits(c, t)]
    for c, t in single:
        for op in ("calkulate", "solve"):
            for blanks in (False, True) if th or has_blanks(c) else (False,):
                for origin in ("dict", "frame") if th else (("dict", "frame")[len(out) % 2],):
                    out.append({"kind": "types", "types": {c: t}, "op": op, "origin": origin, "blanks": blanks})
    if th:
        for i, (c, t) in enumerate(single):
            for c2, t2 in single[i + 1:]:
                if c2 != c:
                    for op in ("calkulate", "solve"):
                        out.append({"kind": "types", "types": {c: t, c2: t2}, "op": op, "origin": "frame", "blanks": True})
    else:  # every pair of columns, both in another type than pandas would choose
        for i, c in enumerate(names):
            for j, c2 in enumerate(names[:i]):
                ts, ts2 = [t for k, t in single if k == c], [t for k, t in single if k == c2]
                out.append({"kind": "types", "types": {c: ts[j % len(ts)], c2: ts2[i % len(ts2)]}, "op": ("calkulate", "solve")[(i + j) % 2],
                            "origin": "frame", "blanks": True})
    out.append({"kind": "types", "types": "convert_dtypes", "op": "calkulate", "origin": "frame", "blanks": True})
    out.append({"kind": "types", "types": "all-object", "op": "calkulate", "origin": "frame", "blanks": True})
    for rows in fw.sequences([0, 1, 2, 3], 1, 4):
        if len(set(rows)) == len(rows):
            for how in ("take", "mask", "concat"):
                for cls in ("Dataset", "DataFrame") if th else (("Dataset", "DataFrame")[len(out) % 2],):
                    out.append({"kind": "rows", "rows": list(rows), "how": how, "cls": cls})
    ncol = len(names)
    for shift in range(ncol):
        out.append({"kind": "columns", "shift": shift, "reverse": False})
        out.append({"kind": "columns", "shift": shift, "reverse": True})
    for k in OPTIONS:
        out.append({"kind": "options", "which": k})
    return out


def values(c, blanks):
    if c in ESSENTIAL:
        return list(ESSENTIAL[c])
    if c == "alkalinity_certified":
        return [2250.0, np.nan, 2300.0, 2200.0]
    if c == "file_path":
        return ["folder"] * N
    v, b = COLUMNS[c]
    v = list(v)
    for i in (b or []) if blanks else []:
        v[i] = np.nan
    return v


def has_blanks(c):
    return c in COLUMNS and COLUMNS[c][1] is not None


def fits(c, t):
    """Whether the values of the column, with or without blanks, can be stored so."""
    v = values(c, False)
    text = isinstance(v[0], str)
    logical = isinstance(v[0], bool)
    if t in ("string",):
        return text
    if t in ("bool", "boolean"):
        return logical
    if t in ("object", "category"):
        return True
    if text:
        return False
    if t == "float32":
        return logical or all(x != x or float(np.float32(x)) == x for x in v)
    if t in ("int64", "int8", "Int64"):
        return all(x != x or (float(x).is_integer() and abs(x) < (127 if t == "int8" else 1e9)) for x in v)
    return True


def folder(ctx):
    d = os.path.join(ctx.scratch, "keep-c23")
    if not os.path.isdir(d):
        os.makedirs(d)
        for i, n in enumerate(ESSENTIAL["file_name"]):
            gen.put(d, n, gen.titration(alk=[2250, 2410, 2300, 2190][i], mode="emf", n=24, which=i))
    return d


def content(cols, blanks, d, op):
    t = {c: values(c, blanks) for c in list(ESSENTIAL) + [f for f in FIXED if f not in cols] + list(cols)}
    t["file_path"] = [d] * N
    if op == "calkulate":
        t["alkalinity_certified"] = values("alkalinity_certified", blanks)
    else:
        t["titrant_molinity"] = [0.1, 0.101, np.nan, 0.0995]
    return t


def make(t, origin, ctx):
    import calkulate as calk

    df = pd.DataFrame(t)
    p = ctx.path("table")
    if origin == "dict":
        return calk.Dataset(t)
    if origin == "frame":
        return calk.Dataset(df)
    if origin == "csv":
        df.to_csv(p + ".csv", index=False)
        return calk.read_csv(p + ".csv")
    if origin == "table":
        df.to_csv(p + ".tsv", index=False, sep="\t")
        return calk.read_table(p + ".tsv")
    if origin == "semicolon":
        with open(p + ".txt", "w") as f:
            f.write("first line\nsecond line\n")
            df.to_csv(f, index=False, sep=";", na_rep="-")
        return calk.read_csv(p + ".txt", sep=";", skiprows=2, na_values=["-"])
    if origin == "fwf":
        with open(p + ".txt", "w") as f:
            f.write(df.to_string(index=False, na_rep="NaN", float_format=lambda x: repr(float(x))) + "\n")
        return calk.read_fwf(p + ".txt", infer_nrows=1000)
    if origin == "excel":
        df.to_excel(p + ".xlsx", index=False, sheet_name="titrations")
        return calk.read_excel(p + ".xlsx", sheet_name="titrations")
    if origin == "clipboard":
        import pandas.io.clipboard as clip

        saved = clip.clipboard_get
        clip.clipboard_get = lambda: df.to_csv(index=False, sep="\t", na_rep="NaN")
        try:
            return calk.read_clipboard(sep="\t")
        finally:
            clip.clipboard_get = saved
    if origin == "json":
        return calk.Dataset(pd.read_json(io.StringIO(df.to_json(orient="records", double_precision=15)), convert_dates=False))
    raise ValueError(origin)


_want = {}


def expected(t, op, ctx, reference_good=True):
    """Every row processed alone through the file interface; then the batch means."""
    rows = [{k: v[i] for k, v in t.items()} for i in range(N)]
    for r in rows:
        r.setdefault("file_good", True)
    if op == "solve":
        mol = t["titrant_molinity"]
        here = None
    else:
        here = []
        for r in rows:
            key = repr({k: v for k, v in r.items() if k not in ("analysis_batch", "reference_good")})
            if key not in _want:
                _want[key] = util.calibrate_alone(r, {})
            here.append(_want[key])
        batch = t.get("analysis_batch", [0] * N)
        good = t.get("reference_good", [True] * N)
        mol = []
        for i in range(N):
            m = [here[j] for j in range(N) if not util.blank(batch[i]) and batch[j] == batch[i] and good[j] and here[j] == here[j]]
            mol.append(float(np.mean(m)) if m else np.nan)
    out = []
    for i, r in enumerate(rows):
        key = (repr(r), mol[i])
        if key not in _want:
            _want[key] = util.solve_alone(r, {}, mol[i])
        x = dict(_want[key])
        if here is not None:
            x["titrant_molinity_here"] = here[i]
            x["titrant_molinity"] = mol[i]
        out.append(x)
    return out


def verify(ds, op, want, t, ctx, what, rows=None):
    rows = list(range(len(want))) if rows is None else rows
    ctx.check(len(ds) == len(rows), "rows", f"{what}: {len(ds)} rows instead of {len(rows)}")
    for pos, i in enumerate(rows):
        got = {}
        for k in want[i]:
            v = ds[k].iloc[pos] if k in ds.columns else "absent"
            got[k] = v if isinstance(v, str) else (np.nan if util.blank(v) else float(v))
        util.compare_dicts(ctx, "result", got, want[i], f"{what}, row {i}")
    ctx.validate(len(rows))
    return [round(float(w["alkalinity"]), 5) for w in want]


def run(case, ctx):
    import calkulate as calk

    d = folder(ctx)
    kind = case["kind"]
    ctx.state(case)
    ctx.step(2)
    what = str(case)
    if kind == "origin":
        t = content(case["cols"], case["blanks"], d, case["op"])
        ds = make(t, case["origin"], ctx)
        ctx.check(isinstance(ds, calk.Dataset), "class", f"{what}: a {type(ds).__name__}")
        ctx.check(list(ds.columns) == list(t), "columns", f"{what}: columns {list(ds.columns)} instead of {list(t)}")
        for c in t:
            for i in range(N):
                ctx.check(c in ds and util.same(ds[c].iloc[i], t[c][i], 1e-15, 0), "cells", f"{what}: {c} of row {i} is {ds[c].iloc[i]!r} instead of {t[c][i]!r}")
        getattr(ds, case["op"])()
        return verify(ds, case["op"], expected(t, case["op"], ctx), t, ctx, what)
    if kind == "types":
        ty = case["types"]
        cols = [c for c in (ty if isinstance(ty, dict) else COLUMNS) if c in COLUMNS]
        t = content(cols, case["blanks"], d, case["op"])
        df = pd.DataFrame(t)
        if ty == "convert_dtypes":
            df = df.convert_dtypes()
        elif ty == "all-object":
            df = df.astype(object)
        else:
            for c, k in ty.items():
                if c not in df:
                    return "no such column for this operation"
                blank = df[c].isnull().any()
                if blank and k in ("int64", "int8", "bool", "float32"):
                    k = {"int64": "Int64", "int8": "Int8", "bool": "boolean", "float32": "Float32"}[k]
                df[c] = df[c].astype(k) if not (blank and k == "boolean") else pd.array([None if util.blank(v) else bool(v) for v in df[c]], dtype="boolean")
        before = util.snapshot(df)
        ds = calk.Dataset({c: df[c] for c in df}) if case["origin"] == "dict" else calk.Dataset(df)
        getattr(ds, case["op"])()
        ctx.check(util.snapshot(df) == before, "source-table", f"{what}: the table that the Dataset was made from has changed")
        out = verify(ds, case["op"], expected(t, case["op"], ctx), t, ctx, what)
        plain = ds.to_pandas()
        ctx.check(type(plain) is pd.DataFrame, "to_pandas", f"{what}: to_pandas gives a {type(plain).__name__}")
        same = util.snapshot(plain) == util.snapshot(ds)
        ctx.check(same, "to_pandas", f"{what}: to_pandas differs from the Dataset")
        kept = util.snapshot(ds)
        plain.loc[plain.index[0], "alkalinity"] = 1.0
        plain["salinity"] = 1.0
        ctx.check(util.snapshot(ds) == kept, "to_pandas-copy", f"{what}: changing the copy from to_pandas changed the Dataset")
        return out
    if kind == "rows":
        t = content(["analysis_batch", "dic", "pH_max", "file_good"], True, d, "solve")
        t["file_good"] = [True] * N
        t["titrant_molinity"] = [0.1, 0.101, 0.102, 0.0995]
        ds = calk.Dataset(t)
        if case["how"] == "take":
            part = ds.iloc[case["rows"]]
        elif case["how"] == "mask":
            part = ds[[i in case["rows"] for i in range(N)]].loc[case["rows"]]
        else:
            part = pd.concat([ds.iloc[[i]] for i in case["rows"]])
        part = calk.Dataset(part) if case["cls"] == "Dataset" else pd.DataFrame(part)
        whole = util.snapshot(ds)
        res = part.solve() if case["cls"] == "Dataset" else calk.solve(part)
        ctx.check(util.snapshot(ds) == whole, "source-table", f"{what}: solving a part changed the whole table")
        return verify(res, "solve", expected(t, "solve", ctx), t, ctx, what, case["rows"])
    if kind == "columns":
        t = content([c for c in COLUMNS], True, d, "calkulate")
        names = list(t)
        names = names[case["shift"] % len(names):] + names[: case["shift"] % len(names)]
        if case["reverse"]:
            names = names[::-1]
        ds = calk.Dataset({c: t[c] for c in names})
        ds.calkulate()
        return verify(ds, "calkulate", expected(t, "calkulate", ctx), t, ctx, what)
    return OPTIONS[case["which"]](ctx, d)


# ---- options of the readers are those of pandas
def _reader(name, writer, **kw):
    def f(ctx, d):
        import calkulate as calk

        p = ctx.path("t")
        writer(p)
        got = getattr(calk, "read_" + name)(p, **kw)
        want = getattr(pd, "read_" + name)(p, **kw)
        ctx.check(isinstance(got, calk.Dataset), "class", f"read_{name}: a {type(got).__name__}")
        ctx.check(util.snapshot(got) == util.snapshot(want), "reader-options", f"read_{name}({kw}) is {got.to_dict()} instead of {want.to_dict()}")
        ctx.validate()
        return list(map(str, got.columns))
    return f


def _text(s):
    def w(p):
        with open(p, "w") as f:
            f.write(s)
    return w


def _book(p):
    with pd.ExcelWriter(p, engine="openpyxl") as x:
        pd.DataFrame({"a": [1, 2], "b": ["x", None]}).to_excel(x, sheet_name="one", index=False)
        pd.DataFrame({"c": [3.5, 4.5], "d": [5, 6]}).to_excel(x, sheet_name="two", index=False, startrow=2)


_CSV = "a,b,c\n1,x,2.5\n2,,3.5\n003,y,\n"
OPTIONS = {
    "csv": _reader("csv", _text(_CSV)), "csv-index": _reader("csv", _text(_CSV), index_col="b"), "csv-dtype": _reader("csv", _text(_CSV), dtype={"a": str}),
    "csv-usecols": _reader("csv", _text(_CSV), usecols=["a", "c"]), "csv-skip": _reader("csv", _text(_CSV), skiprows=[1]),
    "csv-names": _reader("csv", _text(_CSV), header=0, names=["u", "v", "w"]), "csv-na": _reader("csv", _text(_CSV), na_values=["x"]),
    "csv-nrows": _reader("csv", _text(_CSV), nrows=1),
    "table": _reader("table", _text(_CSV.replace(",", "\t"))), "table-sep": _reader("table", _text(_CSV), sep=","),
    "table-names": _reader("table", _text(_CSV.replace(",", "\t")), header=None, skiprows=1),
    "fwf": _reader("fwf", _text("aaa bbb\n  1   2\n 33  44\n")), "fwf-widths": _reader("fwf", _text("aaabbb\n  1  2\n 33 44\n"), widths=[3, 3]),
    "fwf-colspecs": _reader("fwf", _text("aaabbb\n  1  2\n 33 44\n"), colspecs=[(3, 6), (0, 3)]),
    "excel": _reader("excel", _book, engine="openpyxl"), "excel-sheet": _reader("excel", _book, sheet_name="two", skiprows=2, engine="openpyxl"),
    "excel-usecols": _reader("excel", _book, sheet_name=0, usecols="B", engine="openpyxl"),
}

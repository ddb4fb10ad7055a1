"""C16: a VINDTA database keeps every analysis and names its file."""
import datetime
import os

import numpy as np
import pandas as pd

from .. import gen, util

PROPERTY = "C16"
BOUNDS = {
    "quick": "every sequence of <=2 analyses over 10 kinds x 5 date patterns and of 3 analyses over the kinds, x 3 line endings; "
             "every call option (volume, mass, both, file path, 4 file name formats) x every sequence of <=2 kinds; "
             "every sequence of <=2 kinds imported and then solved from files under the expected names",
    "thorough": "every sequence of 3 analyses over 10 kinds x 5 date patterns; every call option x every sequence of 3 kinds",
}
ASSUMES = ["bottle analyses have whole-number station, cast, niskin and depth, as VINDTA writes them, and a bottle name",
           "dates are MM/DD/YY and times HH:MM or HH:MM:SS, or blank"]
CHUNK = 60

HEAD = ["run type", "bottle", "station", "cast", "niskin", "depth", "i.s. temperature", "salinity", "counts", "CT", "last CRM CT",
        "cert. CRM CT", "last CRM AT", "cert. CRM AT", "batch", "AT", "factor AT", "comment", "Lat.", "date", "time", "cell ID"]

KINDS = {
    "text": {"run type": "bottle", "bottle": "WAL_2018-55", "station": "16", "cast": "5", "niskin": "18", "depth": "300", "salinity": "31.800",
             "cert. CRM AT": "2224.30", "batch": "154", "AT": "2300.5", "comment": "ok (1)", "Lat.": "-12.5", "cell ID": "c_1"},
    "number": {"run type": "bottle", "bottle": "12", "station": "0", "cast": "0", "niskin": "0", "depth": "0", "salinity": "35.000",
               "cert. CRM AT": "2224.30", "batch": "154", "AT": "NaN", "counts": "17", "cell ID": "c_1"},
    "zeros": {"run type": "bottle", "bottle": "0012", "station": "666", "cast": "1", "niskin": "2", "depth": "3", "salinity": "34.5",
              "cert. CRM AT": "2224.30", "batch": "154", "comment": "x y", "cell ID": "7"},
    "nobatch": {"run type": "bottle", "bottle": "B#7", "station": "3", "cast": "2", "niskin": "1", "depth": "1500", "salinity": "34.5", "cell ID": "c_2"},
    "crm": {"run type": "CRM", "bottle": "0884", "salinity": "33.459", "cert. CRM CT": "2034.00", "cert. CRM AT": "2218.40", "batch": "190",
            "AT": "2247.63", "last CRM AT": "2247.63", "cell ID": "none"},
    "crm2": {"run type": "CRM", "bottle": "1054", "salinity": "33.4", "cert. CRM AT": "2205.12", "batch": "204", "comment": "open"},
    "crmtext": {"run type": "CRM", "bottle": "1054b", "salinity": "33.4", "cert. CRM AT": "2205", "batch": "204", "station": "9", "cast": "9"},
    "junk": {"run type": "junk", "bottle": "J1", "station": "1", "cast": "1", "niskin": "1", "depth": "1", "salinity": "35", "batch": "154", "cert. CRM AT": "2224.30"},
    "spaced": {"run type": "bottle", "bottle": " 5 a#2", "station": "12", "cast": "1", "niskin": "24", "depth": "4800", "salinity": "34.9", "comment": " #1; ok ", "cell ID": "c"},
    "notype": {"bottle": "9", "salinity": "35"},
}
DATES = {
    "full": ("08/13/18", "11:02", (2018, 8, 13, 11, 2, 0)),
    "early": ("01/02/05", "00:00", (2005, 1, 2, 0, 0, 0)),
    "seconds": ("12/31/23", "23:59:58", (2023, 12, 31, 23, 59, 58)),
    "notime": ("02/29/20", "", None),
    "nodate": ("", "09:15", None),
    "none": ("", "", None),
}
ENDS = ["", "\t", "\t\t"]
FORMATS = ["{s}-{c}  {n}  ({d}){b}.dat", "{s}-{c} {n} ({d}){b}.dat", "{b}_{s}.txt", "sub/{d}.{n}-{b}.dat"]
CALLS = [{}, {"analyte_volume": 97.7}, {"analyte_mass": 0.1}, {"analyte_mass": 0.1, "analyte_volume": 97.7}, {"file_path": "here"},
         {"filename_format": FORMATS[1]}, {"filename_format": FORMATS[2], "file_path": "here"}, {"filename_format": FORMATS[3], "analyte_mass": 0.05}]


def cases(tier):
    kinds = list(KINDS)
    dates = list(DATES)
    al = [(k, d) for k in kinds for d in dates]
    out = []
    for i, a in enumerate(al):
        for e in ENDS:
            out.append({"rows": [a], "end": e})
    pairs = [[a, b] for a in al for b in al]
    out += [{"rows": p, "end": ENDS[(i + i // 7) % 3]} for i, p in enumerate(pairs)]
    n = 0
    for a in kinds:
        for b in kinds:
            for c in kinds:
                if tier == "thorough":
                    for x in dates:
                        for y in dates:
                            for z in dates:
                                n += 1
                                out.append({"rows": [(a, x), (b, y), (c, z)], "end": ENDS[n % 3]})
                else:
                    for e in ENDS:
                        n += 1
                        out.append({"rows": [(a, dates[n % 6]), (b, dates[(n // 6) % 6]), (c, dates[(n + 3) % 6])], "end": e})
    for i in range(len(CALLS)):
        for a in kinds:
            out.append({"rows": [(a, "full")], "end": "\t", "call": i})
            for b in kinds:
                out.append({"rows": [(a, "full"), (b, "none")], "end": "\t", "call": i})
                if tier == "thorough":
                    out += [{"rows": [(a, "full"), (b, "none"), (c, "early")], "end": "\t", "call": i} for c in kinds]
    for a in kinds:
        for b in kinds:
            out.append({"rows": [(a, "full"), (b, "early")], "end": "\t", "solve": True})
    # 4 analyses with different values of the same kind
    return out


def cells(rows):
    """Text of each analysis; repeated kinds get different numbers."""
    out = []
    for i, (k, d) in enumerate(rows):
        r = dict(KINDS[k])
        if i:
            r["AT"] = f"{2100 + i}.25"
            if r.get("station"):
                r["station"] = str(int(r["station"]) + i)
            if r.get("cert. CRM AT"):
                r["cert. CRM AT"] = f"{2200 + i}.5"
            r["counts"] = str(i)
        r["date"], r["time"] = DATES[d][0], DATES[d][1]
        out.append(r)
    return out


def expected(r, fmt):
    kind = r.get("run type")
    if kind == "bottle":
        return True, fmt.format(s=int(r["station"]), c=int(r["cast"]), n=int(r["niskin"]), d=int(r["depth"]), b=r["bottle"]), np.nan
    if kind == "CRM":
        return True, f"CRM{r['batch']}{r['bottle']}.dat", float(r["cert. CRM AT"])
    return False, None, np.nan


def agrees(v, text):
    if text in ("", "NaN", None):
        return util.blank(v)
    if isinstance(v, str) and v == text:
        return True
    try:
        return float(v) == float(text)
    except (TypeError, ValueError):
        return str(v) == text


def run(case, ctx):
    import calkulate as calk

    d = ctx.dir()
    rows = cells(case["rows"])
    name = os.path.join(d, "x.dbs")
    with open(name, "w") as f:
        f.write("\t".join(HEAD) + "\n")
        for r in rows:
            f.write("\t".join(r.get(h, "") for h in HEAD) + case["end"] + "\n")
    text = open(name).read()
    kw = dict(CALLS[case.get("call", 0)])
    if case.get("solve"):
        kw["file_path"] = os.path.join(d, "dat")
    ds = calk.read_dbs(name, **kw)
    ctx.state(case)
    ctx.step(len(rows))
    ctx.validate()
    ctx.check(open(name).read() == text, "file", "the database was changed")
    ctx.check(isinstance(ds, calk.Dataset), "type", f"{type(ds)} returned")
    if not ctx.check(len(ds) == len(rows), "rows", f"{case}: {len(ds)} rows instead of {len(rows)}"):
        return None
    fmt = kw.get("filename_format", FORMATS[0])
    for i, r in enumerate(rows):
        what = f"{case} analysis {i}"
        for h in HEAD:
            c = "run_type" if h == "run type" else h
            if not ctx.check(c in ds.columns, "column", f"{what}: no column {c}"):
                continue
            ctx.check(agrees(ds[c].iloc[i], r.get(h, "")), "value", lambda: f"{what}: {c} is {ds[c].iloc[i]!r}, the file has {r.get(h, '')!r}")
        good, fn, cert = expected(r, fmt)
        ctx.check(bool(ds.file_good.iloc[i]) == good, "file_good", f"{what}: file_good is {ds.file_good.iloc[i]}")
        if good:
            ctx.check(ds.file_name.iloc[i] == fn, "file_name", f"{what}: file name {ds.file_name.iloc[i]!r}, expected {fn!r}")
        got = ds.alkalinity_certified.iloc[i] if "alkalinity_certified" in ds.columns else np.nan
        ctx.check(util.same(got, cert, 0, 0), "certified", f"{what}: alkalinity_certified {got}, expected {cert}")
        when = DATES[case["rows"][i][1]][2]
        dt = ds.analysis_datetime.iloc[i]
        num = ds.analysis_datenum.iloc[i]
        if when is None:
            ctx.check(pd.isnull(dt) and pd.isnull(num), "datetime", f"{what}: date-time {dt}, {num} without date and time")
        else:
            w = datetime.datetime(*when)
            ctx.check(not pd.isnull(dt) and pd.Timestamp(dt) == pd.Timestamp(w), "datetime", f"{what}: date-time {dt}, expected {w}")
            days = (w - datetime.datetime(1970, 1, 1)).total_seconds() / 86400
            ctx.check(abs(num - days) < 1e-8, "datenum", f"{what}: date number {num}, expected {days}")
        mass, vol = kw.get("analyte_mass"), kw.get("analyte_volume", 100.0)
        got = {c: (ds[c].iloc[i] if c in ds.columns else np.nan) for c in ("analyte_mass", "analyte_volume")}
        if mass is None:
            ctx.check(got["analyte_volume"] == vol and util.blank(got["analyte_mass"]), "size", f"{what}: {got}, expected volume {vol}")
        else:
            # the mass decides; a volume beside it is harmless
            ctx.check(got["analyte_mass"] == mass, "size", f"{what}: {got}, expected mass {mass}")
        if "file_path" in kw:
            ctx.check(ds.file_path.iloc[i] == kw["file_path"], "file_path", f"{what}: file path {ds.file_path.iloc[i]}")
    ctx.check(list(ds.index) == list(range(len(rows))), "index", f"{case}: index {list(ds.index)}")
    if case.get("solve"):
        solve(case, ctx, ds, rows, kw)
    return [list(ds.file_name), [bool(x) for x in ds.file_good]]


def solve(case, ctx, ds, rows, kw):
    os.mkdir(kw["file_path"])
    for i, r in enumerate(rows):
        good, fn, _ = expected(r, FORMATS[0])
        if good:
            gen.put(kw["file_path"], fn, gen.titration(alk=2280.0 + 30 * i, n=16, mode="pH", noisy=False, digits=4))
    certified = [expected(r, FORMATS[0])[2] for r in rows]
    o = {"solve_mode": "pH", "titrant_amount_unit": "g"}
    if any(c == c for c in certified):
        ds.calkulate(**o)
    else:
        ds["titrant_molinity"] = 0.1
        ds.solve(**o)
    for i, r in enumerate(rows):
        good, fn, cert = expected(r, FORMATS[0])
        a = ds.alkalinity.iloc[i]
        ctx.check(np.isfinite(a) == good, "solve", f"{case} analysis {i}: alkalinity {a} although file_good is {good}")
        g = ds.titrant_molinity_here.iloc[i] if "titrant_molinity_here" in ds.columns else np.nan
        ctx.check(np.isfinite(g) == (cert == cert), "calibrate", f"{case} analysis {i}: individual molinity {g}")

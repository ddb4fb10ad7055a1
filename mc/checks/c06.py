"""C06: row value beats call option beats default; blanks fall through."""
import copy
import itertools
import os

import numpy as np
import pandas as pd

from .. import gen, ref, util

PROPERTY = "C06"
BOUNDS = {
    "quick": "every documented option x (column absent or every table of 2 rows over {first value, second value, blank}) x "
             "(call option absent, or a third value) x 2 kinds of blank, solve and calkulate; old spellings in all placements and combinations; "
             "all ordered pairs of related options, one in the call and one in the table",
    "thorough": "the same plus all ordered pairs of options, one in the call and one in the table (both directions, with the other row blank)",
}
ASSUMES = ["the file interface applies the options it is given; that is checked here against the reference model, too, "
           "for every resolved set of options that the model covers"]
CHUNK = 30
NAN = "NaN"

# ctx: which base row/file; values: first, second (row), third (call)
RICH = {"dic": 2000.0, "total_phosphate": 150.0, "total_silicate": 160.0, "total_ammonia": 170.0, "total_sulfide": 180.0,
        "total_alpha": 190.0, "total_beta": 200.0, "k_alpha": 10 ** -4.0, "k_beta": 10 ** -6.2,
        "titrant_amount_unit": "ml", "pH_min": 3.0, "pH_max": 9.0, "solve_mode": "pH"}
OPTS = {}


def opt(name, values, ctx="rich", drop=(), model=True, **base):
    OPTS[name] = dict(values=values, ctx=ctx, drop=list(drop) + [name], base=base, model=model)


for _t, _v in zip(["total_phosphate", "total_silicate", "total_ammonia", "total_sulfide", "total_alpha", "total_beta"], range(6)):
    opt(_t, [0.0, 120.0 + 30 * _v, 333.0])
opt("dic", [0.0, 1800.0, 2150.0])
opt("total_borate", [0.0, 500.0, 300.0])
opt("total_fluoride", [0.0, 90.0, 700.0])
opt("total_sulfate", [0.0, 20000.0, 9000.0])
_k = {"alpha": -3.7, "beta": -6.5, "ammonia": -9.0, "bisulfate": -0.9, "borate": -8.8, "carbonic_1": -5.9, "carbonic_2": -9.2, "fluoride": -2.7,
      "phosphoric_1": -1.7, "phosphoric_2": -5.9, "phosphoric_3": -8.9, "silicate": -9.2, "sulfide": -6.7, "water": -13.4}
for _n, _e in _k.items():
    opt("k_" + _n, [10 ** _e, 10 ** (_e - 0.3), 10 ** (_e + 0.2)])
opt("opt_k_carbonic", [4, 14, 1])
opt("opt_k_bisulfate", [2, 1, 2])
opt("opt_k_fluoride", [2, 1, 2])
opt("opt_total_borate", [2, 1, 2])
opt("dilute_totals_for_ks", [False, True, True])
opt("titrant_total_sulfate", [0.0, 1.0, 0.4])
opt("titrant_total_phosphate", [0.0, 0.2, 0.1])
opt("titrant_total_fluoride", [0.0, 0.2, 0.1])
opt("titrant_normality", [1, 2.0, 1.5])
opt("pH_min", [0.0, 4.5, 3.3])
opt("pH_max", [0.0, 4.5, 6.3])
opt("solve_mode", ["pH_adjust", "pH_gran", "pH"], model=False, pH_max=4.0)
opt("analyte_mass", [0.11, 0.09, 0.1], analyte_volume=97.0)
opt("analyte_volume", [110.0, 90.0, 100.0], drop=["analyte_mass"])
opt("molinity_HCl", [0.0, 0.3, 0.2])
opt("molinity_NaCl", [0.0, 0.3, 0.9])
opt("molinity_H2SO4", [0.0, 0.6, 0.3], titrant="H2SO4")
opt("titrant", ["H2SO4", "HCl", "H2SO4"], molinity_H2SO4=1.2)
opt("titrant_density", [1.1, 0.9, 1.05])
opt("titrant_amount_unit", ["g", "ml", "kg"], titrant_density=1.05)
opt("temperature_override", [0.0, 30.0, 10.0])
opt("file_path", ["A", "B", "C"])
opt("skip_header", [0, 3, 1], ctx="read")
opt("delimiter", [",", ";", ":"], ctx="delim", skip_header=0)
opt("col_titrant_amount", [0, 4, 1], ctx="read", skip_header=3)
opt("col_measurement", [1, 3, 5], ctx="read", skip_header=3)
opt("col_temperature", [2, 5, 0], ctx="read", skip_header=3)
opt("file_type", ["pclims", "genfromtxt", "tiamo_de"], ctx="ftype")
opt("n_cols", [3, 6, 4], ctx="ncols", file_type="pclims", col_titrant_amount=0, col_measurement=1, col_temperature=2)
opt("encoding", ["utf-16", "latin-1", "utf-8"], ctx="tiamo", file_type="tiamo_de")
opt("double", [False, True, False], ctx="emf")
opt("gran_logic", ["legacy", "v23.7+", "legacy"], ctx="emf", double=False, pH_min=3.1, pH_max=3.9)
opt("emf0_init", [600.0, 618.0, 594.0], ctx="emf", double=False)
# a sensible first guess makes no difference beyond the solver's limits; these two do
opt("alkalinity_init", [float("inf"), 2600.0, float("inf")], ctx="emf", model=False, emf0_init=608.0)
opt("titrant_molinity_init", [10.0, 0.05, 20.0], ctx="emf")
RELATED = [
    ["titrant_density", "titrant_amount_unit", "titrant", "molinity_HCl", "molinity_H2SO4", "molinity_NaCl"],
    ["analyte_mass", "analyte_volume", "temperature_override"],
    ["total_borate", "opt_total_borate", "opt_k_carbonic", "k_borate"],
    ["total_sulfate", "titrant_total_sulfate", "k_bisulfate", "opt_k_bisulfate", "dilute_totals_for_ks"],
    ["total_fluoride", "titrant_total_fluoride", "k_fluoride", "opt_k_fluoride", "opt_k_bisulfate"],
    ["total_phosphate", "titrant_total_phosphate", "k_phosphoric_2", "opt_k_carbonic"],
    ["pH_min", "pH_max", "titrant_normality"],
    ["double", "gran_logic", "emf0_init", "alkalinity_init"],
    ["skip_header", "col_titrant_amount", "col_measurement", "col_temperature"],
]


def cases(tier):
    out = []
    for o in OPTS:
        cols = [None] + [list(c) for c in itertools.product([0, 1, "blank"], repeat=2)]
        for col in cols:
            for kw in (None, 2):
                for bl in ("nan", "none") if col and "blank" in col else ("nan",):
                    for op in ("solve", "calkulate"):
                        out.append({"kind": "one", "opt": o, "col": col, "kw": kw, "blank": bl, "op": op})
    # old spellings
    for op in ("solve", "calkulate"):
        for name, new in (("read_dat_kwargs", "skip_header"), ("read_dat_kwargs", "delimiter"), ("read_dat_kwargs", "col_measurement"),
                          ("read_dat_kwargs", "n_cols"), ("read_dat_kwargs", "encoding"), ("read_dat_kwargs", "file_type"),
                          ("read_dat_method", "file_type")):
            for col in [None, [0, "blank"], ["blank", 1], ["blank", "blank"], [0, 1]]:
                for kw in (0, 1, 2):
                    out.append({"kind": "old", "opt": new, "old": name, "col": col, "kw": kw, "op": op})
        for col in [[0, "blank"], ["blank", 1], ["blank", "blank"], [1, 0]]:  # old name as column
            for kw in (None, 0, 1, 2):
                for kwname in ("file_type", "read_dat_method"):
                    for newcol in (None, [1, "blank"], ["blank", "blank"]):
                        out.append({"kind": "oldcol", "opt": "file_type", "col": col, "kw": kw, "kwname": kwname, "newcol": newcol, "op": op})
        for rng in ([3.3, 6.3], [3.0, 4.5], [0.0, 9.0]):
            for cmin in (None, [3.6, "blank"], ["blank", 4.0]):
                for cmax in (None, [5.0, "blank"], ["blank", 7.0]):
                    out.append({"kind": "range", "range": rng, "cmin": cmin, "cmax": cmax, "op": op})
        # several old spellings in one call, in every order, and each with every other option
        for m in range(2, 4):
            for seq in itertools.permutations(["range", "reads", "method"], m):
                for var in (0, 1):
                    for col in (None, "pH_min", "col_measurement"):
                        out.append({"kind": "mix", "seq": list(seq), "var": var, "col": col, "op": op})
        for name, o in OPTS.items():
            if o["ctx"] not in ("rich", "read") or name in ("analyte_mass", "analyte_volume", "file_path"):
                continue
            for old in ("range", "reads", "method"):
                if (old, name) in (("range", "pH_min"), ("range", "pH_max")):
                    continue
                for first in (0, 1):
                    seq = [old, "option"] if first else ["option", old]
                    for var in (0, 1) if old == "reads" else (0,):
                        out.append({"kind": "mix", "seq": seq, "var": var, "col": None, "option": name, "op": op})
    pairs = []
    if tier == "thorough":
        names = list(OPTS)
        pairs = [(a, b) for a in names for b in names if a != b]
    else:
        for g in RELATED:
            pairs += [(a, b) for a in g for b in g if a != b]
    for a, b in pairs:
        ca, cb = OPTS[a]["ctx"], OPTS[b]["ctx"]
        if ca != cb and "rich" not in (ca, cb):
            continue
        for op in ("solve", "calkulate"):
            for va in (0, 1):
                for vb in (0, 1):
                    if {a, b} == {"molinity_HCl", "molinity_NaCl"} and va == vb == 0:
                        continue  # a titrant without any solute
                    out.append({"kind": "pair", "opt": a, "opt2": b, "va": va, "vb": vb, "op": op})
    return out


_made = {}
_memo = {}


def setup(ctx):
    if ctx.scratch in _made:
        return _made[ctx.scratch]
    d = os.path.join(ctx.scratch, "keep-files")
    os.makedirs(d)
    n = 24
    o = {k: v for k, v in RICH.items() if k.startswith(("total", "dic", "k_"))}
    t0, t1 = (gen.titration(alk=2400 + 60 * i, mode="pH", n=n, top=7.2, which=i, opts=o) for i in (0, 1))
    t = [t0, t1]
    for j, sub in enumerate(["", "A", "B", "C"]):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        for i in (0, 1):
            a, m, tt = t[i]
            gen.put(os.path.join(d, sub), f"rich{i}.dat", (a, m + 0.01 * j, tt))
    for i in (0, 1):
        a, m, tt = t[i]
        # three numeric header lines; six columns that each could be an amount, a measurement and a temperature
        rows = [[0.0, 7.9, 25.0, 7.91, 0.0, 25.5]] * 3 + [[x, y, z, y + 0.02, 1.02 * x, z + 2.0] for x, y, z in zip(a, m, tt)]
        with open(os.path.join(d, f"read{i}.dat"), "w") as f:
            f.write("\n".join("\t".join(map(repr, map(float, r))) for r in rows) + "\n")
        # each delimiter gives three numbers in some lines only; the others have too few numbers
        for s, name in ((",", "c"), (";", "s"), (":", "k"), ("\t", "t")):
            os.makedirs(os.path.join(d, "delim"), exist_ok=True)
            with open(os.path.join(d, "delim", f"{i}{name}.dat"), "w") as f:
                f.write("\n".join(s.join(map(repr, map(float, r))) for r in zip(a, m, tt)) + "\n")
        # a file that is valid both for PC LIMS and for genfromtxt, with different columns
        with open(os.path.join(d, f"ftype{i}.dat"), "w") as f:
            f.write("$S\n$S\n" + "\n".join("%r\t%r\t%r\t0.5\t0.5\t%r" % tuple(map(float, r)) for r in zip(a, a + 0.01, m, tt)) + "\n")
        # lines of three, then four, then six columns: n_cols decides where the data begin and end
        def tab(k, r):
            r = [repr(float(x)) for x in r] + ["1.5", "2.5", "3.5"]
            return "\t".join(r[:k])
        dat = list(zip(a, m, tt))
        with open(os.path.join(d, f"ncols{i}.dat"), "w") as f:
            lines = ["$S"] + [tab(3, r) for r in dat[:12]] + ["$E"] if i else ["$S"] + [tab(6, r) for r in dat] + ["$E"]
            f.write("\n".join(lines) + "\n")
        for enc in ("utf-16", "latin-1", "utf-8"):
            gen.write_tiamo(os.path.join(d, f"x{i}"), t[i])
            s = open(os.path.join(d, f"x{i}"), encoding="latin-1").read()
            os.makedirs(os.path.join(d, "tiamo"), exist_ok=True)
            open(os.path.join(d, "tiamo", f"{i}{enc}.dat"), "w", encoding=enc).write(s)
        a, m, tt = gen.titration(alk=2400 + 60 * i, mode="emf", n=n, top=5.4, which=i)
        m[-2:] += 6.0  # the last points are off, so that the Gran selections differ
        gen.put(d, f"emf{i}.dat", (a, m, tt))
    _made[ctx.scratch] = d
    return d


def rows_for(case, d, o):
    kind, op = o["ctx"], case["op"]
    rows = []
    for i in (0, 1):
        r = {"salinity": [34.0, 36.0][i], "analyte_mass": 0.1, "file_path": d}
        r.update(RICH)
        if kind == "rich":
            r["file_name"] = f"rich{i}.dat"
        elif kind == "delim":
            r["file_name"] = os.path.join("delim", f"{i}{'cskt'[i]}.dat")
        elif kind == "tiamo":
            r["file_name"] = os.path.join("tiamo", f"{i}{['utf-16', 'latin-1'][i]}.dat")
        else:
            r["file_name"] = f"{kind}{i}.dat"
        if kind == "emf":
            for k in RICH:
                del r[k]
            r["titrant_amount_unit"] = "g"
        r.update(o["base"])
        for k in o["drop"]:
            r.pop(k, None)
        if op == "solve":
            r["titrant_molinity"] = 0.1
        else:
            r["alkalinity_certified"] = [2380.0, 2470.0][i]
        rows.append(r)
    return rows


def value(name, v, d):
    if name == "file_path":
        return os.path.join(d, v)
    return v


def put(rows, name, col, vals, d, bl):
    for r, c in zip(rows, col):
        if c == "blank":
            r[name] = None if bl == "none" else np.nan
        else:
            r[name] = value(name, vals[c] if isinstance(c, int) else c, d)


def build(case, d):
    """rows, call options, and the (model) option under test"""
    kw = {}
    bl = case.get("blank", "nan")
    if case["kind"] == "range":
        o = dict(OPTS["pH_min"], drop=["pH_min", "pH_max"])
        rows = rows_for(case, d, o)
        kw["pH_range"] = tuple(case["range"])
        for nm, key in (("pH_min", "cmin"), ("pH_max", "cmax")):
            if case[key]:
                put(rows, nm, case[key], None, d, bl)
        return rows, kw, o
    if case["kind"] == "mix":
        base = {"skip_header": 3}
        drop = []
        for x in case["seq"]:
            if x == "range":
                kw["pH_range"] = [(3.3, 6.3), (3.0, 4.6)][case["var"]]
                drop += ["pH_min", "pH_max"]
            elif x == "reads":
                kw["read_dat_kwargs"] = [{"skip_header": 4}, {"skip_header": 5, "col_measurement": 3}][case["var"]]
                drop += list(kw["read_dat_kwargs"])
            elif x == "method":
                kw["read_dat_method"] = "genfromtxt"
            else:
                oo = OPTS[case["option"]]
                if case["option"] in kw.get("read_dat_kwargs", {}) or (case["seq"][-1] == "reads" and case["option"] in ("skip_header", "col_measurement")):
                    kw["alkalinity_init"] = 2300.0  # the same option twice: not stated which counts
                else:
                    base.update(oo["base"])
                    kw[case["option"]] = oo["values"][2]
                drop += oo["drop"]
        o = dict(ctx="read", drop=drop, base={k: x for k, x in base.items() if k not in drop}, model=case.get("option") != "solve_mode")
        rows = rows_for(case, d, o)
        if case["col"]:
            put(rows, case["col"], [0, "blank"], {"pH_min": [3.7], "col_measurement": [1]}[case["col"]], d, bl)
        return rows, kw, o
    o = OPTS[case["opt"]]
    v = o["values"]
    if case["kind"] == "pair":
        o2 = OPTS[case["opt2"]]
        c = o["ctx"] if o["ctx"] != "rich" else o2["ctx"]
        base = dict(o2["base"], **o["base"])
        merged = dict(ctx=c, drop=o["drop"] + o2["drop"], base={k: x for k, x in base.items() if k not in o["drop"] + o2["drop"]},
                      model=o["model"] and o2["model"])
        rows = rows_for(case, d, merged)
        put(rows, case["opt2"], [case["vb"], "blank"], o2["values"], d, bl)
        kw[case["opt"]] = value(case["opt"], v[case["va"]], d)
        if "analyte_mass" in merged["drop"]:
            for r in rows:  # some size is always in the table
                if "analyte_mass" not in r and util.blank(r.get("analyte_volume")):
                    r["analyte_volume"] = 98.0
        return rows, kw, merged
    rows = rows_for(case, d, o)
    if case["opt"] == "analyte_volume" and case["col"] is None:
        for r in rows:
            r["analyte_mass"] = np.nan
    if case["kind"] == "one":
        if case["col"]:
            put(rows, case["opt"], case["col"], v, d, bl)
        if case["kw"] is not None:
            kw[case["opt"]] = value(case["opt"], v[case["kw"]], d)
    elif case["kind"] == "old":
        if case["col"]:
            put(rows, case["opt"], case["col"], v, d, bl)
        if case["old"] == "read_dat_kwargs":
            kw["read_dat_kwargs"] = {case["opt"]: v[case["kw"]]}
        else:
            kw[case["old"]] = v[case["kw"]]
    elif case["kind"] == "oldcol":
        put(rows, "read_dat_method", case["col"], v, d, bl)
        if case["newcol"]:
            put(rows, "file_type", case["newcol"], v, d, bl)
        if case["kw"] is not None:
            kw[case["kwname"]] = v[case["kw"]]
    return rows, kw, o


def model_read(path, o):
    """Independent reader for the files made above."""
    ft = o.get("file_type", "genfromtxt")
    if ft == "tiamo_de":
        lines = open(path, encoding=o.get("encoding", "latin-1")).read().splitlines()
        g = lines.index("Gran.1")
        start = float(lines[g - 3].split(";")[2])
        rows = [[float(x) for x in ln.split(";")] for ln in lines[g + 2:]]
        return [np.array(c) for c in ([r[0] + start for r in rows], [r[1] for r in rows], [r[4] for r in rows])]
    lines = open(path).read().splitlines()
    if ft == "pclims":
        n = int(o.get("n_cols", 6))
        cols = [int(o.get(k, dflt)) for k, dflt in (("col_titrant_amount", 1), ("col_measurement", 2), ("col_temperature", 5))]
        rows = [ln.split("\t") for ln in lines if ln[:1] not in "$" and ln.count("\t") >= n - 1]
        rows = [[float(x) for x in r] for r in rows]
    else:
        cols = [int(o.get(k, dflt)) for k, dflt in (("col_titrant_amount", 0), ("col_measurement", 1), ("col_temperature", 2))]
        rows = [[float(x) for x in ln.split(o.get("delimiter", "\t"))] for ln in lines[int(o.get("skip_header", 2)):]]
    return [np.array([r[c] for r in rows]) for c in cols]


def memo(key, f):
    if key not in _memo:
        if len(_memo) > 3000:
            _memo.clear()
        _memo[key] = f()
    return _memo[key]


def frozen(o):
    return tuple(sorted((k, repr(v)) for k, v in o.items()))


def run(case, ctx):
    d = setup(ctx)
    rows, kw, o = build(case, d)
    import calkulate as calk

    cols = []
    for r in rows:
        cols += [k for k in r if k not in cols]
    data = {}
    for c in cols:
        vals = [r.get(c, np.nan) for r in rows]
        data[c] = pd.Series(vals, dtype=object) if any(v is None for v in vals) else vals
    ds = calk.Dataset(data)
    ctx.state(case)
    ctx.step(2)
    what = f"{case} call options {kw}"
    getattr(ds, case["op"])(**copy.deepcopy(kw))
    for i, r in enumerate(rows):
        r = {k: v for k, v in r.items() if not util.blank(v)}
        if case["op"] == "calkulate":
            full = util.resolve(r, kw, util.CAL_KEYS)
            k = ("cal", ctx.scratch, r["file_name"], frozen(full))
            want = memo(k, lambda: util.calibrate_alone(r, kw))
            ctx.close("calibration", ds.titrant_molinity_here.iloc[i], want, 0, 1e-6, f"{what} row {i} titrant_molinity_here")
            if o["model"]:
                def model():
                    try:
                        dat = model_read(os.path.join(full["file_path"], r["file_name"]), full)
                        return ref.calibrate(dat, r["alkalinity_certified"], r["salinity"], full)
                    except Exception:
                        return np.nan
                wm = memo(("m",) + k, model)
                if want == want and wm == wm:
                    ctx.close("calibration model", ds.titrant_molinity_here.iloc[i], wm, 0, 2e-5, f"{what} row {i} titrant_molinity_here")
            mol = float(ds.titrant_molinity.iloc[i])
        else:
            mol = r["titrant_molinity"]
        full = util.resolve(r, kw)
        k = ("solve", ctx.scratch, r["file_name"], mol, frozen(full))
        want = memo(k, lambda: util.solve_alone(r, kw, mol))
        util.compare_dicts(ctx, "solution", util.results(ds, i, util.RESULTS), want, f"{what} row {i}")
        if o["model"] and mol == mol:
            def model():
                try:
                    dat = model_read(os.path.join(full["file_path"], r["file_name"]), full)
                    s = ref.solve(dat, mol, r["salinity"], full)
                    if s is None:
                        return None
                    return [float(s.alkalinity), float(np.sum(s.used)), float(s.pH[0]), float(s.temp[0])] + (
                        [s.gran.alkalinity * 1e6, s.gran.emf0] if hasattr(s, "gran") else [])
                except Exception:
                    return "cannot"
            wm = memo(("m",) + k, model)
            got = util.results(ds, i, ["alkalinity", "alkalinity_npts", "pH_init", "temperature_init", "gran_alkalinity", "gran_emf0"])
            got = list(got.values())
            if wm is None or wm == "cannot":
                ctx.check(got[0] != got[0], "solution model", f"{what} row {i}: alkalinity {got[0]} although the model has none")
            else:
                if "emf" == o["ctx"]:
                    ctx.close("solution model", got, wm, 0.02, 0, f"{what} row {i} alkalinity, npts, pH_init, temperature_init, Gran")
                else:
                    ctx.close("solution model", got[:4], wm[:4], 0.01, 0, f"{what} row {i} alkalinity, npts, pH_init, temperature_init")
            ctx.validate()
    util.intact(ctx, ds, rows, what)
    return [util.results(ds, i)["alkalinity"] for i in (0, 1)]

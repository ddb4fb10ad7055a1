"""C07: results depend on current metadata, not on processing history."""
import os

import numpy as np
import PyCO2SYS as pyco2

from .. import framework as fw
from .. import gen, ref, util

PROPERTY = "C07"
BOUNDS = {
    "quick": "21 actions (calibrate, solve, calkulate with and without call options, extracting a titration, plots, saving and reloading "
             "the table, reordering it, and 12 corrections of cells or files): every history of a first run (3 kinds), 2 further actions and a "
             "final calkulate, every history calkulate, any action, any of 3 runs, any action, calkulate, and every history of 4 without calibrations "
             "for a given titrant molinity; each re-executed from a new dataset; every run inside a history is compared with a fresh dataset "
             "and with the reference model (adjacent corrections commute, one order is explored)",
    "thorough": "every history of a first run (3 kinds), 3 further actions and a final calkulate; histories of 5 for a given titrant molinity",
}
ASSUMES = ["the fresh dataset of the comparison has its own copies of the files"]
CHUNK = 120
RUNS = ["calkulate", "calibrate", "solve", "calkulate kw", "solve kw"]
KW = {"pH_min": 3.2, "total_fluoride": 60.0}
EDITS = ["salinity", "analyte_mass", "reference_good", "file_good", "certified", "batch", "replace file", "remove file",
         "pH_max", "dic", "file_name", "analyte_volume"]
OTHER = ["to_Titration", "plots", "reload", "reverse"]
ACTIONS = RUNS + OTHER + EDITS
SALTS = ["total_sulfate", "total_borate", "total_fluoride"]


FIRST = ["calkulate", "calibrate", "calkulate kw"]


def useful(seq):
    """False if the history is equivalent to another one that is explored: adjacent corrections
    concern different cells or files and commute; the same correction twice undoes itself."""
    for a, b in zip(seq, seq[1:]):
        if a in EDITS and b in EDITS and EDITS.index(a) >= EDITS.index(b):
            return False
        if a == b and a in ("to_Titration", "plots", "reload", "reverse"):
            return False
    return True


def cases(tier):
    th = tier == "thorough"
    out, seen = [], set()

    def add(seq, given=False):
        k = (tuple(seq), given)
        if k not in seen and useful(seq):
            seen.add(k)
            out.append({"actions": list(seq), "given": given})

    for f in FIRST:
        for s in fw.sequences(ACTIONS, 3 if th else 2, 3 if th else 2):
            add([f] + s)
    for a in ACTIONS:
        for r in ("calkulate", "calibrate", "solve"):
            for b in ACTIONS:
                add(["calkulate", a, r, b])
    alone = ["solve", "solve kw"] + OTHER + EDITS
    for s in fw.sequences(alone, 3 if th else 2, 3 if th else 2):
        add(["solve"] + s, True)
    return out


def content(name, version):
    i = {"r0.dat": 0, "r1.dat": 1, "s.dat": 2, "s2.dat": 3}[name]
    if i >= 2:
        return gen.titration(alk=2300 + 30 * i, mode="emf", n=20, top=4.0, which=i)
    return gen.titration(alk=2230 + 30 * i + 25 * version, mode="pH", n=20, top=4.2, which=i + 3 * version)


_content = {}


def dat(name, version):
    k = (name, version)
    if k not in _content:
        _content[k] = content(name, version)
    return _content[k]


class Model:
    """The user's own knowledge: metadata and files."""

    def __init__(self):
        b = {"salinity": 35.0, "titrant_amount_unit": "g", "file_good": True, "reference_good": True, "analysis_batch": 1,
             "analyte_mass": np.nan, "analyte_volume": np.nan, "alkalinity_certified": np.nan, "note": "as is"}
        self.rows = [
            dict(b, file_name="r0.dat", solve_mode="pH", analyte_mass=0.1, alkalinity_certified=2240.0),
            dict(b, file_name="r1.dat", solve_mode="pH", analyte_mass=0.102, alkalinity_certified=2260.0, analysis_batch=2),
            dict(b, file_name="s.dat", solve_mode="emf", analyte_volume=97.7),
        ]
        self.files = {"r0.dat": 0, "r1.dat": 0, "s.dat": 0, "s2.dat": 0}
        self.extra = []  # columns that the user adds later
        self.est = [dict() for _ in self.rows]  # salts estimated when the row was first processed (open finding)

    def find(self, certified):
        """Position of a row by its identity (rows can be reordered)."""
        return [i for i, r in enumerate(self.rows) if r["file_name"] in ({0: ["r0.dat"], 1: ["r1.dat"], 2: ["s.dat", "s2.dat"]}[certified])][0]

    def meta(self):
        return [dict(r) for r in self.rows]


def write(d, name, version, keep_time=None):
    p = os.path.join(d, name)
    if version is None:
        if os.path.exists(p):
            os.remove(p)
        return
    st = os.stat(p) if os.path.exists(p) else None
    gen.write_genfromtxt(p, dat(name, version))
    if st:
        os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))  # a replaced file need not look new


def edit(m, ds, what, d):
    """The correction, both in the table and in the model."""
    def cell(i, col, v):
        m.rows[i][col] = v
        for r in m.rows:
            r.setdefault(col, np.nan)
        if col not in ds:
            ds[col] = np.nan
        c = list(ds.columns).index(col)
        ds.iloc[i, c] = v

    if what == "salinity":
        i = m.find(0)
        cell(i, "salinity", 30.0 if m.rows[i]["salinity"] == 35.0 else 35.0)
    elif what == "analyte_mass":
        i = m.find(0)
        cell(i, "analyte_mass", 0.103 if m.rows[i]["analyte_mass"] == 0.1 else 0.1)
    elif what == "reference_good":
        i = m.find(0)
        cell(i, "reference_good", not m.rows[i]["reference_good"])
    elif what == "file_good":
        i = m.find(1)
        cell(i, "file_good", not m.rows[i]["file_good"])
    elif what == "certified":
        i = m.find(1)
        cell(i, "alkalinity_certified", np.nan if m.rows[i]["alkalinity_certified"] == 2260.0 else 2260.0)
    elif what == "batch":
        i = m.find(2)
        cell(i, "analysis_batch", 3 - m.rows[i]["analysis_batch"])
    elif what == "replace file":
        m.files["r0.dat"] = 1 - m.files["r0.dat"]
        write(d, "r0.dat", m.files["r0.dat"])
    elif what == "remove file":
        m.files["r1.dat"] = 0 if m.files["r1.dat"] is None else None
        write(d, "r1.dat", m.files["r1.dat"])
    elif what == "pH_max":
        i = m.find(1)
        cell(i, "pH_max", 3.7 if util.blank(m.rows[i].get("pH_max", np.nan)) else np.nan)
    elif what == "dic":
        i = m.find(2)
        cell(i, "dic", 400.0 if m.rows[i].get("dic", 0.0) != 400.0 else 0.0)
    elif what == "file_name":
        i = m.find(2)
        cell(i, "file_name", "s2.dat" if m.rows[i]["file_name"] == "s.dat" else "s.dat")
    elif what == "analyte_volume":
        i = m.find(2)
        cell(i, "analyte_volume", 100.0 if m.rows[i]["analyte_volume"] == 97.7 else 97.7)


_fresh = {}


def fresh(ctx, m, op, kw, mols, salts=None):
    """Results of a freshly built dataset with the same metadata and files."""
    key = (ctx.scratch, repr(m.rows), repr(sorted(m.files.items(), key=str)), op, repr(kw), repr(mols), repr(salts))
    if key not in _fresh:
        if len(_fresh) > 4000:
            _fresh.clear()
        d = ctx.dir()
        for n, v in m.files.items():
            if v is not None:
                write(d, n, v)
        rows = m.meta()
        for i, r in enumerate(rows):
            r["file_path"] = d
            if mols is not None:
                r["titrant_molinity"] = mols[i]
            if salts:
                r.update(salts[i])
        ds = util.frame(rows)
        getattr(ds, op)(**kw)
        keys = util.RESULTS + ["titrant_molinity"] + (["titrant_molinity_here"] if op != "solve" else []) + ["alkalinity_offset"]
        _fresh[key] = [util.results(ds, i, keys) for i in range(len(rows))]
    return _fresh[key]


_model = {}


def model_solution(m, i, kw, mol, salts=None):
    r = m.rows[i]
    v = m.files[r["file_name"]]
    if v is None or util.blank(mol) or not r["file_good"]:
        return np.nan
    o = util.resolve(dict(r, **(salts or {})), kw)
    key = (repr(o), r["salinity"], r["file_name"], v, mol)
    if key not in _model:
        if len(_model) > 4000:
            _model.clear()
        s = ref.solve(dat(r["file_name"], v), mol, r["salinity"], o)
        _model[key] = np.nan if s is None else float(s.alkalinity)
    return _model[key]


def run(case, ctx):
    import calkulate as calk
    from matplotlib import pyplot as plt

    m = Model()
    d = ctx.dir()
    for n, v in m.files.items():
        write(d, n, v)
    last = "calkulate"
    if case["given"]:
        last = "solve"
        for r, x in zip(m.rows, (0.1003, 0.0996, 0.1011)):
            r["titrant_molinity"] = x
    ds = util.frame([dict(r, file_path=d) for r in m.meta()])
    actions = list(case["actions"])
    if actions[-1] != last:
        actions.append(last)
    out = []
    for k, a in enumerate(actions):
        done = actions[: k + 1]
        ctx.step()
        ctx.state(done, repr(m.rows))
        if a in EDITS:
            edit(m, ds, a, d)
            continue
        if a == "reload":
            p = os.path.join(d, "table.csv")
            ds.to_csv(p, index=False)
            ds = calk.read_csv(p)
            continue
        if a == "reverse":
            ds = calk.Dataset(ds.iloc[::-1])
            m.rows.reverse()
            m.est.reverse()
            continue
        before = util.snapshot(ds)
        if a == "to_Titration":
            i = m.find(2)
            if "titrant_molinity" in ds and not util.blank(ds.titrant_molinity.iloc[i]):
                tt = ds.to_Titration(ds.index[i])
                s = model_solution(m, i, {}, float(ds.titrant_molinity.iloc[i]))
                ctx.close("titration", tt.alkalinity, s, 0.05, 0, f"Titration after {done}")
        elif a == "plots":
            if "titrant_molinity_here" in ds:
                ds.plot_titrant_molinity()
                ds.plot_alkalinity_offset()
                plt.close("all")
        if a in OTHER:
            ctx.check(util.snapshot(ds) == before, "changed", f"{a} changed the table, after {done}")
            continue
        op, kw = a.split()[0], dict(KW) if a.endswith("kw") else {}
        mols = None
        if op == "solve":
            if "titrant_molinity" not in ds:
                continue  # nothing to solve with
            mols = [float(x) for x in ds.titrant_molinity]
        getattr(ds, op)(**kw)
        # salts that were blank have been filled in with the estimates of this run
        salt_now = [dict(e) for e in m.est]
        for r, e in zip(m.rows, m.est):
            res = None
            for s in SALTS:
                if s not in e and s not in kw:
                    if res is None:
                        res = pyco2.sys(salinity=r["salinity"], opt_k_carbonic=10, opt_total_borate=1)
                    e[s] = float(res[s])
        want = fresh(ctx, m, op, kw, mols)
        keys = list(want[0])
        got = [util.results(ds, i, keys) for i in range(len(ds))]
        tag = f"{a} after {done[:-1]}"

        def differ(w):
            return [(i, c, got[i][c], w[i][c]) for i in range(len(w)) for c in keys
                    if not util.same(got[i][c], w[i][c], 1e-9, util.slack(c, w[i]))]

        bad, stale = differ(want), False
        if bad and any(salt_now):
            # the estimates of an earlier run are used although the salinity or the options have changed since
            if not differ(fresh(ctx, m, op, kw, mols, salt_now)):
                ctx.fail("stale-salt-estimates", f"{tag}: {bad[0]}")
                bad, stale = [], True
        if a == "solve" and not stale and k and actions[k - 1] == "calibrate":
            # both steps in turn equal both at once
            both = fresh(ctx, m, "calkulate", kw, None)
            two = [(i, c) for i in range(len(ds)) for c in both[i]
                   if not util.same(float(ds[c].iloc[i]), both[i][c], 1e-9, util.slack(c, both[i]))]
            if two:
                ctx.fail("two steps", f"{tag}: {two[:3]} differ from calkulate on a fresh dataset")
        for i, c, g, w in bad[:2]:
            ctx.fail("history", f"{tag}: {c} of row {i} is {g}, a fresh dataset gives {w}")
        # the reference model, for the rows that have a solution
        for i in range(len(ds)):
            mol = float(ds.titrant_molinity.iloc[i])
            w = model_solution(m, i, kw, mol, salt_now[i] if stale else None)
            ctx.close("model", got[i]["alkalinity"], w, 0.02, 0, f"{tag}: alkalinity of row {i}")
            ctx.validate()
        util.intact(ctx, ds, [dict(r) for r in m.rows], tag)
        out.append([g["alkalinity"] for g in got])
    return out

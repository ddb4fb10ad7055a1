"""Helpers shared by the checks that work on datasets and files."""
import math
from collections import namedtuple
import os
import pickle

import numpy as np
import pandas as pd

from . import gen, ref

# what the file readers return
DatData = namedtuple("DatData", ("titrant_amount", "measurement", "temperature"))

RESULTS = ["alkalinity_npts", "alkalinity_std", "alkalinity", "emf0", "gran_alkalinity",
           "gran_emf0", "pH_init", "temperature_init"]
CAL = ["titrant_molinity_here", "titrant_molinity"]
READ = ["col_measurement", "col_temperature", "col_titrant_amount", "delimiter", "encoding",
        "file_type", "n_cols", "skip_header"]
UNITS = ["analyte_mass", "analyte_volume", "molinity_H2SO4", "molinity_HCl", "molinity_NaCl",
         "temperature_override", "titrant_amount_unit", "titrant_density", "titrant"]
CHEM = ref.TOTALS + ref.KS + ["dilute_totals_for_ks", "opt_k_bisulfate", "opt_k_carbonic",
                              "opt_k_fluoride", "opt_total_borate"]
TT = ["titrant_total_sulfate", "titrant_total_phosphate", "titrant_total_fluoride"]
SOLVER = ["alkalinity_init", "double", "emf0_init", "gran_logic", "pH_min", "pH_max", "titrant_normality"]
# every documented option of solving; calibrating has titrant_molinity_init besides
SOLVE_KEYS = READ + UNITS + CHEM + TT + SOLVER + ["solve_mode", "file_path"]
CAL_KEYS = SOLVE_KEYS + ["titrant_molinity_init"]


def blank(v):
    return v is None or (isinstance(v, float) and math.isnan(v)) or v is pd.NA or v is pd.NaT


def newstyle(kw):
    """Old spellings replaced by the new ones they stand for."""
    kw = dict(kw)
    for k, v in kw.pop("read_dat_kwargs", {}).items():
        kw[k] = v
    if "pH_range" in kw:
        kw["pH_min"], kw["pH_max"] = kw.pop("pH_range")
    if "read_dat_method" in kw:
        kw["file_type"] = kw.pop("read_dat_method")
    return kw


def resolve(row, kw=None, keys=SOLVE_KEYS):
    """Row value beats call option; blanks fall through."""
    out = {k: v for k, v in newstyle(kw or {}).items() if k in keys}
    r = dict(row)
    if "read_dat_method" in r:
        v = r.pop("read_dat_method")
        if not blank(v):
            out["file_type"] = v
    for k in keys:
        if k in r and not blank(r[k]):
            out[k] = r[k]
    return out


def diagnostics(sr):
    """The dataset columns that describe a solution, from the solution itself."""
    d = {k: np.nan for k in RESULTS}
    d["alkalinity_npts"] = int(np.sum(sr.used))
    d["alkalinity"] = float(sr.alkalinity)
    d["pH_init"] = float(sr.pH[0])
    d["temperature_init"] = float(sr.temperature[0])
    if hasattr(sr, "alkalinity_all"):
        a = np.asarray(sr.alkalinity_all)[np.asarray(sr.used)]
        d["alkalinity_std"] = float(np.sqrt(np.mean((a - a.mean()) ** 2)))
    if hasattr(sr, "emf0"):
        d["emf0"] = float(sr.emf0)
        d["gran_alkalinity"] = float(sr.ggr.alkalinity) * 1e6
        d["gran_emf0"] = float(sr.ggr.emf0)
    return d


EMPTY = {k: np.nan for k in RESULTS}
EMPTY["alkalinity_npts"] = 0


def solve_alone(row, kw, molinity):
    """The titration processed on its own through the file interface; EMPTY if it
    cannot be solved."""
    from calkulate import files

    if blank(molinity) or not row.get("file_good", True):
        return dict(EMPTY)
    try:
        sr = files.solve(row["file_name"], molinity, row["salinity"], **resolve(row, kw))
    except Exception:
        return dict(EMPTY)
    return diagnostics(sr)


def calibrate_alone(row, kw):
    from calkulate import files

    c = row.get("alkalinity_certified", np.nan)
    if blank(c) or not row.get("file_good", True):
        return np.nan
    try:
        return float(files.calibrate(row["file_name"], c, row["salinity"], **resolve(row, kw, CAL_KEYS))["x"][0])
    except Exception:
        return np.nan


def row_of(ds, i):
    """Row i (by position) of a frame as a dict."""
    return {k: ds[k].iloc[i] for k in ds.columns}


def results(ds, i, keys=RESULTS + CAL):
    return {k: (float(ds[k].iloc[i]) if k in ds.columns else "absent") for k in keys}


def same(a, b, rtol=1e-9, atol=1e-12):
    """Numbers or cells equal (NaN equals NaN)."""
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b or (blank(a) and blank(b))
    if blank(a) or blank(b):
        return blank(a) and blank(b)
    try:
        return bool(a == b) or abs(a - b) <= atol + rtol * abs(b)
    except TypeError:
        return a == b


# How far results may differ that were computed the same way from inputs that may
# differ in their last digit (another order of operations): the solver for EMF data
# stops up to this far from its limit, everything else follows directly.
SLACK = {"alkalinity": 2e-3, "alkalinity_std": 2e-3, "emf0": 1e-3, "pH_init": 2e-5, "gran_alkalinity": 1e-6, "gran_emf0": 1e-6, "alkalinity_offset": 2e-3, "titrant_molinity": 1e-7, "titrant_molinity_here": 1e-7}


def slack(k, values):
    """Tolerance for result k of a row with these results."""
    emf = not (blank(values.get("emf0")) or isinstance(values.get("emf0"), str))
    return SLACK.get(k, 1e-9) if emf or k.startswith("titrant") else 1e-7


def compare_dicts(ctx, key, got, want, what, rtol=1e-9, atol=None):
    bad = [k for k in want if not same(got.get(k, "absent"), want[k], rtol, slack(k, want) if atol is None else atol)]
    if bad:
        ctx.fail(key, f"{what}: " + "; ".join(f"{k} is {got.get(k, 'absent')!r}, expected {want[k]!r}" for k in bad))
    return not bad


def snapshot(df):
    """Everything in a frame, for exact comparison."""
    return (list(map(str, df.columns)), [repr(i) for i in df.index],
            {c: [("nan" if blank(v) else repr(v)) for v in df[c].tolist()] for c in df.columns})


def base_row(name, **kw):
    r = {"file_name": name, "salinity": 35.0, "analyte_mass": 0.1, "titrant_amount_unit": "g"}
    r.update(kw)
    return r


def frame(rows, index=None, cls=None):
    """A Dataset from row dicts (missing cells are blank)."""
    import calkulate as calk

    cls = cls or calk.Dataset
    cols = []
    for r in rows:
        cols += [k for k in r if k not in cols]
    ds = cls({c: [r.get(c, np.nan) for r in rows] for c in cols})
    if index is not None:
        ds.index = index
    return ds


class Files:
    """A directory of titration files whose contents are known."""

    def __init__(self, ctx):
        self.dir = ctx.dir()
        self.dat = {}

    def put(self, name, dat, writer=None, **kw):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        (writer or gen.write_genfromtxt)(p, dat, **kw)
        self.dat[name] = dat
        return p


def intact(ctx, ds, rows, what, key="metadata"):
    """Every cell that the user provided is still there, on its row."""
    for i, r in enumerate(rows):
        for c, v in r.items():
            if blank(v):
                continue
            if c not in ds.columns:
                ctx.fail(key, f"{what}: column {c} is gone")
            elif not same(ds[c].iloc[i], v, 0, 0):
                ctx.fail(key, f"{what}: {c} of row {i} is {ds[c].iloc[i]!r}, the user gave {v!r}")


_template = {}


def pristine(f, *args):
    """f(*args), computed in a process in which the package has not been used before.

    The first call must come before the calling process uses the package: it forks the
    template from which every computation gets its own process."""
    if _template.get("pid") != os.getpid():
        ask_r, ask_w = os.pipe()
        ans_r, ans_w = os.pipe()
        if os.fork() == 0:
            try:
                os.close(ask_w)
                os.close(ans_r)
                ask, ans = os.fdopen(ask_r, "rb"), os.fdopen(ans_w, "wb")
                while True:
                    try:
                        job = pickle.load(ask)
                    except EOFError:
                        break
                    pid = os.fork()
                    if pid == 0:
                        try:
                            res = (True, job[0](*job[1]))
                        except BaseException as e:
                            res = (False, repr(e))
                        pickle.dump(res, ans)
                        ans.flush()
                        os._exit(0)
                    if os.waitpid(pid, 0)[1] != 0:
                        pickle.dump((False, "worker died"), ans)
                        ans.flush()
            finally:
                os._exit(0)
        os.close(ask_r)
        os.close(ans_w)
        _template.update(pid=os.getpid(), ask=os.fdopen(ask_w, "wb"), ans=os.fdopen(ans_r, "rb"))
    if f is None:
        return None
    pickle.dump((f, args), _template["ask"])
    _template["ask"].flush()
    ok, res = pickle.load(_template["ans"])
    if not ok:
        raise RuntimeError(res)
    return res

"""C15: processing never changes its inputs and is repeatable."""
import json
import os
import warnings

import numpy as np
import pandas as pd

from .. import gen, ref, util

PROPERTY = "C15"
BOUNDS = {
    "quick": "every ordered pair of 46 calls (array-, file-, row- and table-level, 14 of them failing) on the same shared input objects, each call twice in a row; "
             "every subset of <=2 option changes of every array- and file-level solver and calibrator, twice, on shared, plain, read-only and strided arrays",
    "thorough": "every ordered triple of the calls that share arrays, rows or option dictionaries; <=3 option changes",
}
ASSUMES = ["add_titrant_totals is documented to work in place and is not among the calls",
           "Dataset methods are documented to add their results to the table: for them only the call arguments, the files and the repeatability are checked here (the table is C07)"]
CHUNK = 30

MOL = 0.1


class Shared:
    """All the objects that calls receive, and a snapshot of them."""

    def __init__(self, d, kind="plain"):
        self.dir = d
        a, m, t = gen.titration(n=24, mode="emf")
        self.o = {}
        mk = self.array(kind)
        self.mass = mk(a / 1000)
        self.emf = mk(m)
        self.temp = mk(t)
        p = gen.titration(n=24, mode="pH")
        self.ph = mk(p[1])
        totals, ks = ref.totals_ks(a / 1000, t, 0.1, 35.0, {"total_phosphate": 12.0, "dic": 300.0})
        self.totals = {k: mk(v) for k, v in totals.items()}
        self.ks = {k: mk(v) for k, v in ks.items()}
        self.titrant = {"titrant_total_sulfate": 0.5, "titrant_total_phosphate": 0.1}
        gen.put(d, "e.dat", (a, m, t))
        gen.put(d, "p.dat", p)
        with open(os.path.join(d, "bad.dat"), "w") as f:
            f.write("h\nh\n1\tx\n\t\n")
        gen.write_pclims(os.path.join(d, "l.txt"), (a, m, t))
        self.fopt = {"analyte_mass": 0.1, "titrant_amount_unit": "g", "file_path": d}
        self.oldopt = {"read_dat_kwargs": {"skip_header": 2, "delimiter": "\t"}, "pH_range": [3.05, 3.9], "read_dat_method": "genfromtxt"}
        base = util.base_row("e.dat", file_path=d, titrant_molinity=MOL, titrant_total_sulfate=0.3)
        self.row = pd.Series(base)
        self.rowp = pd.Series(dict(base, file_name="p.dat", solve_mode="pH", analyte_mass=np.nan, analyte_volume=100.0))
        self.rowbad = pd.Series(dict(base, file_name="nothing.dat"))
        self.table = pd.DataFrame([dict(base, alkalinity_certified=2300.0), dict(base, file_name="bad.dat", alkalinity_certified=2300.0),
                                   dict(base, file_name="p.dat", solve_mode="pH", pH_max=3.8)])
        n = len(a)
        self.dicl = mk(np.where(np.arange(n) < 8, 2000e-6 - np.arange(n) * 3e-6, np.nan) * 1e6)
        self.fco2 = mk(np.where(np.arange(n) < 8, 500.0 + 300 * np.arange(n), np.nan))
        self.cv = None

    @staticmethod
    def array(kind):
        def f(x):
            x = np.array(x, float)
            if kind == "strided":
                y = np.empty(2 * len(x))
                y[::2] = x
                y[1::2] = -1
                return y[::2]
            if kind == "readonly":
                x.flags.writeable = False
            return x
        return f

    def snapshot(self):
        s = {}
        for k, v in vars(self).items():
            if k in ("dir", "cv"):
                continue
            s[k] = freeze(v)
        s["files"] = {f: open(os.path.join(self.dir, f), "rb").read() for f in sorted(os.listdir(self.dir))}
        return s


def freeze(v):
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, pd.DataFrame):
        return util.snapshot(v)
    if isinstance(v, pd.Series):
        return ("series", [str(i) for i in v.index], [("nan" if util.blank(x) else repr(x)) for x in v.tolist()])
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [freeze(x) for x in v]
    return repr(v)


def cell(x):
    if util.blank(x):
        return "nan"
    if isinstance(x, (bool, int, float, np.number)):
        return float(x)
    return "folder" if "calk-mc-" in str(x) else str(x)


def flat(r, depth=0):
    """Numbers of a result, in a fixed order (names of fields where there are any)."""
    if r is None:
        return [None]
    if isinstance(r, (bool, np.bool_)):
        return [bool(r)]
    if isinstance(r, (int, float, np.integer, np.floating)):
        return [float(r)]
    if isinstance(r, str):
        return [r]
    if isinstance(r, np.ndarray):
        return [cell(x) for x in r.ravel().tolist()]
    if isinstance(r, pd.DataFrame):
        out = []
        for c in sorted(map(str, r.columns)):
            out += [c] + [cell(x) for x in r[c].tolist()]
        return out
    if isinstance(r, pd.Series):
        return flat(r.to_frame().T)
    if isinstance(r, dict):
        if "x" in r and "cost" in r:  # optimiser output: the solution is what is promised
            return flat(np.asarray(r["x"]))
        out = []
        for k in sorted(map(str, r)):
            out += [k] + flat(r[k], depth + 1)
        return out
    if isinstance(r, (list, tuple)):
        out = []
        for x in r:
            out += flat(x, depth + 1)
        return out
    if hasattr(r, "slope") and hasattr(r, "intercept"):
        return [float(r.slope), float(r.intercept)]
    if hasattr(r, "titration"):
        return flat(r.titration) + flat(r.row.drop([k for k in r.row.index if isinstance(r.row[k], (dict, list, tuple))]))
    return [type(r).__name__]


def equal(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, float) and isinstance(y, float):
            if x != y and not (x != x and y != y) and abs(x - y) > 1e-9 * abs(y) + 1e-15:
                return False
        elif x != y:
            return False
    return True


def calls():
    from calkulate import convert, core, files, interface, loss, simulate
    import calkulate as calk

    c = {}
    a = lambda s: (s.mass, s.emf, s.temp, 0.1, s.totals, s.ks)
    p = lambda s: (s.mass, s.ph, s.temp, 0.1, s.totals, s.ks)
    c["gran_guesses"] = lambda s: core.gran_guesses(s.mass, s.emf, s.temp, 0.1, MOL)
    c["gran_legacy"] = lambda s: core.gran_guesses(s.mass, s.emf, s.temp, 0.1, MOL, gran_logic="legacy", titrant_normality=1.1)
    c["solve_emf"] = lambda s: core.solve_emf(MOL, *a(s))
    c["solve_emf_opts"] = lambda s: core.solve_emf(MOL, *a(s), gran_logic="legacy", double=False, emf0_init=612.0, alkalinity_init=2200.0, pH_min=3.1, pH_max=3.9)
    c["solve_emf_bad_logic!"] = lambda s: core.solve_emf(MOL, *a(s), gran_logic="other")
    c["solve_emf_empty!"] = lambda s: core.solve_emf(MOL, *a(s), pH_min=4, pH_max=3)
    c["solve_pH"] = lambda s: core.solve_pH(MOL, *p(s))
    c["solve_pH_opts"] = lambda s: core.solve_pH(MOL, *p(s), pH_min=2.9, pH_max=5.0, titrant_normality=1.02)
    c["solve_pH_empty!"] = lambda s: core.solve_pH(MOL, *p(s), pH_min=5, pH_max=3)
    c["solve_pH_gran"] = lambda s: core.solve_pH_gran(MOL, *p(s))
    c["calibrate_emf"] = lambda s: core.calibrate_emf(2300.0, *a(s))
    c["calibrate_emf_titrant"] = lambda s: core.calibrate_emf(2300.0, *a(s), **s.titrant)
    c["calibrate_emf_opts"] = lambda s: core.calibrate_emf(2250.0, *a(s), double=False, gran_logic="legacy", titrant_molinity_init=0.12)
    c["calibrate_emf_bad!"] = lambda s: core.calibrate_emf(2300.0, *a(s), gran_logic="other", **s.titrant)
    c["calibrate_emf_badtotal!"] = lambda s: core.calibrate_emf(2300.0, *a(s), **dict(s.titrant, other=1))
    c["calibrate_pH"] = lambda s: core.calibrate_pH(2300.0, *p(s))
    c["calibrate_pH_titrant"] = lambda s: core.calibrate_pH(2300.0, *p(s), **s.titrant)
    c["calibrate_pH_empty!"] = lambda s: core.calibrate_pH(2300.0, *p(s), pH_min=9, pH_max=8, **s.titrant)
    c["calibrate_pH_gran"] = lambda s: core.calibrate_pH_gran(2300.0, *p(s))
    c["calibrate_pH_gran_titrant"] = lambda s: core.calibrate_pH_gran(2300.0, *p(s), **s.titrant)
    c["alkalinity"] = lambda s: simulate.alkalinity(s.ph, s.totals, s.ks)
    c["components_total"] = lambda s: simulate.alkalinity_components(s.ph, s.totals, s.ks, opt_pH_scale=1)
    c["components_bad!"] = lambda s: simulate.alkalinity_components(s.ph, s.totals, s.ks, opt_pH_scale=7)
    c["amount_units"] = lambda s: convert.amount_units(util.DatData(s.mass, s.emf, s.temp), 35.0, analyte_volume=100.0, titrant_amount_unit="g", temperature_override=21.0)
    c["amount_units_bad!"] = lambda s: convert.amount_units(util.DatData(s.mass, s.emf, s.temp), 35.0, analyte_mass=0.1, titrant_amount_unit="stone")
    c["totals_ks"] = lambda s: core.totals_ks(convert.Converted(s.mass, s.emf, s.temp, 0.1, 35.0), dic=200.0, dilute_totals_for_ks=True)
    c["totals_ks_opts"] = lambda s: core.totals_ks(convert.Converted(s.mass, s.emf, s.temp, 0.1, 31.0), opt_k_carbonic=4, opt_total_borate=2, k_borate=2e-9)
    c["dilute_totals"] = lambda s: convert.dilute_totals(s.totals, s.mass, 0.1)
    c["get_totals"] = lambda s: interface.get_totals(34.0, total_phosphate=3.0)[0]
    c["dic_loss"] = lambda s: loss.get_dic_loss(s.mass, s.ph, s.dicl, s.fco2, s.ks["k_carbonic_1"] * 0 + 0.03, s.ks["k_carbonic_1"], s.ks["k_carbonic_2"], 0.1, 2000e-6)
    c["simulate"] = lambda s: simulate._titration(2300.0, dic=300.0, total_phosphate=2.0, titrant_mass_step=0.3e-3)[:4]
    c["files.solve"] = lambda s: files.solve("e.dat", MOL, 35.0, **s.fopt)
    c["files.solve_titrant"] = lambda s: files.solve("e.dat", MOL, 35.0, **s.fopt, **s.titrant)
    c["files.solve_pH"] = lambda s: files.solve("p.dat", MOL, 35.0, solve_mode="pH_adjust", **s.fopt)
    c["files.solve_missing!"] = lambda s: files.solve("no.dat", MOL, 35.0, **s.fopt)
    c["files.solve_bad!"] = lambda s: files.solve("bad.dat", MOL, 35.0, **s.fopt)
    c["files.solve_mode!"] = lambda s: files.solve("e.dat", MOL, 35.0, solve_mode="x", **s.fopt, **s.titrant)
    c["files.calibrate"] = lambda s: files.calibrate("e.dat", 2300.0, 35.0, **s.fopt, **s.titrant)
    c["files.calibrate_missing!"] = lambda s: files.calibrate("no.dat", 2300.0, 35.0, **s.fopt)
    c["read_dat"] = lambda s: calk.read_dat(os.path.join(s.dir, "e.dat"))
    c["read_lims"] = lambda s: calk.read_dat(os.path.join(s.dir, "l.txt"), file_type="pclims")
    c["write_dat_exists!"] = lambda s: calk.write_dat(os.path.join(s.dir, "e.dat"), s.mass, s.emf, s.temp)
    c["Titration"] = lambda s: calk.Titration(s.row)
    c["Titration_old"] = lambda s: calk.Titration(s.row, **s.oldopt)
    c["Titration_pH"] = lambda s: calk.Titration(s.rowp, total_silicate=20.0)
    c["Titration_bad!"] = lambda s: calk.Titration(s.rowbad, **s.oldopt)
    c["Dataset.solve"] = lambda s: calk.Dataset(s.table.copy()).solve(**s.oldopt)
    c["Dataset.calkulate"] = lambda s: calk.Dataset(s.table.copy()).calkulate(pH_max=3.95)
    c["Dataset.bare!"] = lambda s: calk.Dataset(s.table[["file_name", "salinity"]].copy()).solve(**s.oldopt)
    c["to_Titration"] = lambda s: calk.to_Titration(s.table, 0, pH_min=3.1)
    return c


def perform(f, s):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return ["value"] + flat(f(s))
        except Exception as e:
            return ["raised", type(e).__name__]


_base = None


def baselines():
    """Every call alone, in a process of its own."""
    import shutil
    import tempfile

    out = {}
    for name, f in calls().items():
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 1)
                os.dup2(null, 2)
                d = tempfile.mkdtemp(prefix="calk-mc-")
                try:
                    v = perform(f, Shared(d))
                finally:
                    shutil.rmtree(d, ignore_errors=True)
                _send(w, json.dumps(v).encode())
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        _, st = os.waitpid(pid, 0)
        out[name] = json.loads(data) if st == 0 else None
    return out


def _send(w, data):
    while data:
        n = os.write(w, data)
        data = data[n:]


SHARING = ["gran_guesses", "solve_emf", "solve_emf_bad_logic!", "solve_pH", "solve_pH_gran", "calibrate_emf_titrant", "calibrate_emf_bad!",
           "calibrate_pH_titrant", "calibrate_pH_empty!", "calibrate_pH_gran_titrant", "components_total", "dilute_totals", "totals_ks_opts", "dic_loss",
           "files.solve_titrant", "files.calibrate", "files.solve_missing!", "Titration_old", "Titration_bad!", "Dataset.solve", "to_Titration"]

AX = {
    "kind": ["plain", "readonly", "strided"],
    "fn": ["solve_emf", "solve_pH", "solve_pH_gran", "calibrate_emf", "calibrate_pH", "calibrate_pH_gran", "gran_guesses",
           "files.solve emf", "files.solve pH_adjust", "files.solve pH", "files.solve pH_gran",
           "files.calibrate emf", "files.calibrate pH_adjust", "files.calibrate pH", "files.calibrate pH_gran"],
    "titrant_normality": [None, 1.05],
    "pH_min": [None, 3.2],
    "pH_max": [None, 3.8],
    "gran_logic": [None, "legacy", "wrong"],
    "double": [None, False],
    "emf0_init": [None, 613.0],
    "alkalinity_init": [None, 2000.0],
    "titrant_molinity_init": [None, 0.15],
    "titrant_total_sulfate": [None, 0.5],
    "titrant_total_phosphate": [None, 0.2],
    "titrant_total_fluoride": [None, 0.1],
    "molinity_type": ["float", "numpy", "int"],
    "mass_type": ["float", "numpy"],
}


def cases(tier):
    global _base
    from ..framework import deviations

    _base = baselines()
    names = list(_base)
    out = [{"seq": [a, b]} for a in names for b in names]
    if tier == "thorough":
        out += [{"seq": [a, b, c]} for a in SHARING for b in SHARING for c in SHARING if a != b or b != c]
    axes = {k: v for k, v in AX.items() if k != "fn"}
    for fn in AX["fn"]:
        for dev in deviations(axes, 2 if tier == "quick" else 3):
            if allowed(fn, dev):
                out.append({"fn": fn, **dev})
    return out


def allowed(fn, dev):
    o = [k for k in dev if k not in ("kind", "molinity_type", "mass_type")]
    if fn == "gran_guesses":
        ok = ("titrant_normality", "gran_logic")
    else:
        ok = ["titrant_normality", "pH_min", "pH_max"]
        if "emf" in fn or "adjust" in fn:
            ok += ["gran_logic", "double", "alkalinity_init"]
            if "adjust" not in fn:
                ok += ["emf0_init"]
        if "calibrate" in fn:
            ok += ["titrant_molinity_init"]
        if "calibrate" in fn or "files" in fn:
            ok += [k for k in AX if k.startswith("titrant_total")]
    if "calibrate" in fn and "molinity_type" in dev:
        return False
    if fn.startswith("files") and "kind" in dev:
        return False
    return all(k in ok for k in o)


def run(case, ctx):
    global _base
    if _base is None:
        _base = baselines()  # replaying
    if "seq" in case:
        s = Shared(ctx.dir())
        fs = calls()
        before = s.snapshot()
        ctx.state(case["seq"])
        for i, name in enumerate(case["seq"]):
            for rep in range(2 if i == 0 or len(case["seq"]) == 2 else 1):
                r = perform(fs[name], s)
                ctx.step()
                ctx.validate()
                what = " then ".join(case["seq"][: i + 1]) + (" (again)" if rep else "")
                if _base[name] is None:
                    ctx.fail("baseline", f"{name} alone ends the process")
                elif not equal(r, _base[name]):
                    j = next((j for j, (x, y) in enumerate(zip(r, _base[name])) if not equal([x], [y])), None)
                    ctx.fail("repeatable", f"{what}: result differs from that of the call alone (item {j}: {r[j] if j is not None else len(r)} instead of {_base[name][j] if j is not None else len(_base[name])})")
                after = s.snapshot()
                if after != before:
                    ctx.fail("inputs", f"{what}: changed " + ", ".join(k for k in before if before[k] != after.get(k)))
                    return None
            if not name.endswith("!"):
                ctx.check(_base[name][0] == "value", "raised", f"{name}: {_base[name]}")
        return case["seq"]
    return config(case, ctx)


def config(case, ctx):
    from calkulate import core, files

    s = Shared(ctx.dir(), case.get("kind", "plain"))
    fn = case["fn"]
    kw = {k: v for k, v in case.items() if k in AX and k not in ("kind", "fn", "molinity_type", "mass_type")}
    mol = {"float": 0.1, "numpy": np.float64(0.1), "int": 1}[case.get("molinity_type", "float")]
    if mol == 1:
        kw["titrant_normality"] = 0.1  # a whole-number molinity
    am = {"float": 0.1, "numpy": np.float64(0.1)}[case.get("mass_type", "float")]
    ctx.state(case)
    first = np.float64(2300.0) if "calibrate" in fn else mol
    if fn.startswith("files"):
        f, mode = fn[6:].split()
        name = "e.dat" if mode == "emf" else "p.dat"
        call = lambda s: getattr(files, f)(name, first, 35.0, solve_mode=mode, **dict(s.fopt, analyte_mass=am), **kw)
    elif fn == "gran_guesses":
        call = lambda s: core.gran_guesses(s.mass, s.emf, s.temp, am, mol, **kw)
    else:
        call = lambda s: getattr(core, fn)(first, s.mass, s.emf if "emf" in fn else s.ph, s.temp, am, s.totals, s.ks, **kw)
    before = s.snapshot()
    kw0 = dict(kw)
    one = perform(call, s)
    after = s.snapshot()
    ctx.check(after == before and kw == kw0, "inputs", lambda: f"{case}: changed " + ", ".join(k for k in before if before[k] != after.get(k)))
    two = perform(call, s)
    ctx.check(equal(one, two), "repeatable", f"{case}: the second call gives another result")
    ctx.step(2)
    if case.get("kind", "plain") != "plain":
        t = Shared(ctx.dir(), "plain")
        ctx.validate()
        ctx.check(equal(one, perform(call, t)), "layout", f"{case}: result depends on the memory layout of the arrays ({one[:4]})")
    if kw.get("gran_logic") != "wrong":
        ctx.check(one[0] == "value", "raised", f"{case}: {one}")
    return one[:3]

"""C20: figures show the data they are given and change nothing."""
import os
import re

import numpy as np
import pandas as pd

from .. import gen, util

PROPERTY = "C20"
BOUNDS = {
    "quick": "titrations: 4 solve modes x 4 shapes x 3 pH ranges x every plot alone and every ordered pair of plots, own and given axes; "
             "datasets: every table of <=2 rows over 4 kinds x 3 batches x 2 plots x 3 x-variables x show_bad x show_batches x 2 indexes (reference_good as boolean, object or 0/1 column, or with blanks in a column of each of 4 kinds), every table of 3 rows over the kinds and batches with the default options, "
             "every ordered pair of plots, tables from calkulate() for every pair of kinds",
    "thorough": "every ordered triple of plots; every option on every table of 3 rows",
}
ASSUMES = ["points whose value is not finite cannot be drawn and are not counted",
           "used points are filled and unused points hollow, as in the figures' legends",
           "a blank reference_good counts as good, as in calkulate()"]
CHUNK = 12

MODES = ["emf", "pH_adjust", "pH", "pH_gran"]
PLOTS = {
    "emf": ["emf", "pH", "pH/nogran", "emf0_gran", "alkalinity_gran", "gran_emf0", "gran_alkalinity", "alkalinity", "components", "components/linear"],
    "pH": ["pH", "pH/nogran", "alkalinity", "components", "components/linear"],
    "pH_gran": ["pH", "alkalinity_gran", "gran_alkalinity", "alkalinity", "components", "components/linear"],
}
PLOTS["pH_adjust"] = PLOTS["emf"]
SHAPES = ["full", "short", "twice", "late"]
RANGES = [None, (2.5, 3.5), (3.2, 5.0)]
MULT = {"HCO3": 1, "CO3": 2, "BOH4": 1, "PO4": 2, "HPO4": 1, "H3PO4": -1, "HSO4": -1, "HF": -1, "H3SiO4": 1, "NH3": 1, "HS": 1,
        "H": -1, "OH": 1, "alk_alpha": 1, "alk_beta": 1, "alkalinity_estimate": 1}
# dataset rows: (has a calibrated value, good reference, solved)
KINDS = {"good": (True, True, True), "bad": (True, False, True), "sample": (False, True, True), "failed": (False, True, False)}
BATCHES = [0, "b", None]
DPLOTS = ["titrant_molinity", "alkalinity_offset"]
XVARS = [None, "xcol", "when"]


def cases(tier):
    t = tier == "thorough"
    out = []
    for m in MODES:
        for s in SHAPES:
            for r in RANGES:
                out.append({"part": "titration", "mode": m, "shape": s, "range": r, "seq": 3 if t else 2 if r is None else 1})
    al = [(k, b) for k in KINDS for b in BATCHES]
    tables = [[a] for a in al] + [[a, b] for a in al for b in al]
    three = [[a, b, c] for a in al for b in al for c in al]
    for tab in tables + (three if t else []):
        out.append({"part": "dataset", "rows": tab, "all": True})
    if not t:
        for i in range(0, len(three), 6):
            out.append({"part": "dataset3", "tables": three[i:i + 6]})
    for a in KINDS:
        for b in KINDS:
            out.append({"part": "calkulate", "rows": [(a, 0), (b, 1), ("good", 0)]})
    out.append({"part": "saved"})
    return out


def run(case, ctx):
    import matplotlib

    global TIGHT
    TIGHT = matplotlib.figure.Figure.tight_layout
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt

    matplotlib.rcParams["figure.max_open_warning"] = 0
    plt.close("all")
    if case["part"] != "saved":
        # placing the labels is most of the cost and changes nothing that is checked
        matplotlib.figure.Figure.tight_layout = lambda self, *a, **k: None
    try:
        return {"titration": titration, "dataset": dataset, "dataset3": dataset3, "calkulate": calkulated, "saved": saved}[case["part"]](case, ctx)
    finally:
        plt.close("all")
        matplotlib.figure.Figure.tight_layout = TIGHT


# ---------------------------------------------------------------- titrations
def make(case, ctx):
    import calkulate as calk

    kind = "emf" if case["mode"] == "emf" else "pH"
    n, top, start = {"full": (28, 4.2, 0.0), "short": (9, 4.0, 0.0), "twice": (24, 4.2, 0.0), "late": (12, 4.2, 2.6)}[case["shape"]]
    g, m, t = gen.titration(n=n, top=top, start=start, mode=kind, which=1)
    if case["shape"] == "twice":  # a titrant mass recorded twice
        g[14] = g[13]
    d = ctx.dir()
    gen.put(d, "t.dat", (g, m, t))
    row = util.base_row("t.dat", file_path=d, titrant_molinity=0.1, solve_mode=case["mode"], dic=2000.0, total_phosphate=1.5)
    ds = util.frame([row])
    kw = {}
    if case["range"]:
        kw = {"pH_min": case["range"][0], "pH_max": case["range"][1]}
    return ds.to_Titration(0, **kw)


def frozen(tt):
    return (util.snapshot(tt.titration), [(k, repr(v)) for k, v in tt.row.items()], repr(tt.kwargs),
            repr(np.asarray(tt.sr.used).tolist()), repr(np.asarray(tt.sr.pH).tolist()), sorted(tt.__dict__))


def drawn(ax):
    """Scattered points of an axes as (x, y, filled), and by label."""
    from matplotlib.collections import PathCollection

    pts, by = [], {}
    for c in ax.collections:
        if not isinstance(c, PathCollection):
            continue
        o = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan).reshape(-1, 2)
        o = o[np.isfinite(o).all(axis=1)]
        filled = len(c.get_facecolor()) > 0 and bool(np.all(np.asarray(c.get_facecolor())[:, 3] > 0))
        pts += [(x, y, filled) for x, y in o]
        by.setdefault(str(c.get_label()), []).extend((x, y, filled) for x, y in o)
    return pts, by


def points(x, y, f):
    x, y, f = np.asarray(x, float), np.asarray(y, float), np.asarray(f, bool)
    return [(a, b, bool(c)) for a, b, c in zip(x, y, f) if np.isfinite(a) and np.isfinite(b)]


def sets(ctx, key, got, want, what):
    """The same points, each as often as expected, in any order."""
    def order(p):
        return sorted(p, key=lambda q: (round(q[0], 6), q[2], float(f"{q[1]:.7g}")))

    g, w = order(got), order(want)
    ctx.validate()
    if len(g) != len(w):
        ctx.fail(key, f"{what}: {len(g)} points drawn, {len(w)} expected")
        return
    left = list(w)
    for p in g:
        for i, q in enumerate(left):
            if p[2] == q[2] and abs(p[0] - q[0]) <= 1e-9 * (1 + abs(q[0])) and abs(p[1] - q[1]) <= 1e-8 * (1 + abs(q[1])):
                del left[i]
                break
        else:
            ctx.fail(key, f"{what}: point {p} was drawn but is not expected; not drawn: {left[:2]}")
            return


def lines(ax):
    return [(np.asarray(l.get_xdata(orig=False), float), np.asarray(l.get_ydata(orig=False), float), l) for l in ax.get_lines()]


def level(ctx, ax, value, key, what):
    hit = any(len(y) and np.all(np.abs(y - value) <= 1e-9 * (1 + abs(value))) for x, y, l in lines(ax))
    ctx.check(hit, key, f"{what}: no line at {value}")


def first_number(title):
    m = re.search(r"=\s*(-?[0-9.]+)", title)
    return float(m.group(1)) if m else None


def one(tt, name, ctx, what, given):
    from matplotlib import pyplot as plt

    ax = None
    if given:
        fig, axs = plt.subplots(1, 2)
        ax, other = axs
    nfig = set(plt.get_fignums())
    base, _, opt = name.partition("/")
    kw = {"nogran": {"show_gran": False}, "linear": {"log_scale": False}}.get(opt, {})
    got = getattr(tt, "plot_" + base)(ax, **kw) if given else getattr(tt, "plot_" + base)(**kw)
    ctx.step()
    new = set(plt.get_fignums()) - nfig
    if given:
        ctx.check(not new, "axes", f"{what}: a figure was opened although axes were given")
        ctx.check(not other.collections and not other.lines, "axes", f"{what}: drew on other axes")
        ctx.check(got is None or got is ax, "axes", f"{what}: returned other axes")
    else:
        if not ctx.check(len(new) == 1, "axes", f"{what}: {len(new)} figures opened"):
            return
        ax = plt.figure(new.pop()).axes[0] if got is None else got
    t = tt.titration
    x = np.asarray(tt.sr.titrant_mass) * 1e3
    used = np.asarray(tt.sr.used, bool)
    pts, by = drawn(ax)
    for lab, p in by.items():
        low = lab.lower()
        if "unused" in low:
            ctx.check(not any(q[2] for q in p), "legend", f"{what}: used points in series {lab!r}")
        elif "used" in low:
            ctx.check(all(q[2] for q in p), "legend", f"{what}: unused points in series {lab!r}")
    if base == "emf":
        sets(ctx, "points", [(a, b, True) for a, b, _ in pts], points(x, tt.sr.emf, x == x), what)
    elif base == "pH":
        want = points(x, tt.sr.pH, used)
        sets(ctx, "points", sum((p for l, p in by.items() if not l.startswith("First")), []), want, what)
        gran = []
        if not opt and hasattr(tt.sr, "ggr"):
            gran = points(x, tt.sr.ggr.pH, tt.sr.ggr.used)
        sets(ctx, "points", pts, want + gran, what)
    elif base in ("emf0_gran", "gran_emf0"):
        sets(ctx, "points", pts, points(x, tt.sr.ggr.emf0s, tt.sr.ggr.used), what)
        level(ctx, ax, tt.sr.ggr.emf0, "level", what)
        n = first_number(ax.get_title())
        ctx.check(n is not None and abs(n - tt.sr.ggr.emf0) <= 0.00501, "title", f"{what}: title {ax.get_title()!r} for {tt.sr.ggr.emf0}")
    elif base in ("alkalinity_gran", "gran_alkalinity"):
        r = tt.sr.ggr if hasattr(tt.sr, "ggr") else tt.sr
        gu = np.asarray(r.used, bool)
        gf = np.asarray(r.gfunc, float)
        sets(ctx, "points", pts, points(x, gf, gu), what)
        # the fitted line: least squares through the used points
        xm = x / 1e3
        sl = np.sum((xm[gu] - xm[gu].mean()) * (gf[gu] - gf[gu].mean())) / np.sum((xm[gu] - xm[gu].mean()) ** 2)
        ic = gf[gu].mean() - sl * xm[gu].mean()
        ok = False
        for a, b, l in lines(ax):
            if len(a) >= 2 and np.ptp(b) > 0 and np.ptp(a) > 0:
                ok |= bool(np.allclose(b, ic + sl * a / 1e3, rtol=1e-6, atol=1e-9 * abs(gf).max()))
        ctx.check(ok, "fit", f"{what}: no line follows the regression {sl} {ic}")
        ctx.check(any(len(a) and np.all(np.abs(a + 1e3 * ic / sl) < 1e-6) for a, b, l in lines(ax)), "intercept", f"{what}: no line at the intercept {-1e3 * ic / sl}")
        want = tt.sr.alkalinity if not hasattr(tt.sr, "ggr") else tt.sr.ggr.alkalinity * 1e6
        n = first_number(ax.get_title())
        ctx.check(n is not None and abs(n - want) <= 0.0501, "title", f"{what}: title {ax.get_title()!r} for {want}")
    elif base == "alkalinity":
        sets(ctx, "points", pts, points(x, t.alkalinity_estimate * 1e6, used), what)
        level(ctx, ax, tt.sr.alkalinity, "level", what)
        n = first_number(ax.get_title())
        ctx.check(n is not None and abs(n - tt.sr.alkalinity) <= 0.0501, "title", f"{what}: title {ax.get_title()!r} for {tt.sr.alkalinity}")
        m = re.search(r"=\s*(\d+)\s*$", ax.get_title())
        ctx.check(m is not None and int(m.group(1)) == used.sum(), "title", f"{what}: title {ax.get_title()!r} for {used.sum()} points")
    elif base == "components":
        want, curves = [], []
        for k, f in MULT.items():
            v = t[k].to_numpy()
            if np.all(v > 0):
                y = v * f * 1e6 if opt else -np.log10(v * abs(f))
                want += points(x, y, used)
                v0 = v[x == x.min()].mean()
                v1 = v[x == x.max()].mean()
                curves.append(tuple((w * f * 1e6 if opt else -np.log10(w * abs(f))) for w in (v0, v1)))
        sets(ctx, "points", pts, want, what)
        ends = [(b[0], b[-1]) for a, b, l in lines(ax) if len(b) > 2]
        for c in curves:
            hit = [e for e in ends if np.allclose(e, c, rtol=1e-7, atol=1e-9)]
            ctx.check(hit, "curve", f"{what}: no curve runs from {c[0]} to {c[1]}")
        ctx.check(len(ends) == len(curves), "curve", f"{what}: {len(ends)} curves, expected {len(curves)}")
    lo, hi = ax.get_xlim()
    ctx.check(all(lo <= p[0] <= hi for p in pts), "limits", f"{what}: points outside the axes")
    return ax


def titration(case, ctx):
    from matplotlib import pyplot as plt
    from ..framework import sequences

    tt = make(case, ctx)
    names = PLOTS[case["mode"]]
    before = frozen(tt)
    n = 0
    for seq in sequences(names, 1, case["seq"]):
        if not seq or (len(seq) < case["seq"] and len(seq) > 1):
            continue
        for given in (False, True) if len(seq) == 1 else (bool(n % 2),):
            for i, name in enumerate(seq):
                what = f"{case} {'>'.join(seq[:i + 1])}"
                # a prefix was examined when it was the whole sequence
                one(tt, name, ctx, what, given)
                ctx.check(frozen(tt) == before, "changed", f"{what}: the titration was changed")
                ctx.state(case, seq[:i + 1], given)
            n += 1
            plt.close("all")
        if ctx.fails:
            break
    return [case["mode"], case["shape"], int(tt.sr.used.sum()), len(before[0][0])]


# ------------------------------------------------------------------ datasets
def table(rows, index, dtype=bool):
    """A solved table as calkulate() leaves it."""
    out = []
    for i, (k, b) in enumerate(rows):
        cal, good, solved = KINDS[k]
        r = {"file_name": f"t{i}.dat", "salinity": 35.0, "analyte_mass": 0.1, "xcol": 7.5 - 2.25 * ((i * 5) % 3), "when": pd.Timestamp(2024, 3, 1 + 3 * ((i * 5) % 3), 6),
             "analysis_batch": b, "reference_good": good, "alkalinity_certified": 2250.0 + i if cal else np.nan,
             "titrant_molinity_here": 0.1 + 0.0003 * i if cal else np.nan, "alkalinity": 2251.5 - 2 * i if solved else np.nan}
        out.append(r)
    batches = {b for _, b in rows if b is not None}
    mean = {b: np.mean([v] or [np.nan]) for b in batches for v in [[r["titrant_molinity_here"] for r in out if r["analysis_batch"] == b and r["reference_good"] and r["titrant_molinity_here"] == r["titrant_molinity_here"]]] if v}
    for r in out:
        r["titrant_molinity"] = mean.get(r["analysis_batch"], np.nan)
        r["alkalinity_offset"] = r["alkalinity"] - r["alkalinity_certified"]
    ds = util.frame(out, index=index)
    ds["reference_good"] = ds["reference_good"].astype(dtype)
    return ds


BLANKS = ["nan", "none", "float", "boolean"]


def blanked(ds, kind):
    """The table with its good references left blank."""
    ds = ds.copy()
    good = ds["reference_good"].to_numpy(bool)
    hole = {"nan": np.nan, "none": None, "float": np.nan, "boolean": pd.NA}[kind]
    col = pd.Series([hole if g else 0.0 if kind == "float" else False for g in good], index=ds.index, dtype=object)
    ds["reference_good"] = col.astype({"float": float, "boolean": "boolean"}.get(kind, object))
    return ds


def dplot(ds, which, ctx, what, xvar=None, method=False, fname=None, **kw):
    import calkulate as calk
    from matplotlib import dates

    before = util.snapshot(ds)
    if fname:
        kw["figure_fname"] = fname
    if method:
        fig, ax = getattr(ds, "plot_" + which)(xvar=xvar, **kw)
    else:
        fig, ax = getattr(calk.plot, which)(ds, xvar=xvar, **kw)
    ctx.step()
    ctx.check(util.snapshot(ds) == before, "changed", f"{what}: the table was changed")
    ctx.check(ax.figure is fig, "axes", f"{what}: axes of another figure returned")
    n = len(ds)
    x = np.arange(n, dtype=float) if xvar is None else dates.date2num(ds[xvar]) if xvar == "when" else ds[xvar].to_numpy(float)
    y = ds["titrant_molinity_here" if which == "titrant_molinity" else "alkalinity_offset"].to_numpy(float)
    good = np.array([util.blank(v) or bool(v) for v in ds["reference_good"]], bool)
    pts, by = drawn(ax)
    flat = lambda p: [(a, b, True) for a, b, _ in p]
    bad_drawn = flat(sum((p for l, p in by.items() if "bad" in l.lower()), []))
    good_drawn = flat(sum((p for l, p in by.items() if "bad" not in l.lower()), []))
    sets(ctx, "good points", good_drawn, points(x[good], y[good], x[good] == x[good]), what)
    show_bad = kw.get("show_bad", True)
    sets(ctx, "bad points", bad_drawn, points(x[~good], y[~good], x[~good] == x[~good]) if show_bad else [], what)
    if which == "titrant_molinity":
        want = []
        if kw.get("show_batches", True):
            b = ds["analysis_batch"].tolist()
            tm = ds["titrant_molinity"].to_numpy(float)
            for v in {v for v in b if not util.blank(v)}:
                idx = [i for i in range(n) if b[i] == v]
                p = sorted((x[i], tm[i]) for i in idx)
                want.append(p)
        got = [sorted(zip(a.tolist(), c.tolist())) for a, c, l in lines(ax) if len(a)]
        fin = lambda ls: sorted([q for q in p if q[0] == q[0] and q[1] == q[1]] for p in ls)
        g, w = [p for p in fin(got) if p], [p for p in fin(want) if p]
        ctx.validate()
        ctx.check(len(g) == len(w) and all(len(p) == len(q) and np.allclose(p, q, rtol=1e-9, atol=1e-12) for p, q in zip(g, w)), "batch lines", f"{what}: batch lines {g}, expected {w}")
    else:
        level(ctx, ax, 0.0, "zero line", what)
    # nothing that is drawn is cut off
    if pts:
        lo, hi = ax.get_xlim()
        ctx.check(all(lo <= p[0] <= hi for p in pts), "limits", f"{what}: points outside the axes")
    return fig, ax


def dataset(case, ctx):
    from matplotlib import pyplot as plt

    n = 0
    rows = case["rows"]
    for index in (None, [f"r{9 - i}" for i in range(len(rows))]) if len(rows) < 3 else (None,):
        ds = table(rows, index, object if index else bool)
        for which in DPLOTS:
            for xvar in XVARS:
                for bad in (True, False):
                    for bat in (True, False):
                        n += 1
                        what = f"{case} {which} {xvar} bad={bad} batches={bat} index={index}"
                        dplot(ds, which, ctx, what, xvar, method=n % 2 == 0, show_bad=bad, show_batches=bat)
                        ctx.state(rows, index is None, which, xvar, bad, bat)
                        plt.close("all")
    for kind in BLANKS:
        ds = blanked(table(rows, None), kind)
        for which in DPLOTS:
            dplot(ds, which, ctx, f"{case} {which} blanks {kind}")
            ctx.state(rows, kind, which)
            plt.close("all")
    return [len(rows), n]


def dataset3(case, ctx):
    from matplotlib import pyplot as plt

    for rows in case["tables"]:
        ds = table(rows, [3, 1, 2], int)
        for a, b in (DPLOTS, DPLOTS[::-1]):
            for i, w in enumerate((a, b)):
                dplot(ds, w, ctx, f"{rows} {a} then {b}" if i else f"{rows} {w}")
                ctx.state(rows, a, b, i)
                plt.close("all")
        for kind in BLANKS[1::2]:
            for w in DPLOTS:
                dplot(blanked(ds, kind), w, ctx, f"{rows} {w} blanks {kind}")
                ctx.state(rows, w, kind)
                plt.close("all")
    return len(case["tables"])


def calkulated(case, ctx):
    import calkulate as calk
    from matplotlib import pyplot as plt

    d = ctx.dir()
    rows = []
    for i, (k, b) in enumerate(case["rows"]):
        cal, good, solved = KINDS[k]
        gen.put(d, f"t{i}.dat", gen.titration(which=i, alk=2250.0 + 10 * i))
        r = util.base_row(f"t{i}.dat" if solved else "missing.dat", file_path=d, analysis_batch=b, reference_good=good, dic=2000.0, xcol=1.5 * i,
                          alkalinity_certified=2250.0 + 10 * i if cal else np.nan)
        rows.append(r)
    ds = util.frame(rows)
    ds["reference_good"] = ds["reference_good"].astype(bool)
    ds.calkulate()
    for frame in (ds, pd.DataFrame(ds)):
        for w in DPLOTS:
            for x in (None, "xcol"):
                dplot(frame, w, ctx, f"{case} {w} {x} {type(frame).__name__}", x)
                ctx.state(case["rows"], w, x, type(frame).__name__)
                plt.close("all")
    return [round(float(v), 6) if v == v else None for v in ds["titrant_molinity"]]


def saved(case, ctx):
    d = ctx.dir()
    ds = table([("good", 0), ("bad", 0), ("sample", "b")], None)
    for w in DPLOTS:
        for ext in ("png", "pdf"):
            f = os.path.join(d, f"{w}.{ext}")
            dplot(ds, w, ctx, f"{w} saved as {ext}", fname=f)
            ctx.state(w, ext)
            ctx.check(os.path.isfile(f) and os.path.getsize(f) > 1000, "saved", f"{w}: {ext} figure not saved")
    ctx.check(sorted(os.listdir(d)) == sorted(f"{w}.{e}" for w in DPLOTS for e in ("png", "pdf")), "saved", f"files {os.listdir(d)}")
    return "saved"

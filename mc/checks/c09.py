"""C09: titration files are read and written faithfully."""
import itertools
import os

import numpy as np

PROPERTY = "C09"
BOUNDS = {
    "quick": "plain text: every delimiter (6) x header length 0-4 (header lines that look like data included) x every ordered choice of 3 of 3-5 columns, "
             "and every number format (6) x line ending (4) x length (3) x delimiter; PC LIMS: every preamble and postamble of <=2 lines over 8 and 7 kinds of line, "
             "x length x sign, the titration at the end of the file x 4 line ends, every column choice of 6-7 columns; Tiamo: every preamble (6) x start volume x length x encoding, blanks in each derived column; "
             "written files: every combination of 3 formats (7 each) x mode x existing file x header lines; every kind of container (9) x format x length; titrations of up to 2500 points in every layout",
    "thorough": "the same with <=3 preamble and postamble lines, all column choices of <=6 columns with every delimiter and header length",
}
ASSUMES = ["a titration has at least 2 points in plain text files",
           "PC LIMS and Tiamo files hold no backslashes (they are decoded as unicode_escape)"]
CHUNK = 400
DELIMS = ["\t", ",", ";", " ", "|", "::"]
FMT = ["repr", "%.3f", "%.6e", "%d", "%+.2f", "%12.4f"]
END = ["\n", "\r\n", "none", "blank"]
PRE = ["$S PC/LIMS V1", "P 5.862.0024\tS 20014", "\t", "CRM1\t\t85.9040\tg", "\t\t49.8537\tg", "", "1\t2.50\t3.0", "17.5"]
POST = ["$E", "2.3715\t147.055\t25.203\t55.0\t21.9\t1", "557.0\t8\t81\t0\t\t\t0\t\t0", "TA Dynamisch\tsaved\tCL ()", "",
        "9\t4.0000\t167.1\t0.0\t0.0\t21.3", "4\t\t\t2\t%\t3\toff"]
TPRE = {
    "none": [],
    "times": ["2024-10-25 11:17:44 UTC+2", "-13f375cc:192c2436d35:-7f6c", ""],
    "table": ["Steilheit.1", "Zeit [s];Messwert;dU/dt [mV/min];Temperatur [\u00b0C]", "0.0;5.73;0.0;20.47", "2.0;6.33;-1169.5;20.5", "", ""],
    "similar": ["Gran.11", "Volumen [mL];Messwert", "1.0;2.0", ""],
    "umlaut": ["L\u00f6sung \u00b5L;1;2;3", ""],
    "semicolons": [";;;;;;;", "1;2;3;4;5;6;7;8"],
}


def cases(tier):
    th = tier == "thorough"
    out = []
    for ncol in (3, 4, 5) + ((6,) if th else ()):
        for cols in itertools.permutations(range(ncol), 3):
            for dl in DELIMS:
                for h in range(5):
                    out.append({"k": "plain", "ncol": ncol, "cols": cols, "delim": dl, "header": h, "n": 4, "fmt": "repr", "end": "\n",
                                "numeric": (h + sum(cols)) % 2 == 0})
    for fmt in FMT:
        for end in END:
            for n in (2, 3, 9):
                for dl in DELIMS:
                    for num in (False, True):
                        out.append({"k": "plain", "ncol": 3, "cols": (0, 1, 2), "delim": dl, "header": 2, "n": n, "fmt": fmt, "end": end, "numeric": num})
    r = range(4 if th else 3)
    for a in r:
        for pre in itertools.product(range(len(PRE)), repeat=a):
            for b in r:
                if a + b > (4 if th else 4):
                    continue
                for post in itertools.product(range(len(POST)), repeat=b):
                    out.append({"k": "pclims", "pre": pre, "post": post, "n": 1 + (sum(pre) + sum(post)) % 4, "neg": (a + b) % 2 == 0})
    for n in (1, 2, 3, 8):
        for neg in (False, True):
            for ncol in (6, 7):
                for cols in itertools.permutations(range(ncol), 3):
                    out.append({"k": "pclims", "pre": [0, 3], "post": [0, 1], "n": n, "neg": neg, "ncol": ncol, "cols": cols})
    for pre in TPRE:
        for start in (0.0, 3.5, 0.123):
            for n in (1, 2, 3, 8):
                for enc in (None, "latin-1", "utf-8", "utf-16", "cp1252"):
                    out.append({"k": "tiamo", "pre": pre, "start": start, "n": n, "enc": enc})
    for n in (2, 3, 6):
        for ncol in (4, 5):
            for cols in itertools.permutations(range(ncol), 3):
                for dl in DELIMS:
                    for spare in ("12:30", "", "ok", "nan"):
                        if spare or dl != " ":
                            out.append({"k": "plain", "ncol": ncol, "cols": cols, "delim": dl, "header": 2, "n": n, "fmt": "repr", "end": "\n",
                                        "numeric": False, "spare": spare, "twice": n == 6})
        for start in (0.0, 3.5):
            for blank in range(1, 8):
                for twice in (False, True):
                    out.append({"k": "tiamo", "pre": "times", "start": start, "n": n, "enc": None, "blank": blank, "twice": twice})
        out.append({"k": "pclims", "pre": [0, 3], "post": [0, 1], "n": n, "neg": True, "twice": True})
    for n in (60, 300, 2500):  # long titrations
        out.append({"k": "plain", "ncol": 4, "cols": (0, 2, 3), "delim": "\t", "header": 2, "n": n, "fmt": "repr", "end": "\n", "numeric": False})
        out.append({"k": "pclims", "pre": [0, 3], "post": [0, 1], "n": n, "neg": True})
        out.append({"k": "tiamo", "pre": "times", "start": 3.5, "n": n, "enc": None})
        out.append({"k": "write", "f": [".5f", ".4f", ".2f"], "mode": None, "exists": False, "n": n, "lines": 0})
    for n in (1, 2, 3, 8):  # the file ends with the titration, with or without a last line break
        for pre in ([], [0], [3, 4]):
            for tail in ("\n", "", "\n\n", "\r\n"):
                out.append({"k": "pclims", "pre": pre, "post": [], "n": n, "neg": False, "tail": tail})
    F = [".3f", ".6f", ".4e", ".0f", "10.2f", ".10f", ".17g"]
    for fa in F:
        for fm in F:
            for ft in F:
                out.append({"k": "write", "f": [fa, fm, ft], "mode": None, "exists": False, "n": 5, "lines": 0})
    for f in F:
        for n in (0, 1, 2, 7):
            for mode in (None, "x", "w"):
                for exists in (False, True):
                    for lines in (0, 1, 2):
                        out.append({"k": "write", "f": [f, f, f], "mode": mode, "exists": exists, "n": n, "lines": lines})
    for how in CONTAINERS:
        for f in F[:4] + F[5:]:
            for n in (0, 1, 2, 5):
                for path in (False, True):
                    out.append({"k": "write", "f": [f, ".5f", ".2f"], "mode": None, "exists": False, "n": n, "lines": 0, "as": how, "path": path})
    return out


def data(n, neg=False, which=0):
    i = np.arange(n)
    a = np.round(0.15 * i + 0.05 * which, 4)
    m = np.round(-60.25 + 71.3 * i, 3) if neg else np.round(180.125 + 37.31 * i, 3)
    t = np.round(24.6 + 0.1 * (i % 4), 2)
    return a, m, t


def doubled(arrays):
    """The same point recorded twice (a point measured again)."""
    for x in arrays:
        x[2::2] = x[1:-1:2][: len(x[2::2])]
    return arrays


def fmt(v, f):
    if f == "repr":
        return repr(float(v))
    return (f % int(v)) if f == "%d" else (f % v)


def run(case, ctx):
    ctx.state(case)
    ctx.step()
    ctx.validate()
    return {"plain": plain, "pclims": pclims, "tiamo": tiamo, "write": write}[case["k"]](case, ctx)


def compare(ctx, dd, want, what):
    want = [np.array(w, dtype=float) for w in want]
    ctx.check(len(dd) == 3, "fields", f"{what}: {len(dd)} fields")
    for name, w, g in zip(("titrant_amount", "measurement", "temperature"), want, dd):
        ctx.close("numbers", np.asarray(getattr(dd, name), dtype=float), w, 1e-12, 0, f"{what}: {name}")
        ctx.close("numbers", np.asarray(g, dtype=float), w, 1e-12, 0, f"{what}: field of {name}")


def plain(c, ctx):
    import calkulate as calk

    abc = data(c["n"], which=1)
    if c.get("twice"):
        abc = doubled(abc)
    ncol, dl = c["ncol"], c["delim"]
    table = [[99.5 + j + (0 if c.get("twice") else 10 * i) for j in range(ncol)] for i in range(c["n"])]
    for i in range(c["n"]):
        for col, arr in zip(c["cols"], abc):
            table[i][col] = arr[i]
    if "spare" in c:  # text in a column that is not used, in some rows or all
        for i in range(c["n"]):
            for j in set(range(ncol)) - set(c["cols"]):
                if (i + j) % 3 or c["n"] < 3:
                    table[i][j] = c["spare"]
    cell = lambda v: v if isinstance(v, str) else fmt(v, c["fmt"]).strip() if dl == " " else fmt(v, c["fmt"])
    lines = []
    for h in range(c["header"]):
        lines.append(dl.join(["0.5", "170.0", "25.0", "1", "2", "3"][:ncol]) if c["numeric"] else
                     ["some text", "amount%semf%stemperature%sx" % (dl, dl, dl), "", "12"][h % 4])
    lines += [dl.join(cell(v) for v in r) for r in table]
    nl = "\r\n" if c["end"] == "\r\n" else "\n"
    s = nl.join(lines)
    s += {"none": "", "blank": nl + nl}.get(c["end"], nl)
    p = ctx.path("t.dat")
    with open(p, "w", newline="") as f:
        f.write(s)
    kw = {}
    if dl != "\t":
        kw["delimiter"] = dl
    if c["header"] != 2:
        kw["skip_header"] = c["header"]
    for name, col, dflt in zip(("col_titrant_amount", "col_measurement", "col_temperature"), c["cols"], (0, 1, 2)):
        if col != dflt:
            kw[name] = col
    want = [[float(cell(r[col])) for r in table] for col in c["cols"]]
    for ft in ({}, {"file_type": "vindta"}, {"file_type": "genfromtxt"}):
        compare(ctx, calk.read_dat(p, **ft, **kw), want, f"{c} {ft}")
    ctx.check(open(p, newline="").read() == s, "file changed", f"{c}")
    return want[0]


def pclims(c, ctx):
    import calkulate as calk

    a, m, t = data(c["n"], c["neg"], which=2)
    if c.get("twice"):
        a, m, t = doubled([a, m, t])
    ncol = c.get("ncol", 6)
    cols = c.get("cols", (1, 2, 5))
    lines = [PRE[i] for i in c["pre"]]
    rows = []
    for i in range(c["n"]):
        r = [float(50 + j + (0 if c.get("twice") else i)) for j in range(ncol)]
        for col, arr in zip(cols, (a, m, t)):
            r[col] = float(arr[i])
        rows.append("\t".join("%.4f" % v if j % 2 else "%.3f" % v for j, v in enumerate(r)))
    if "tail" in c:
        lines += rows
        s = ("\r\n" if c["tail"] == "\r\n" else "\n").join(lines) + c["tail"]
    else:
        lines += rows + ["$E"] + [POST[i] for i in c["post"]]
        s = "\n".join(lines) + "\n"
    p = ctx.path("t.txt")
    with open(p, "w", encoding="latin-1", newline="") as f:
        f.write(s)
    kw = {}
    if ncol != 6:
        kw["n_cols"] = ncol
    if tuple(cols) != (1, 2, 5):
        kw.update(col_titrant_amount=cols[0], col_measurement=cols[1], col_temperature=cols[2])
    want = [[float(r.split("\t")[col]) for r in rows] for col in cols]
    compare(ctx, calk.read_dat(p, file_type="pclims", **kw), want, f"{c}")
    return want


def tiamo(c, ctx):
    import calkulate as calk

    a, m, t = data(c["n"], which=3)
    m = np.round(8.1 - 0.31 * np.arange(c["n"]), 6)
    if c.get("twice"):
        a, m, t = doubled([a, m, t])
    lines = list(TPRE[c["pre"]])
    lines += ["Start pH einstellen.1", "Zeit [s];Messwert;Volumen [mL];dV/dt [\u00b5L/min];Temperatur [\u00b0C]",
              "0.0;7.41;9.75;0.0;20.8", "2.0;7.43;%r;1032.2;20.9" % c["start"], "", ""]
    lines += ["Gran.1", "Volumen [mL];Messwert;dMW [pH];Zeit [s];Temperatur [\u00b0C];Berechnet 1;Berechnet 2;Berechnet 3"]
    for i in range(c["n"]):
        r = ("%r;%r;-0.5;%r;%r;7.5;0.4;215.1" % (float(a[i]), float(m[i]), 0.0 if c.get("twice") else 30.0 * i, float(t[i]))).split(";")
        if c.get("blank", 0) in (2, 3, 5, 6, 7) and i != 1:  # not every point has every derived value
            r[c["blank"]] = ""
        lines.append(";".join(r))
    p = ctx.path("t.old")
    with open(p, "w", encoding=c["enc"] or "latin-1") as f:
        f.write("\n".join(lines) + "\n")
    kw = {"encoding": c["enc"]} if c["enc"] else {}
    compare(ctx, calk.read_dat(p, file_type="tiamo_de", **kw), [a + c["start"], m, t], f"{c}")
    return c["start"]


def _series(index):
    import pandas as pd

    return lambda x: pd.Series(x, index=index(len(x)))


CONTAINERS = {"array": lambda x: x, "list": lambda x: x.tolist(), "tuple": lambda x: tuple(x.tolist()), "int": lambda x: x,
              "series": _series(lambda n: range(n)), "reversed": _series(lambda n: list(range(n))[::-1]),
              "labels": _series(lambda n: ["p%d" % i for i in range(n)]), "late": _series(lambda n: range(7, 7 + n)),
              "strided": lambda x: np.repeat(x, 2)[::2]}


def write(c, ctx):
    import calkulate as calk

    a, m, t = data(c["n"], True, which=4)
    a, m, t = a + 0.123456789, m * 1.000123456, t - 30.00098765
    p = ctx.path("t.dat")
    old = "must stay\n\n1\t2\t3\n"
    if c["exists"]:
        with open(p, "w") as f:
            f.write(old)
    kw = {}
    if c["mode"]:
        kw["mode"] = c["mode"]
    if c["lines"]:
        kw["line0"] = ["", "1.0\t2.0\t3.0"][c["lines"] - 1]
        kw["line1"] = ["x", "4.0\t5.0\t6.0"][c["lines"] - 1]
    kw.update(titrant_amount_fmt=c["f"][0], measurement_fmt=c["f"][1], temperature_fmt=c["f"][2])
    if c["f"] == [".3f"] * 3:
        for k in list(kw):
            if k.endswith("_fmt"):
                del kw[k]  # the default
    how = c.get("as", "array")
    if how == "int":
        a, m, t = [np.round(x).astype(int) for x in (a, m, t)]
    before = [x.copy() for x in (a, m, t)]
    given = [CONTAINERS[how](x) for x in (a, m, t)]
    if c.get("path"):
        import pathlib

        p = pathlib.Path(p)
    try:
        calk.write_dat(p, *given, **kw)
        wrote = True
    except FileExistsError:
        wrote = False
    should = c["mode"] == "w" or not c["exists"]
    ctx.check(wrote == should, "overwrite", f"{c}: {'wrote' if wrote else 'refused to write'}")
    if not wrote or not should:
        ctx.check(open(p).read() == old, "overwrite", f"{c}: the existing file has changed")
        return wrote
    s = open(p).read().split("\n")
    ctx.check(len(s) == c["n"] + 3 and s[-1] == "", "lines", f"{c}: {len(s)} lines")
    if c["lines"]:
        ctx.check(s[:2] == [kw["line0"], kw["line1"]], "header", f"{c}: header {s[:2]}")
    want = [[float(format(float(v), f)) for v in x] for x, f in zip((a, m, t), c["f"])]
    text = [["%s" % format(float(v), f) for v in x] for x, f in zip((a, m, t), c["f"])]
    for i in range(c["n"]):
        ctx.check(s[2 + i].split("\t") == [x[i] for x in text], "format", f"{c}: line {s[2 + i]!r}")
    ctx.check(all(np.array_equal(x, y) for x, y in zip((a, m, t), before)), "input", f"{c}: the arrays have changed")
    if c["n"] >= 2:
        compare(ctx, calk.read_dat(p), want, f"{c}")
    return wrote

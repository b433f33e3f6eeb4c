"""C13: compiled DISP results hold each cell's own search results; swaps are counted once, by dQ level and factor.

Bounded: the compilation is driven on arbitrary recorded search results (any order of arrival, any excluded features)."""
from .c12 import D, LEVELS, small


def recorded(B, m, n, k):
    """a displacement object with arbitrary recorded results"""
    import numpy as np
    V, U = B.arr("V", (m, n), lo=0), B.arr("U", (m, n), lo=0.2)
    W, H = B.arr("W", (m, k), lo=0.05), B.arr("H", (k, n), lo=0.05)
    feats = [j for j in range(n) if B.bool(f"kept{j}")] or [0]
    sa = B.ns({"V": V, "U": U, "W": W, "H": H, "Qtrue": 10.0, "seed": 42, "method": "ls-nmf", "factors": k,
               "metadata": {"max_iterations": 5, "converge_delta": 0.1, "converge_n": 3}})
    labels = [f"spec{j}" for j in range(n)]
    d = B.call(D, sa, labels, features=list(feats), cores=1, parallel=False)
    Hs, tot = H + 0.0, H.sum(axis=0)
    res = []
    for up in (True, False):
        cells = [(f, j) for f in range(k) for j in feats]
        r = np.random.default_rng(B.int(f"order{int(up)}", 0, None, 0, 10 ** 6))
        if B.bool("out_of_order"):
            cells = [cells[q] for q in r.permutation(len(cells))]
        out = {}
        for f, j in cells:
            lv = {}
            for q, L in enumerate(LEVELS):
                mod = 1 + r.uniform(0, 2) if up else r.uniform(0, 1)
                x = H[f, j] * mod
                lv[L] = {"dQ": np.float64(r.uniform(L - 0.1, L)), "value": x, "percent": x / (tot[j] - H[f, j] + x),
                         "search steps": int(r.integers(1, 9)), "swap": bool(r.integers(0, 2)), "conc": (W[:, f] * x).sum(),
                         "Q_drop": np.float64(r.uniform(-5, 5))}
            out.setdefault(f"factor-{f+1}", {})[f"feature-{j}"] = lv
        res.append(out)
    d.increase_results, d.decrease_results = res
    return d, sa, feats, labels, W, H


def cells_ok(B, d, k, n, feats, labels, W, H):
    import numpy as np
    H = np.asarray(d.H)
    df = d.compiled_results
    share = H / H.sum(axis=0)
    B.ensure("one row per level, factor and feature", len(df) == len(LEVELS) * k * n)
    for lv in LEVELS:
        for f in range(k):
            for j in range(n):
                row = df[(df["dQ"] == lv) & (df["factor"] == f) & (df["feature"] == labels[j])]
                B.ensure("every cell is reported once", len(row) == 1)
                if len(row) != 1:
                    return
                row = row.iloc[0]
                conc = float((W[:, f] * H[f, j]).sum())
                close = lambda a, b: abs(float(a) - float(b)) <= 1e-6 * (1 + abs(float(b)))
                B.ensure("the base share is that of the cell", close(row["profile"], share[f, j]))
                B.ensure("the base concentration is that of the cell", close(row["conc"], conc))
                if j in feats:
                    i_, d_ = (r[f"factor-{f+1}"][f"feature-{j}"][lv] for r in (d.increase_results, d.decrease_results))
                else:
                    i_ = d_ = {"percent": share[f, j], "conc": conc, "Q_drop": 0.0}
                B.ensure("the upper share is that of the upward search of the cell", close(row["profile_max"], i_["percent"]))
                B.ensure("the lower share is that of the downward search of the cell", close(row["profile_min"], d_["percent"]))
                B.ensure("the upper concentration is that of the upward search of the cell", close(row["conc_max"], max(i_["conc"], 1e-4)))
                B.ensure("the lower concentration is that of the downward search of the cell", close(row["conc_min"], max(d_["conc"], 1e-4)))
                B.ensure("the reported drop is the largest of the cell", close(row["dQ_drop"], min(i_["Q_drop"], d_["Q_drop"], 0.0)))
                B.ensure("lower bound, base value and upper bound are ordered",
                         row["profile_min"] <= row["profile"] + 1e-9 and row["profile"] <= row["profile_max"] + 1e-9
                         and row["conc_min"] <= row["conc_max"] + 1e-9)


def swaps(d, k):
    import numpy as np
    sw, cn = np.zeros((len(LEVELS), k)), np.zeros((len(LEVELS), k))
    for r in (d.increase_results, d.decrease_results):
        for f in r:
            for g in r[f]:
                for lv in r[f][g]:
                    q = LEVELS.index(lv), int(f[7:]) - 1
                    cn[q] += 1
                    sw[q] += bool(r[f][g][lv]["swap"])
    return sw, cn


def contract_compile(B):
    import csv
    import json
    import os
    import numpy as np
    m, n, k = B.dim("m", chi=5), B.dim("n", chi=5), B.dim("k", chi=4)
    many = B.choice("many", ["", "", "", "", "factors", "features"])      # labels of two digits
    if many:
        n, k = (2, 11) if many == "factors" else (12, 2)
    d, sa, feats, labels, W, H = recorded(B, m, n, k)
    old = [np.array(x, copy=True) for x in (d.H, d.W, sa.H)]
    B.method(d, "_compile_results")
    if B.bool("twice"):
        B.method(d, "_compile_results")
    cells_ok(B, d, k, n, feats, labels, W, H)
    sw, cn = swaps(d, k)
    B.ensure("every model is counted once at its own level and factor", np.array_equal(d.count_table, cn))
    B.ensure("every swap is counted once at its own level and factor", np.array_equal(d.swap_table, sw))
    for nm, a, o in zip(("profiles", "contributions", "base profiles"), (d.H, d.W, sa.H), old):
        B.ensure(f"the {nm} are not modified", np.array_equal(a, o))
    pct = 100 * sw / cn
    shown = []

    class Fig:
        def __init__(self, data=None, **kw):
            shown.append(data)

        def update_layout(self, *a, **kw):
            pass

        def show(self, *a, **kw):
            pass
    B.patch("esat.error.displacement:go", B.ns({"Figure": Fig, "Table": lambda header=None, cells=None, **kw: (header, cells)}))
    B.method(d, "summary")
    hd, ce = shown[0][0]
    cols = [list(map(float, c)) for c in ce["values"]]
    B.ensure("the printed table has a column per factor", len(cols) == k + 1 and len(hd["values"]) == k + 1)
    for r, lv in enumerate(cols[0]):
        B.ensure("printed rows carry the share of swaps of their own dQ level", lv in LEVELS and all(
            abs(cols[f + 1][r] - pct[LEVELS.index(lv), f]) <= 0.0051 for f in range(k)))
    B.ensure("every dQ level is printed", sorted(cols[0]) == sorted(LEVELS))
    # written tables
    out = B.tmpdir()
    p = B.method(d, "save", "disp", out, pickle_result=False)
    B.ensure("the results can be written", p is not None)
    with open(os.path.join(out, "disp-swaptable.csv")) as f:
        rows = [q for q in csv.reader(f)]
    body = [[float(x) for x in q] for q in rows[1:]]
    B.ensure("every dQ level is written", sorted(q[0] for q in body) == sorted(LEVELS))
    for q in body:
        B.ensure("written rows carry the share of swaps of their own dQ level", all(
            abs(q[f + 1] - pct[LEVELS.index(int(q[0])), f]) <= 0.0051 for f in range(k)))
    for which, r in (("increase", d.increase_results), ("decrease", d.decrease_results)):
        with open(os.path.join(out, f"disp-{which}-disp.json")) as f:
            js = json.load(f)
        ok = all(abs(js[a][b][str(lv)]["percent"] - r[a][b][lv]["percent"]) < 1e-12 and js[a][b][str(lv)]["swap"] == r[a][b][lv]["swap"]
                 for a in r for b in r[a] for lv in r[a][b])
        B.ensure(f"the written {which} results are the recorded ones", ok)
    import pandas as pd
    rd = pd.read_csv(os.path.join(out, "disp-results.csv"))
    B.ensure("the written results are the compiled ones", list(rd.columns) == list(d.compiled_results.columns) and all(
        np.allclose(rd[c], d.compiled_results[c]) if c != "feature" else list(rd[c]) == list(d.compiled_results[c])
        for c in rd.columns))
    p = B.method(d, "save", "disp", out, pickle_result=True)
    l = B.call(D + ".load", p)
    B.ensure("a pickled result comes back the same", np.array_equal(l.swap_table, d.swap_table) and l.compiled_results.equals(d.compiled_results))


def contract_run(B):
    """bounded: whole runs on real searches"""
    import numpy as np
    sa, m, n, k, feats = small(B)
    labels = [f"spec{j}" for j in range(n)]
    d = B.call(D, sa, labels, features=list(feats), cores=2, parallel=B.bool("parallel"))
    B.method(d, "run", batch=1)
    B.assume(not d.compiled_results.isnull().values.any())
    cells_ok(B, d, k, n, feats, labels, np.asarray(d.W), np.asarray(sa.H))
    sw, cn = swaps(d, k)
    B.ensure("every model is counted once at its own level and factor", np.array_equal(d.count_table, cn) and cn.sum() == 8 * k * len(feats))
    B.ensure("every swap is counted once at its own level and factor", np.array_equal(d.swap_table, sw))


def contract_cells(B):
    """two factors, two features, two dQ levels: every recorded value, every swap flag of one cell, every order of the records"""
    m, k, n, LV = B.dim("m", lo=1, chi=5), 2, 2, [32, 4]
    W, H = B.arr("W", (m, k), lo=0, strict=True), B.arr("H", (k, n), lo=0, strict=True)
    excl = B.choice("excluded", [None, 1])
    feats = [j for j in range(n) if j != excl]
    swapped = B.choice("cell of the swaps", [(0, 0), (1, 0), (1, feats[-1])])
    order = B.choice("order", [1, -1])
    rec, flags = {}, {}
    out = []
    for up in (0, 1):
        d1 = []
        for f in range(k)[::order]:
            d2 = []
            for j in feats[::-order]:
                d3 = []
                for q, L in enumerate(LV):
                    key = (up, f, j, q)
                    fl = B.bool(f"swap{up}{q}") if (f, j) == swapped else (f + j + q + up) % 2 == 1
                    v = {x: B.real(f"{x}{up}{f}{j}{q}", clo=-3, chi=3) for x in ("percent", "conc", "Q_drop", "value", "dQ")}
                    rec[key], flags[key] = v, fl
                    d3.append((L, B.pydict(list(v.items()) + [("swap", fl), ("search steps", 1)])))
                d2.append((f"feature-{j}", B.pydict(d3)))
            d1.append((f"factor-{f+1}", B.pydict(d2)))
        out.append(B.pydict(d1))
    seen = {}

    def frame(data=None, **kw):
        seen["data"] = data
        return B.opaque("frame")
    B.lib_override("pandas", "DataFrame", B.builtin(frame, "DataFrame"))
    snaps = [B.snap(x) for x in (W, H)]
    c = B.obj(D, {"W": W, "H": H, "dQmax": B.pylist(LV), "factors": k, "excluded_features": B.pylist([] if excl is None else [excl]),
                  "feature_labels": B.pylist(["fa", "fb"]), "increase_results": out[0], "decrease_results": out[1],
                  "compiled_results": None, "swap_table": None, "count_table": None})
    B.method(c, "_compile_results")
    d = seen["data"] if B.symbolic else B.get(c, "compiled_results")
    col = lambda x, i: B.item(B.item(d, x), i)
    rows = [(q, f, j) for q in range(len(LV)) for f in range(k) for j in range(n)]
    B.ensure("one row per level, factor and feature", B.eq(B.length(B.item(d, "dQ")), len(rows)))
    least = lambda a, b: B.If(a < b, a, b)
    floor = lambda x: B.If(x > 1e-4, x, 1e-4)
    for i, (q, f, j) in enumerate(rows):
        share = B.div(H[f, j], H[0, j] + H[1, j])
        conc = B.SUM(m, lambda s: W[s, f] * H[f, j])
        B.ensure("rows are in order of level, factor and feature", B.And(B.eq(col("dQ", i), LV[q]), B.eq(col("factor", i), f), col("feature", i) == ["fa", "fb"][j]))
        B.ensure("the base share is that of the cell", B.eq(col("profile", i), share))
        B.ensure("the base concentration is that of the cell", B.eq(col("conc", i), conc))
        a, b = ((rec[0, f, j, q], rec[1, f, j, q]) if j in feats else ({"percent": share, "conc": conc, "Q_drop": 0.0},) * 2)
        B.ensure("the upper share is that of the upward search of the cell", B.eq(col("profile_max", i), a["percent"]))
        B.ensure("the lower share is that of the downward search of the cell", B.eq(col("profile_min", i), b["percent"]))
        B.ensure("the upper concentration is that of the upward search of the cell", B.eq(col("conc_max", i), floor(a["conc"])))
        B.ensure("the lower concentration is that of the downward search of the cell", B.eq(col("conc_min", i), floor(b["conc"])))
        B.ensure("the reported drop is the largest of the cell", B.eq(col("dQ_drop", i), least(least(a["Q_drop"], b["Q_drop"]), 0.0)))
    sw, ct = B.get(c, "swap_table"), B.get(c, "count_table")
    for q in range(len(LV)):
        for f in range(k):
            ks = [(u, f, j, q) for u in (0, 1) for j in feats]
            tot = 0
            for x in ks:
                tot = tot + B.If(flags[x], 1, 0)
            B.ensure("every model is counted once at its own level and factor", B.eq(ct[q, f], len(ks)))
            B.ensure("every swap is counted once at its own level and factor", B.eq(sw[q, f], tot))
    for nm, x, o in zip(("contributions", "profiles"), (W, H), snaps):
        B.same(f"the {nm} are not modified", x, o)


contract_compile.opts = {"prove": False}
contract_run.opts = {"prove": False, "cases": 0.3}
CONTRACTS = ["contract_cells", "contract_compile", "contract_run"]

"""C14: BS-DISP uses every completed bootstrap run exactly once: envelopes of the intervals, sums of the swap counts.

Bounded: the aggregation is driven through run() on arbitrary displacement results of the runs (sequential and parallel, any run
labels) and on whole real runs."""
from .bsmodel import bootstrap

BD = "esat.error.bs_disp:BSDISP"
STATE = {}
LV = [4, 2, 1, 0.5]


class FakeDisp:
    """a displacement object whose results are given in advance, by model"""

    def __init__(self, sa=None, feature_labels=None, model_selected=None, threshold_dQ=None, max_search=None, features=None,
                 parallel=True, cores=-1):
        self.given = (sa.key, threshold_dQ, max_search, list(feature_labels), None if features is None else list(features))
        self.dQmax = [32, 16, 8, 4]

    def run(self, batch=1):
        key = self.given[0]
        self.ran = getattr(self, "ran", 0) + 1
        self.levels = list(self.dQmax)
        self.batch = batch
        self.compiled_results, self.swap_table, self.count_table = [x.copy() for x in STATE["results"][key]]


class FakeModel:
    def __init__(self, key):
        self.key = key


def table(B, r, k, n):
    """displacement results of one run"""
    import numpy as np
    import pandas as pd
    rows = [(lv, f, f"spec{j}") for lv in LV for f in range(k) for j in range(n)]
    q = r.uniform(0.05, 0.9, len(rows))
    lo, hi = q * r.uniform(0, 1, len(rows)), q + (1 - q) * r.uniform(0, 1, len(rows))
    c = r.uniform(0.1, 50, len(rows))
    drop = np.minimum(0, r.uniform(-3, 6, len(rows))) * (r.uniform() < 0.7)
    df = pd.DataFrame({"dQ": [x[0] for x in rows], "factor": [x[1] for x in rows], "feature": [x[2] for x in rows],
                       "profile": q, "profile_max": hi, "profile_min": lo, "conc": c,
                       "conc_max": c * r.uniform(1, 3, len(rows)), "conc_min": c * r.uniform(0, 1, len(rows)), "dQ_drop": drop})
    cnt = np.full((4, k), 2.0 * n)
    sw = r.integers(0, 2 * n + 1, (4, k)) * (r.uniform() < 0.7)
    return df, sw.astype(float), cnt


def envelope(B, what, d, tabs):
    import numpy as np
    df = d.compiled_results
    t0 = tabs[0][0]
    B.ensure(what + "one row per level, factor and feature", len(df) == len(t0))
    st = lambda c: np.array([t[0][c].to_numpy(dtype=float) for t in tabs])
    B.ensure(what + "the rows are labelled as in the runs", all(list(df[c]) == list(t0[c]) for c in ("dQ", "factor", "feature")))
    for c, f in (("profile_max", np.max), ("profile_min", np.min), ("conc_max", np.max), ("conc_min", np.min), ("dQ_drop", np.min),
                 ("conc", np.mean), ("profiles", np.mean)):
        if c == "profiles" and c not in df.columns:
            c = "profile"
        src = "profile" if c == "profiles" else c
        word = {"max": "largest", "min": "smallest", "amin": "smallest", "amax": "largest", "mean": "mean"}[f.__name__]
        B.ensure(what + f"{c} is the {word} of all runs", np.allclose(df[c].to_numpy(dtype=float), f(st(src), axis=0), rtol=1e-5, atol=1e-9))
    B.ensure(what + "swap counts are the sums over all runs", np.allclose(d.swap_table, sum(t[1] for t in tabs)))
    B.ensure(what + "model counts are the sums over all runs", np.allclose(d.count_table, sum(t[2] for t in tabs)))
    B.ensure(what + "runs with swaps are counted once", d.disp_swap == sum(1 for t in tabs if (t[1] > 0).any()))
    B.ensure(what + "runs with a drop of Q are counted once", d.n_drops == sum(1 for t in tabs if (t[0]["dQ_drop"] < 0).any()))


def contract_aggregate(B):
    import numpy as np
    import pandas as pd
    n, k, runs = B.dim("n", chi=4), B.dim("k", chi=3), B.dim("runs", chi=5)
    r = np.random.default_rng(B.int("seed", 0, None, 0, 10 ** 6))
    keys = list(range(1, runs + 1))
    if B.bool("gaps"):          # failed bootstrap runs leave gaps
        keys = sorted(int(x) for x in r.choice(np.arange(1, 2 * runs + 2), runs, replace=False))
    if B.bool("shuffled"):
        keys = [keys[q] for q in r.permutation(runs)]
    STATE["results"] = {q: table(B, r, k, n) for q in keys}
    tabs = [STATE["results"][q] for q in keys]
    keep = [[x.copy() for x in t] for t in tabs]
    cnt = r.integers(0, runs + 1, (k, k)).astype(float)
    mp = pd.DataFrame({"Boot Factors": [f"Boot Factor {i+1}" for i in range(k)], **{f"Base Factor {j+1}": cnt[:, j] for j in range(k)},
                       "Unmapped": [0] * k})
    bs = B.ns({"bs_results": {q: {"model": FakeModel(q), "mapping": {}, "index": []} for q in keys}, "bootstrap_n": runs, "block_size": 3,
               "threshold": 0.6, "bs_seed": 4, "mapping_df": mp})
    feats = None if B.bool("all") else list(range(n))
    thr, ms = B.real("thr", lo=0.01), B.int("search", 1, None, 1, 90)
    sa = B.ns({"factors": k, "V": np.ones((3, n)), "U": np.ones((3, n)), "W": np.ones((3, k)), "H": np.ones((k, n)), "seed": 1})
    labels = [f"spec{j}" for j in range(n)]
    B.patch("esat.error.bs_disp:Displacement", FakeDisp)
    B.patch("esat.error.bs_disp:clear_screen", lambda *a, **kw: None)
    d = B.call(BD, sa, labels, bootstrap=bs, features=feats, threshold_dQ=thr, max_search=ms)
    B.method(d, "run", parallel=B.bool("parallel"))
    if B.bool("again"):
        B.method(d, "run", parallel=False)
    B.ensure("every run has one displacement result", sorted(d.disp_results) == sorted(keys))
    for q, x in d.disp_results.items():
        B.ensure("every result is that of its own bootstrap model with the configured settings",
                 x.given == (q, thr, ms, labels, feats) and x.ran == 1 and x.batch == q)
        B.ensure("the runs are displaced at the BS-DISP levels", x.levels == LV)
    envelope(B, "", d, tabs)
    B.ensure("best fit swaps are the factors not always mapped to themselves", d.fit_swaps == sum(1 for i in range(k) if cnt[i, i] < runs))
    for t, o in zip(tabs, keep):
        B.ensure("the results of the runs are not modified", t[0].equals(o[0]) and np.array_equal(t[1], o[1]))
    shown = []

    class Fig:
        def __init__(self, data=None, **kw):
            shown.append(data)

        def update_layout(self, *a, **kw):
            pass

        def show(self, *a, **kw):
            pass
    B.patch("esat.error.bs_disp:go", B.ns({"Figure": Fig, "Table": lambda header=None, cells=None, **kw: (header, cells)}))
    B.method(d, "summary")
    cols = [list(map(float, c)) for c in shown[0][0][1]["values"]]
    pct = 100 * sum(t[1] for t in tabs) / sum(t[2] for t in tabs)
    B.ensure("every dQ level is printed", sorted(cols[0]) == sorted(LV))
    for q, lv in enumerate(cols[0]):
        B.ensure("printed rows carry the share of swaps of their own dQ level", lv in LV and all(
            abs(cols[f + 1][q] - pct[LV.index(lv), f]) <= 0.0051 for f in range(k)))


def contract_run(B):
    """bounded: whole runs"""
    import numpy as np
    m, n, k = B.dim("m", lo=6, chi=8), B.dim("n", lo=3, chi=4), 2
    V = B.arr("V", (m, n), lo=0.5).astype("float32")
    U = B.arr("U", (m, n), lo=0.25).astype("float32")
    sa = B.call("esat.model.sa:SA", V, U, k, seed=3)
    B.method(sa, "initialize")
    B.method(sa, "train", max_iter=6, converge_n=50)
    B.patch("esat.error.bs_disp:clear_screen", lambda *a, **kw: None)
    runs = B.int("runs", 1, None, 1, 3)
    bs = B.call("esat.error.bootstrap:Bootstrap", sa, feature_labels=[f"f{j}" for j in range(n)], bootstrap_n=runs, block_size=2,
                parallel=False, seed=7)
    B.method(bs, "run", keep_H=True)
    d = B.call(BD, sa, [f"f{j}" for j in range(n)], bootstrap=bs)
    B.method(d, "run", parallel=B.bool("parallel"))
    B.ensure("every run is displaced", sorted(d.disp_results) == list(range(1, runs + 1)))
    tabs = [(x.compiled_results, x.swap_table, x.count_table) for x in d.disp_results.values()]
    B.assume(not any(t[0].isnull().values.any() for t in tabs))
    envelope(B, "whole run: ", d, tabs)
    for x in d.disp_results.values():
        B.ensure("whole run: the runs are displaced at the BS-DISP levels", sorted(set(x.compiled_results["dQ"])) == sorted(LV))
    out = B.tmpdir()
    p = B.method(d, "save", "bsd", out, pickle_result=False)
    B.ensure("whole run: the results can be written", p is not None)
    import os
    import pandas as pd
    rd = pd.read_csv(os.path.join(out, "bsd-results.csv"))
    B.ensure("whole run: the written intervals are the compiled ones", np.allclose(rd["profile_min"], d.compiled_results["profile_min"])
             and np.allclose(rd["profile_max"], d.compiled_results["profile_max"]))


contract_aggregate.opts = {"prove": False, "cases": 0.6}
contract_run.opts = {"prove": False, "cases": 0.1}
CONTRACTS = ["contract_aggregate", "contract_run"]

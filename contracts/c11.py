"""C11: bootstrap factors are mapped to the best correlated base factor, and the table counts every decision once.

map_contributions and map_factors are proved for every factor matrix against the squared Pearson correlation; the table and
whole runs are bounded stand-ins on the real code."""
from .bsmodel import bootstrap, BS


def r2of(B, n, f, g):
    c = B.corr(n, f, g)
    return c * c


def decisions(B, k, mp, r2, thr):
    B.ensure("one decision per factor", B.eq(B.length(mp), k))

    def each(i):
        d = B.item(mp, i)
        best, val, ok = B.item(d, "match"), B.item(d, "r2"), B.item(d, "mapped")
        return best, val, ok
    B.forall("the match is a base factor", (k,), lambda i: B.And(each(i)[0] >= 0, each(i)[0] < k))
    B.forall("the reported r2 is that of the match", (k,), lambda i: B.eq(each(i)[1], r2(i, each(i)[0]), atol=1e-6))
    B.forall("no base factor correlates better", (k, k), lambda i, j: B.le(r2(i, j), each(i)[1]))
    B.forall("mapped exactly when the threshold is reached", (k,),
             lambda i: B.iff(each(i)[2], B.Not(each(i)[1] < thr)))


def factors(B):
    m, n, k = B.dim("m", lo=2), B.dim("n", lo=2, chi=6), B.dim("k", chi=4)
    W1, W2 = B.arr("W1", (m, k), lo=0, strict=True), B.arr("W2", (m, k), lo=0, strict=True)
    H1, H2 = B.arr("H1", (k, n), lo=0, strict=True), B.arr("H2", (k, n), lo=0, strict=True)
    thr = B.real("threshold", lo=0, hi=1)
    b, V, U, W, H = bootstrap(B, m, n, k, threshold=thr, W=W2, H=H2)
    return m, n, k, W1, H1, W2, H2, thr, b


def defined(B, k, r2):
    """correlations exist (no constant profile); rounding cannot decide between two of them or at the threshold"""
    if not B.symbolic:
        for i in range(k):
            for j in range(k):
                B.assume(r2(i, j) == r2(i, j))


def contract_contributions(B):
    m, n, k, W1, H1, W2, H2, thr, b = factors(B)
    old = [B.snap(x) for x in (W1, H1, W2, H2)]
    w1, h1, w2, h2 = old
    tot = lambda w, h: (lambda i: (lambda j: B.SUM(m, lambda s: w[s, i] * h[i, j])))
    c1, c2 = tot(w1, h1), tot(w2, h2)
    r2 = lambda i, j: r2of(B, n, c1(i), c2(j))
    defined(B, k, r2)
    mp = B.method(b, "map_contributions", W1=W1, H1=H1, W2=W2, H2=H2, threshold=thr)
    decisions(B, k, mp, r2, thr)
    for nm, a, o in zip(("W1", "H1", "W2", "H2"), (W1, H1, W2, H2), old):
        B.same(f"{nm} is not modified", a, o)


def contract_profiles(B):
    m, n, k, W1, H1, W2, H2, thr, b = factors(B)
    h1, h2 = B.snap(H1), B.snap(H2)
    r2 = lambda i, j: r2of(B, n, lambda x: h1[i, x], lambda x: h2[j, x])
    defined(B, k, r2)
    mp = B.method(b, "map_factors", H1, H2, thr)
    decisions(B, k, mp, r2, thr)


def contract_table(B):
    """bounded: the table built from arbitrary decisions"""
    import numpy as np
    k, runs = B.dim("k", chi=4), B.dim("runs", chi=7)
    b, V, U, W, H = bootstrap(B, 3, 3, k)
    B.assume(H.shape[0] == k)
    res, q = {}, []
    cnt, un = np.zeros((k, k)), np.zeros(k)
    for r in range(1, runs + 1):
        mp = {}
        for i in range(k):
            j, ok = B.int(f"match{r}_{i}", 0, None, 0, k - 1), B.bool(f"mapped{r}_{i}")
            mp[i] = {"match": j, "r2": 0.5, "mapped": ok}
            if ok:
                cnt[i, j] += 1
            else:
                un[i] += 1
        q.append(B.real(f"q{r}", lo=0))
        res[r] = {"model": B.ns({"Qrobust": q[-1]}), "mapping": mp, "index": []}
    b.bs_results = res
    B.method(b, "_build_table")
    df = b.mapping_df
    B.ensure("one row per factor", len(df) == k)
    for i in range(k):
        for j in range(k):
            B.ensure("the table counts the runs in which the factor was mapped there", df[f"Base Factor {j+1}"].iloc[i] == cnt[i, j])
        B.ensure("the table counts the runs in which the factor was unmapped", df["Unmapped"].iloc[i] == un[i])
        B.ensure("rows are labelled by their factor", df["Boot Factors"].iloc[i] == f"Boot Factor {i+1}")
        B.ensure("every row adds up to the number of runs",
                 sum(df[f"Base Factor {j+1}"].iloc[i] for j in range(k)) + df["Unmapped"].iloc[i] == runs)
    B.ensure("the loss table lists every run", [float(x) for x in b.q_results["Q(robust)"]] == [float(x) for x in q])


def contract_run(B):
    """bounded: whole runs, including the parallel worker"""
    import numpy as np
    m, n, k = B.dim("m", lo=6, chi=9), B.dim("n", lo=3, chi=5), B.dim("k", lo=2, chi=3)
    V = B.arr("V", (m, n), lo=0.5).astype("float32")
    U = B.arr("U", (m, n), lo=0.25).astype("float32")
    sa = B.call("esat.model.sa:SA", V, U, k, seed=3)
    B.method(sa, "initialize")
    B.method(sa, "train", max_iter=5, converge_n=50)
    thr = B.choice("thr", [0.2, 0.6, 0.95, 0.999])
    b = B.call(BS, sa, bootstrap_n=B.int("runs", 1, None, 1, 3), block_size=2, parallel=False, threshold=thr, seed=7)
    B.method(b, "run", keep_H=B.bool("keep"), block=B.bool("block"))
    W2, H2 = np.array(sa.W, float), np.array(sa.H, float)
    for r in b.bs_results.values():
        M = r["model"]
        W1, H1 = np.array(M.W, float), np.array(M.H, float)
        c1 = [W1[:, i].sum() * H1[i] for i in range(k)]
        c2 = [W2[:, i].sum() * H2[i] for i in range(k)]
        for i in range(k):
            R = [np.corrcoef(c1[i], c2[j])[0, 1] ** 2 for j in range(k)]
            B.assume(not np.isnan(R).any())
            d = r["mapping"][i]
            B.ensure("runs are mapped to the base model", abs(d["r2"] - R[d["match"]]) < 1e-3 and d["r2"] >= max(R) - 1e-3)
            B.ensure("runs use the configured threshold", d["mapped"] == (d["r2"] >= thr) or abs(d["r2"] - thr) < 1e-6)
    tot = b.mapping_df.drop(columns=["Boot Factors"]).to_numpy(dtype=float).sum(axis=1)
    B.ensure("every row adds up to the number of runs", (tot == len(b.bs_results)).all())
    for f in range(k):
        for q, r in enumerate(b.bs_results.values()):
            Hn = np.array(r["model"].H)
            B.ensure("profile tables are the runs' profiles",
                     np.allclose(b.factor_tables[f][q], np.where(Hn[f] < 1e-8, 0, Hn[f]), atol=1e-4))


contract_contributions.opts = {"cost": 5}
contract_profiles.opts = {"cost": 5}
contract_table.opts = {"prove": False}
contract_run.opts = {"prove": False, "cases": 0.5}
CONTRACTS = ["contract_contributions", "contract_profiles", "contract_table", "contract_run"]
ASSUMES = ["correlations are defined (no factor has a constant profile)"]

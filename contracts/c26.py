"""C26: the factor catalog counts every observed factor exactly once, in the factor it matches best.

The comparison of a factor with a catalog factor of any number of members, the choice of the best match among any number of
catalog factors and the bookkeeping of one added factor are proved; whole catalogs filled from models and batches are a
bounded stand-in on the real code, against a plain re-statement of the merge rule."""
FC = "eval.factor_catalog:"


def metric(B, method, profile, fH, fW, H, W, m, n):
    if profile:
        c = B.corr(n, fH, H)
        return c * c
    if method == "raae":
        return B.div(B.SUM(m, lambda i: B.abs(fW(i) - W(i))), B.SUM(m, fW))
    if method == "emc":
        def mass(w, h):
            mw = B.div(B.SUM(m, w), m)
            tot = B.SUM(n, lambda j: mw * h(j))
            return lambda j: B.div(mw * h(j), tot)
        c = B.corr(n, mass(fW, fH), mass(W, H))
        return c * c
    c = B.corr(m, fW, W)
    return c * c


def contract_check(B):
    m, n, k = B.dim("m", lo=3, chi=7), B.dim("n", lo=3, chi=6), B.dim("members", chi=4)
    FH, FW = B.arr("FH", (k, n), lo=0, strict=True), B.arr("FW", (k, m), lo=0, strict=True)
    H, W = B.arr("H", (n,), lo=0, strict=True), B.arr("W", (m,), lo=0, strict=True)
    method = B.choice("method", ["raae", "emc", "corr"])
    profile = B.bool("profile only")
    f = B.obj(FC + "Factor", {"method": method, "samples": m, "factor": B.list("factor", k, lambda q: B.pytuple(
        [B.lam((n,), lambda j: FH[q, j]), B.lam((m,), lambda i: FW[q, i])]))})
    profile = bool(B.case(profile))
    r = B.method(f, "check", H, W, profile)
    want = B.div(B.SUM(k, lambda q: metric(B, method, profile, lambda j: FH[q, j], lambda i: FW[q, i], lambda j: H[j],
                                           lambda i: W[i], m, n)), k)
    B.ensure("a factor is compared with every member", B.eq(r, want, tol=1e-6))


def contract_best(B):
    """any number of catalog factors, with any results of the comparisons"""
    k = B.dim("factors", lo=0, chi=5)
    R = B.arr("R", (k,), lo=0, gen=None)
    method = B.choice("method", ["raae", "emc", "corr"])
    profile = bool(B.case(B.bool("profile only")))
    H, W = B.opaque("H"), B.opaque("W")
    fs = B.family(k, lambda q: q, lambda q: B.ns({"check": B.builtin(lambda *a, q=q, **x: R[q])}))
    c = B.obj(FC + "FactorCatalog", {"factors": fs, "method": method})
    r = B.method(c, "check_factor", H, W, profile)
    best, val = B.item(r, 0), B.item(r, 1)
    error = method == "raae" and not profile
    B.forall("no catalog factor matches better", (k,), lambda q: R[q] >= val if error else R[q] <= val)
    none = best is None
    if B.case(B.eq(k, 0)):
        B.ensure("an empty catalog matches nothing", none)
    elif none:
        B.forall("a factor matches unless every comparison is without correlation", (k,), lambda q: B.And(not error, R[q] <= 0))
    else:
        B.ensure("the match is in the catalog", B.And(best >= 0, best < k))
        B.ensure("the value is that of the match", B.eq(B.cell(R, (best,)), val))


def contract_best_matrix(B):
    """any number of catalog factors, with any results of the comparisons"""
    k = B.dim("factors", lo=0, chi=5)
    R = B.arr("R", (k,), lo=0, gen=None)
    x = B.opaque("wh")
    fs = B.family(k, lambda q: q, lambda q: B.ns({"check_matrix": B.builtin(lambda *a, q=q, **o: R[q])}))
    c = B.obj(FC + "FactorCatalog", {"factors": fs, "method": B.choice("method", ["raae", "emc", "corr"])})
    r = B.method(c, "check_matrix", x)
    best, val = B.item(r, 0), B.item(r, 1)
    B.forall("no catalog factor correlates better with the matrix", (k,), lambda q: R[q] <= val)
    if best is None:
        B.forall("a matrix matches unless every comparison is without correlation", (k,), lambda q: R[q] <= 0)
    else:
        B.ensure("the match of the matrix is in the catalog", B.And(best >= 0, best < k))
        B.ensure("the value is that of the match of the matrix", B.eq(B.cell(R, (best,)), val))


def contract_matrix(B):
    m, n, k = B.dim("m", lo=2, chi=6), B.dim("n", lo=2, chi=6), B.dim("members", chi=4)
    FH, FW = B.arr("FH", (k, n), lo=0, strict=True), B.arr("FW", (k, m), lo=0, strict=True)
    X = B.arr("X", (m, n), lo=0, strict=True)
    f = B.obj(FC + "Factor", {"method": "raae", "samples": m, "factor": B.list("factor", k, lambda q: B.pytuple(
        [B.lam((n,), lambda j: FH[q, j]), B.lam((m,), lambda i: FW[q, i])]))})
    r = B.method(f, "check_matrix", X)

    def one(q):
        row = lambda t: t / n if B.symbolic else t // n
        c = B.corr(m * n, lambda t: FW[q, row(t)] * FH[q, t % n], lambda t: X[row(t), t % n])
        return c * c
    B.ensure("a matrix is compared with the matrix of every member", B.eq(r, B.div(B.SUM(k, one), k), tol=1e-6))


def entry(B, q):
    n = B.dim(f"n{q}", chi=3)
    A, M, C = B.arr(f"A{q}", (n,)), B.arr(f"M{q}", (n,), kind="int"), B.arr(f"C{q}", (n,))
    # the members are opaque here: numbers stand for the pairs of profile and contribution
    return n, A, M, C, B.obj(FC + "Factor", {"name": str(q), "factor": B.list(f"factor{q}", n, lambda i: A[i]), "model": B.list(
        f"model{q}", n, lambda i: M[i]), "correlation": B.list(f"corr{q}", n, lambda i: C[i]), "samples": 3, "method": "raae", "threshold": 0.1})


def contract_add(B):
    """one added factor; catalog factors of any size, any result of the comparison (contract_best)"""
    s = B.choice("size", [0, 1, 2, 3])
    es = [entry(B, q) for q in range(s)]
    method = B.choice("method", ["raae", "emc", "corr"])
    profile = bool(B.case(B.bool("profile only")))
    th, val = B.real("threshold", clo=-0.5, chi=2), B.real("value", lo=0, clo=0, chi=2)
    best = B.choice("best", [None] + list(range(3)))
    best = best if best is None or best < s else None
    count, ix = B.int("count", lo=0, clo=0, chi=6), B.int("model", lo=0, clo=0, chi=6)
    H, W = B.arr("H", (4,)), B.arr("W", (5,))
    c = B.obj(FC + "FactorCatalog", {"factors": B.pydict([(q, e[4]) for q, e in enumerate(es)]), "method": method, "threshold": th,
                                     "idx": s, "model_count": count})
    B.set(c, "check_factor", B.builtin(lambda *a, **x: B.pytuple([best, val])))
    r = B.method(c, "add_factor", H, W, ix, profile)
    meets = best is not None and (val <= th if method == "raae" and not profile else val >= th)
    B.ensure("a factor that matches is merged, any other one starts a new factor", B.iff(r, B.Not(meets)))
    new = bool(B.case(r))
    fs = B.get(c, "factors")
    B.ensure("a new factor is one more, a merged one none", B.eq(B.length(fs), s + (1 if new else 0)))
    B.ensure("the next number is the size", B.eq(B.get(c, "idx"), s + (1 if new else 0)))
    B.ensure("every model is counted", B.eq(B.get(c, "model_count"), B.max2(count, ix + 1)))
    for q, (n, A, M, C, o) in enumerate(es):
        f = B.item(fs, q)
        hit = not new and best == q
        for key, X, last in (("factor", A, None), ("model", M, ix), ("correlation", C, val)):
            L = B.get(f, key)
            B.ensure(f"{key}: one entry more in the matching factor, none in the others", B.eq(B.length(L), n + (1 if hit else 0)))
            B.forall(f"{key}: what was there stays", (n,), lambda i: B.eq(B.item(L, i), X[i]))
            if hit and last is not None:
                B.ensure(f"{key}: the observation is recorded with its own", B.eq(B.item(L, n), last))
        if hit:
            p = B.item(B.get(f, "factor"), n)
            B.same("the observed profile is kept", B.item(p, 0), H)
            B.same("the observed contribution is kept", B.item(p, 1), W)
    if new:
        f = B.item(fs, s)
        for key in ("factor", "model", "correlation"):
            B.ensure(f"{key}: a new factor has the one observation", B.eq(B.length(B.get(f, key)), 1))
        B.ensure("it is from the model", B.eq(B.item(B.get(f, "model"), 0), ix))
        p = B.item(B.get(f, "factor"), 0)
        B.same("its profile is the observed one", B.item(p, 0), H)
        B.same("its contribution is the observed one", B.item(p, 1), W)


def contract_catalog(B):
    """bounded: whole catalogs against the merge rule"""
    import numpy as np
    m, n = B.dim("m", lo=4, chi=9), B.dim("n", lo=4, chi=7)
    method = B.choice("method", ["raae", "emc", "corr"])
    profile = B.bool("profile only")
    th = B.choice("threshold", [0.9, 0.5, 0.1, 0.99, 1.2, 0.0])
    r = np.random.default_rng(B.int("seed", 0, None, 0, 10 ** 6))
    k = B.int("k", 1, None, 1, 4)
    W0, H0 = r.uniform(0.01, 5, (m, k)), r.uniform(0.01, 5, (k, n))
    models = []
    for q in range(B.int("models", 1, None, 1, 5)):
        o = list(range(k))
        r.shuffle(o)
        e = r.choice([0.0, 0.05, 0.5, 2.0])
        models.append(B.ns({"W": (W0 * r.uniform(0.5, 1.5, (m, k)) ** e)[:, o], "H": (H0 * r.uniform(0.5, 1.5, (k, n)) ** e)[o],
                            "factors": k, "Qtrue": float(r.uniform(10, 30))}))
    if B.bool("failed") and len(models) > 1:
        models[0] = None
    batch = B.bool("batch")
    out = batch and B.bool("outliers")
    c = B.call(FC + "FactorCatalog", method=method, threshold=th, exclude_outliers=out, outlier_threshold=1.5)
    cat, count, news = [], 0, 0
    error = method == "raae" and not profile
    lim = 1.5 * min(x.Qtrue for x in models if x is not None)
    copies = [None if x is None else (x.W.copy(), x.H.copy()) for x in models]
    near = []
    for i, x in enumerate(models):
        if x is None or (out and x.Qtrue > lim):
            continue
        for f in range(k):
            count = max(count, i + 1)
            vals = [np.mean([metric(B, method, profile, h.__getitem__, w.__getitem__, x.H[f].__getitem__, x.W[:, f].__getitem__, m, n)
                             for h, w, _, _ in e]) for e in cat]
            near += [abs(a - b) for a in vals for b in vals + [th] if a is not b]
            b = None if not vals else int(np.argmin(vals) if error else np.argmax(vals))
            if b is not None and (vals[b] <= th if error else vals[b] >= th):
                cat[b].append((x.H[f].copy(), x.W[:, f].copy(), i, vals[b]))
            else:
                cat.append([(x.H[f].copy(), x.W[:, f].copy(), i, 0.0 if method == "raae" else 1.0)])
                news += 1
    if near and min(near) <= 1e-9:
        return
    if batch:
        got = B.method(c, "add_batch", B.ns({"results": models}), profile)
    else:
        got = sum(B.method(c, "add_model", i, x, profile) for i, x in enumerate(models) if x is not None)
    B.ensure("the number of new factors is returned", got == news)
    B.ensure("the catalog has those factors", list(c.factors) == list(range(len(cat))))
    for q, e in enumerate(cat):
        f = c.factors[q]
        B.ensure("every observation is in the factor it matches best", f.model == [x[2] for x in e])
        B.ensure("members are exactly what was observed", len(f.factor) == len(e) and all(
            np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) for a, b in zip(f.factor, e)))
        B.ensure("correlations are those of the match", np.allclose(f.correlation, [x[3] for x in e], atol=1e-9))
    B.ensure("every model is counted", c.model_count == count)
    d = c.to_df().set_index("factor")
    for q, e in enumerate(cat):
        B.ensure("the count is the number of observations", int(d.loc[q, "count"]) == len(e))
        B.ensure("the occurrence is the count per model", abs(d.loc[q, "% occurrence"] - 100 * len(e) / count) <= 0.0051)
        B.ensure("the correlation is the mean of the members", abs(d.loc[q, "mean corr"] - np.mean([x[3] for x in e])) <= 5.1e-5)
    t = r.choice(len(cat))
    fac = c.factors[t]
    best, val = B.method(c, "compare_factor", fac)
    vals = [np.mean([np.mean([metric(B, method, False, h.__getitem__, w.__getitem__, h2.__getitem__, w2.__getitem__, m, n)
                              for h, w, _, _ in e]) for h2, w2, _, _ in cat[t]]) for e in cat]
    B.ensure("the factor compared best is reported", best is not None and abs(vals[best] - (min(vals) if method == "raae" else max(vals))) <= 1e-9)
    B.ensure("with its value", abs(vals[best] - val) <= 1e-9)
    B.ensure("the models are not modified", all(x is None or (np.array_equal(x.W, y[0]) and np.array_equal(x.H, y[1]))
                                                for x, y in zip(models, copies)))


contract_catalog.opts = {"prove": False, "cases": 4}
CONTRACTS = ["contract_check", "contract_best", "contract_best_matrix", "contract_matrix", "contract_add", "contract_catalog"]
ASSUMES = ["contributions and profiles are positive, correlations are defined", "catalogs of up to three factors in contract_add"]

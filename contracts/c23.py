"""C23: factor estimation samples are trained without the cells they are tested on; the table averages each count's own samples.

One sample is proved for every data set, mask and outcome of the training, the estimate read from the averages for every number
of factor counts; whole searches (process pool, training) are a bounded stand-in on the real code."""
FE = "esat.estimator:FactorEstimator"
SA = "esat.model.sa:SA"
Q = "esat.metrics:"


def contract_sample(B):
    m, n, k = B.dim("m", lo=3, chi=8), B.dim("n", lo=2, chi=5), B.int("k", 1, None, 2, 3)
    mask = B.arr("mask", (m, n), kind="int", lo=0, hi=2)
    V, U = B.arr("V", (m, n), lo=0, strict=True), B.arr("U", (m, n), lo=0, strict=True)
    # a second data set that differs in the masked cells only
    X, Y = B.arr("X", (m, n), lo=0, strict=True), B.arr("Y", (m, n), lo=0, strict=True)
    V2 = B.lam((m, n), lambda i, j: B.If(B.eq(mask[i, j], 1), V[i, j], X[i, j]))
    U2 = B.lam((m, n), lambda i, j: B.If(B.eq(mask[i, j], 1), U[i, j], Y[i, j]))
    ntest = B.ISUM(m, lambda i: B.COUNT(n, lambda j: B.Not(B.eq(1 - mask[i, j], 0))))
    ntrain = B.ISUM(m, lambda i: B.COUNT(n, lambda j: B.Not(B.eq(mask[i, j], 0))))
    B.assume(B.And(ntest >= 1, ntrain >= 1))
    snaps = [B.snap(x) for x in (V, U, mask)]
    seed = B.int("seed", lo=0, clo=0, chi=10 ** 4)
    made = []
    if B.symbolic:
        W, H, WH = B.arr("W", (m, k), lo=0), B.arr("H", (k, n), lo=0), B.arr("WH", (m, n), lo=0)

        def init(self, V=None, U=None, factors=None, method=None, seed=None, **kw):
            made.append((B.snap(V), B.snap(U), factors, seed, self))

        def train(self, *a, **kw):
            for key, v in (("W", W), ("H", H), ("WH", WH)):
                B.setattr(self, key, v)
            return 0
        B.stub(SA + ".__init__", init)
        B.stub(SA + ".initialize", lambda self, *a, **kw: None)
        B.stub(SA + ".train", train)
    else:
        import numpy as np
        from esat.model.sa import SA as Real

        class Recorded(Real):
            def __init__(self, V, U, factors, *a, seed=42, **kw):
                made.append((V.copy(), U.copy(), factors, seed, self))
                super().__init__(V, U, factors, *a, seed=seed, **kw)
        B.patch("esat.estimator:SA", Recorded)
    r = B.call(FE + "._random_sample", V, U, mask, seed, k, 30, 0.01, 5)
    B.call(FE + "._random_sample", V2, U, mask, seed, k, 30, 0.01, 5)
    B.call(FE + "._random_sample", V, U2, mask, seed, k, 30, 0.01, 5)
    B.ensure("every sample is one model", len(made) == 3)
    (tv, tu, tk, ts, sa), (tv2, tu2, _, _, _), (tv3, tu3, _, _, _) = made
    B.ensure("of the factor count and seed of the sample", B.And(B.eq(tk, k), B.eq(ts, seed)))
    B.forall("the training sees the data of the cells that are not masked", (m, n), lambda i, j: B.Implies(
        B.eq(mask[i, j], 1), B.eq(tv[i, j], V[i, j])))
    B.forall("and their uncertainties", (m, n), lambda i, j: B.Implies(B.eq(mask[i, j], 1), B.eq(tu[i, j], U[i, j])))
    B.forall("the training does not depend on the data of masked cells", (m, n), lambda i, j: B.eq(tv[i, j], tv2[i, j]))
    B.forall("nor on the uncertainties of masked cells", (m, n), lambda i, j: B.eq(tu[i, j], tu3[i, j]))
    if not B.symbolic:
        B.forall("the uncertainties trained with do not depend on them either", (m, n), lambda i, j: B.eq(tu[i, j], tu2[i, j]))
        B.forall("the uncertainties trained with are positive", (m, n), lambda i, j: tu[i, j] > 0)
    WH = B.get(sa, "WH")
    sq = lambda i, j: (B.cell(V, (i, j)) - B.cell(WH, (i, j))) * (B.cell(V, (i, j)) - B.cell(WH, (i, j)))
    tr = B.div(B.SUM(m, lambda i: B.SUM(n, lambda j: mask[i, j] * sq(i, j))), ntrain)
    te = B.div(B.SUM(m, lambda i: B.SUM(n, lambda j: (1 - mask[i, j]) * sq(i, j))), ntest)
    close = lambda a, b: B.eq(a, B.round(b, 5)) if B.symbolic else abs(float(a) - float(b)) <= 1.1e-5 + 1e-6 * abs(float(b))
    B.ensure("the training error is that of the cells that are not masked", close(B.item(r, 0), tr))
    B.ensure("the test error is that of the masked cells", close(B.item(r, 1), te))
    B.ensure("with the factor count", B.eq(B.item(r, 2), k))
    w, h = B.get(sa, "W"), B.get(sa, "H")
    B.ensure("Q(true) is the loss of the sample", B.eq(B.item(r, 3), B.call(Q + "q_loss", V, U, w, h), tol=1e-4))
    B.ensure("Q(robust) is its robust loss", B.eq(B.item(r, 4), B.item(B.call(Q + "qr_loss", V, U, w, h), 0), tol=1e-4))
    for nm, x, o in zip(("data", "uncertainties", "mask"), (V, U, mask), snaps):
        B.same(f"the {nm} are not modified", x, o)


def contract_estimate(B):
    """the estimate is the factor count of the highest ratio of lowest to own test error, discounted by the factor count"""
    n = B.dim("counts", lo=2, chi=7)
    lo = B.int("lo", 1, None, 1, 4)
    E = B.arr("E", (n,), lo=0, strict=True)
    T, A, R = B.arr("T", (n,), lo=0), B.arr("A", (n,), lo=0), B.arr("R", (n,), lo=0)
    coef = B.choice("coef", [1.0, 0.5, 2.0])
    c = B.obj(FE, {"min_factors": lo, "max_factors": lo + n, "k_coef": coef, "test_mse": B.list("test", n, lambda q: E[q]),
                   "train_mse": B.list("train", n, lambda q: T[q]), "q_true": B.list("q", n, lambda q: A[q]),
                   "q_robust": B.list("qr", n, lambda q: R[q]), "results_df": None, "estimated_factor": None})
    # the averages are numbers, and so is what is calculated from them
    B.lib_override("numpy", "isnan", B.builtin(lambda a: B.lib.lift(lambda x: x != x, a), "isnan"))
    d = B.method(c, "_results")
    k = B.get(c, "estimated_factor")
    B.ensure("the estimate is one of the counts searched", B.And(k >= lo, k < lo + n))
    B.forall("no other count has a lower discounted test error", (n,), lambda q: B.le(B.cell(E, (k - lo,)) * B.power(k, coef), E[q] * B.power(lo + q, coef), tol=1e-9))
    if not B.symbolic:
        import numpy as np
        B.ensure("the table has one row per count", list(d["Factors"]) == list(range(lo, lo + n)))
        for key, x in (("Test MSE", E), ("Train MSE", T), ("Q(True)", A), ("Q(Robust)", R)):
            B.ensure(f"{key} is the average of the count", np.array_equal(d[key], x))
        B.ensure("the change is from the count before", np.isnan(d["Delta MSE"][0]) and np.allclose(d["Delta MSE"][1:], E[:-1] - E[1:]))


def contract_search(B):
    """bounded: whole searches; the process pool runs its tasks in this process, finishing in any order"""
    import numpy as np
    m, n = B.dim("m", lo=6, chi=12), B.dim("n", lo=4, chi=7)
    r = np.random.default_rng(B.int("seed0", 0, None, 0, 10 ** 6))
    V, U = r.uniform(0.1, 5, (m, n)), r.uniform(0.05, 1, (m, n))
    V0, U0 = V.copy(), U.copy()
    lo = B.int("lo", 1, None, 1, 3)
    hi = lo + B.int("more", 1, None, 1, 3)
    S = B.int("samples", 1, None, 1, 12)
    share = B.choice("share", [0.1, 0.3, 0.5])
    done = []
    order = np.random.default_rng(B.int("order", 0, None, 0, 999))

    class Later:
        def __init__(self, f, a, cb):
            self.f, self.a, self.cb, self.v = f, a, cb, None

        def wait(self, *a):
            todo = [x for x in Pool.queue if x.v is None]
            order.shuffle(todo)
            for x in todo:
                x.v = x.f(*x.a)
                done.append((x.a, x.v))
                if x.cb:
                    x.cb(x.v)

        def get(self, *a):
            self.wait()
            return self.v

    class Pool:
        queue = []

        def __init__(self, *a, **kw):
            Pool.queue = []

        def apply_async(self, f, args=(), kwds=None, callback=None, **kw):
            x = Later(f, args, callback)
            Pool.queue.append(x)
            return x

        def starmap(self, f, it, *a):
            xs = [self.apply_async(f, tuple(t)) for t in it]
            return [x.get() for x in xs]

        def map(self, f, it, *a):
            return self.starmap(f, [(t,) for t in it])
        imap = imap_unordered = map

        def close(self):
            pass
        terminate = close

        def join(self):
            for x in Pool.queue:
                x.wait()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.join()
    B.patch("esat.estimator:mp", B.ns({"Pool": Pool, "cpu_count": lambda: 4}))
    seed = B.int("seed", 0, None, 0, 10 ** 4)
    runs = []
    for _ in range(2):
        done.clear()
        c = B.call(FE, V, U, seed=seed, test_percent=share)
        d = B.method(c, "run", samples=S, min_factors=lo, max_factors=hi, max_iterations=25, converge_delta=0.01, converge_n=5)
        runs.append((c, d, list(done)))
    c, d, tasks = runs[0]
    B.ensure("as many samples as asked for", len(tasks) == S)
    B.ensure("the counts searched are those asked for", list(d["Factors"]) == list(range(lo, hi + 1)) and all(lo <= x[1][2] <= hi for x in tasks))
    for a, v in tasks:
        mask = a[2]
        B.ensure("masks are one cell each", mask.shape == (m, n) and np.isin(mask, (0, 1)).all())
    N = S * m * n
    held = sum((a[2] == 0).sum() for a, _ in tasks)
    B.ensure("the configured share of the cells is held out", abs(held / N - share) <= 5 * np.sqrt(share * (1 - share) / N))
    for col, q in (("Train MSE", 0), ("Test MSE", 1), ("Q(True)", 3), ("Q(Robust)", 4)):
        for f, got in zip(d["Factors"], d[col]):
            own = [x[1][q] for x in tasks if x[1][2] == f]
            B.ensure(f"{col} is the average over the samples of the count", np.isclose(got, np.mean(own), equal_nan=True) if own else np.isnan(got))
    ok = [f for f, x in zip(d["Factors"], d["Test MSE"]) if np.isfinite(x)]
    if ok and all(np.isfinite(x[1][1]) for x in tasks):
        B.ensure("the estimate is a count that was sampled", c.estimated_factor in ok)
    B.ensure("the same seed gives the same table", np.allclose(d.to_numpy(dtype=float), runs[1][1].to_numpy(dtype=float), equal_nan=True))
    B.ensure("the data are not modified", np.array_equal(V, V0) and np.array_equal(U, U0))


contract_search.opts = {"prove": False, "cases": 3}
CONTRACTS = ["contract_sample", "contract_estimate", "contract_search"]
ASSUMES = ["the training returns arbitrary factors and reconstruction (C05-C08 are about the training itself)",
           "masks are zero or one, with at least one cell of each kind"]

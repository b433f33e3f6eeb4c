"""C06: initialisation - shapes, strictly positive profiles, the caller's factors used as given, the seed decides the rest."""
SA = "esat.model.sa:SA"
FLOOR = 1e-12


def model(B, method=None, V=None, seed=None, vlo=0.0, chi=5, pre=None):
    if V is None:
        m, n, k = B.dim("m", lo=2, chi=chi), B.dim("n", chi=chi), B.dim("k", chi=4)
        V = B.arr("V", (m, n), lo=vlo, elem=lambda x, *ix: B.Not(B.isnan(x)))
    num = lambda x, *ix: B.Not(B.isnan(x))
    U = B.arr("U", (m, n), lo=0.1, elem=num)
    method = method or B.choice("method", ["ls-nmf", "ws-nmf"])
    seed = B.int("seed", lo=0, clo=0, chi=999)
    if not B.symbolic:
        V, U = V.astype("float32"), U.astype("float32")
    if pre is not None:
        pre(m, n, k)
    B.lib_override("scipy.cluster.vq", "whiten", B.builtin(lambda obs=None, *a, **kw: obs, "whiten"))
    return m, n, k, V, U, method, seed, B.call(SA, V, U, k, method=method, seed=seed)


def shapes(B, sa, m, n, k):
    B.has_shape("contributions are samples by factors", B.get(sa, "W"), (m, k))
    B.has_shape("profiles are factors by features", B.get(sa, "H"), (k, n))


def positive(B, sa, m, n, k, method):
    H, W = B.get(sa, "H"), B.get(sa, "W")
    B.forall("every profile entry is strictly positive", (k, n), lambda l, j: H[l, j] > 0)
    if method == "ls-nmf":
        B.forall("every contribution is strictly positive", (m, k), lambda i, l: W[i, l] > 0)


def contract_given(B):
    """both factor matrices given: used value for value; profiles that are not positive are floored"""
    m, n, k, V, U, method, seed, sa = model(B)
    gen = lambda r, *ix: r.choice([-1.0, 0.0, 0.25, 1.0, 2.5])
    W, H = B.arr("W", (m, k)), B.arr("H", (k, n), gen=gen)
    if not B.symbolic:
        W, H = W.astype("float32"), H.astype("float32")
    w0, h0 = B.snap(W), B.snap(H)
    B.method(sa, "initialize", H=H, W=W)
    shapes(B, sa, m, n, k)
    B.same("given contributions are used", B.get(sa, "W"), w0)
    h1 = B.get(sa, "H")
    B.forall("given profiles are used wherever positive", (k, n), lambda l, j: B.Implies(h0[l, j] > 0, B.eq(h1[l, j], h0[l, j])))
    B.forall("other profile entries become a tiny positive value", (k, n), lambda l, j: B.Implies(
        B.Not(h0[l, j] > 0), B.And(h1[l, j] > 0, h1[l, j] <= 1e-6)))
    B.same("the caller's contributions are not modified", W, w0)
    B.same("the caller's profiles are not modified", H, h0)


def contract_default(B):
    """no factor matrix, or only one, given"""
    m, n, k, V, U, method, seed, sa = model(B)
    which = B.choice("which", ["none", "H", "W"])
    kw = {}
    if which == "H":
        kw["H"] = B.arr("H", (k, n), lo=0.1)
    if which == "W":
        kw["W"] = B.arr("W", (m, k), lo=0.1)
    if not B.symbolic:
        kw = {a: b.astype("float32") for a, b in kw.items()}
    old = {a: B.snap(b) for a, b in kw.items()}
    B.method(sa, "initialize", **kw)
    shapes(B, sa, m, n, k)
    positive(B, sa, m, n, k, method)
    for nm in old:
        B.same(f"given {nm} is used", B.get(sa, nm), old[nm])
        B.same(f"the caller's {nm} is not modified", kw[nm], old[nm])
    if which == "none":
        B.method(sa, "train", max_iter=0, converge_n=2) if False else None


def contract_partial(B):
    """fewer profiles than factors given: completed with random ones, all strictly positive"""
    m, n, k, V, U, method, seed, sa = model(B, vlo=0.05)
    p = B.dim("p", chi=3)
    B.assume(p < k)
    P = B.arr("P", (p, n), lo=0.1)
    if not B.symbolic:
        P = P.astype("float32")
    p0 = B.snap(P)
    B.method(sa, "initialize", H=P)
    shapes(B, sa, m, n, k)
    positive(B, sa, m, n, k, method)
    B.same("the caller's profiles are not modified", P, p0)


def contract_seed(B):
    """the same data, settings and seed give the same start"""
    m, n, k, V, U, method, seed, sa = model(B)
    im = B.choice("init", ["column_mean", "cm"])
    sb = B.call(SA, V, U, k, method=method, seed=seed)
    B.method(sa, "initialize", init_method=im)
    B.method(sb, "initialize", init_method=im)
    B.same("same contributions", B.get(sa, "W"), B.get(sb, "W"))
    B.same("same profiles", B.get(sa, "H"), B.get(sb, "H"))
    if not B.symbolic:
        import numpy as np
        sc = B.call(SA, V, U, k, method=method, seed=seed + 1)
        B.method(sc, "initialize", init_method=im)
        B.ensure("another seed gives another start", not (
            np.array_equal(sa.W, sc.W) and np.array_equal(sa.H, sc.H)) or not (V.mean(axis=0) > 0).all())


def contract_kmeans(B):
    """k-means start: one profile per cluster centre (the clustering itself is an arbitrary result)"""
    out = {}

    def pre(m, n, k):
        if not B.symbolic:
            return
        C = B.sym_arr("centres", (k, n))
        L = B.arr("labels", (m,), lo=0, kind="int", elem=lambda x, i: x < k)
        seen = B.ns({"seed": B.int_of(-1)})

        def km(data=None, k=None, seed=None, **kw):
            B.setattr(seen, "seed", B.int_of(seed))
            return C, L
        B.lib_override("scipy.cluster.vq", "kmeans2", B.builtin(km, "kmeans2"))
        out.update(c0=B.snap(C), l0=B.snap(L), seen=seen)
    m, n, k, V, U, method, seed, sa = model(B, vlo=0.05, chi=9, pre=pre)
    norm = B.flag("init_norm")
    c0, l0, seen = out.get("c0"), out.get("l0"), out.get("seen")
    if not B.symbolic:
        B.assume(m > n + 1 and k <= m)
    r, err = B.try_method(sa, "initialize", init_method="kmeans", init_norm=norm)
    B.assume(err != "LinAlgError")        # scipy cannot start from these data
    B.ensure("no exception is raised", err is None)
    shapes(B, sa, m, n, k)
    H, W = B.get(sa, "H"), B.get(sa, "W")
    B.forall("every profile entry is strictly positive", (k, n), lambda l, j: H[l, j] > 0)
    if B.symbolic:
        B.forall("profiles are the cluster centres wherever positive", (k, n), lambda l, j: B.Implies(
            c0[l, j] > 0, B.eq(H[l, j], c0[l, j])))
        B.forall("contributions outside the row's cluster are equal shares", (m, k), lambda i, l: B.Implies(
            B.Not(B.eq(l0[i], l)), B.eq(W[i, l], B.div(1, B.real_of(k)))))
        B.ensure("the clustering uses the model's seed", B.eq(B.get(seen, "seed"), seed))
    else:
        import numpy as np
        for i in range(m):
            own = np.abs(W[i] - 1.0 / k) > 1e-7
            B.ensure("at most one cluster per row stands out", own.sum() <= 1)
        sb = B.call(SA, V, U, k, method=method, seed=seed)
        B.method(sb, "initialize", init_method="kmeans", init_norm=norm)
        B.same("same seed, same contributions", sa.W, sb.W)
        B.same("same seed, same profiles", sa.H, sb.H)


CONTRACTS = ["contract_given", "contract_default", "contract_partial", "contract_seed", "contract_kmeans"]
ASSUMES = ["scipy.cluster.vq.whiten returns an array of the shape of its input; kmeans2 returns k centres and labels in 0..k-1",
           "the random generator is a deterministic function of its seed and the sequence of draws",
           "the data have no missing values and non-negative column and row means (the default start takes their square root)"]

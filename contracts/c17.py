"""C17: the constrained model reported after training is the one with the reported losses, on an unchanged base model.

The training loop is proved against arbitrary sequences of pulls and updated factors, the two data losses being arbitrary
functions of the number of updates (loop invariant); whole runs with real constraints and expressions are bounded."""
from .c16 import CM, CO


def qaux(B, m, n, k, s2, Wb, Dw, W, Hb, Dh, H):
    sq = lambda a, d, b, ix: (B.cell(a, ix) + B.cell(d, ix) - B.cell(b, ix)) * (B.cell(a, ix) + B.cell(d, ix) - B.cell(b, ix))
    return B.SUM(m, lambda i: B.div(B.SUM(k, lambda l: sq(Wb, Dw, W, (i, l))), s2)) + \
        B.SUM(k, lambda l: B.div(B.SUM(n, lambda j: sq(Hb, Dh, H, (l, j))), s2))


def contract_train(B):
    m, n, k = B.dim("m", chi=4), B.dim("n", chi=4), B.dim("k", chi=3)
    number = lambda x, *ix: B.Not(B.isnan(x))
    V, U = B.arr("V", (m, n), lo=0.05, elem=number), B.arr("U", (m, n), lo=0.01, elem=number)
    W, H = B.arr("W", (m, k), elem=number), B.arr("H", (k, n), lo=0.01, elem=number)
    We = B.arr("We", (m, n), lo=0.01, elem=number)
    B.lib_override("scipy.cluster.vq", "whiten", B.builtin(lambda obs=None, *a, **kw: obs, "whiten"))
    soft = B.real("softness", lo=0.1)
    max_iter = B.int("max_iter", lo=1, clo=1, chi=20)
    cn, delta = B.int("converge_n", lo=1, clo=1, chi=8), B.real("converge_delta", lo=0, chi=30)
    g = B.ns({"cnt": 0, "pulls": 0})
    if not B.symbolic:
        V, U = V.astype("float32"), U.astype("float32")
    method = B.choice("method", ["ls-nmf", "ws-nmf"])
    if method == "ws-nmf":
        B.assume(k <= n)
    sa = B.ns({"m": m, "n": n, "factors": k, "V": V, "U": U, "We": We, "W": W, "H": H, "method": method, "seed": 7,
               "Qrobust": B.real("Qrobust", lo=1), "Qtrue": B.real("Qtrue", lo=1), "update_step": None})
    if B.symbolic:
        fs = {q: B.fun(q, 3) for q in ("WS", "HS", "DW", "DH")}
        at = lambda q, shape: (lambda t: B.lam(shape, lambda a, b: fs[q](t, a, b)))
        B.axiom(3, lambda t, a, b: B.Not(B.isnan(fs["HS"](t, a, b))))
        Wt, Ht, Dw, Dh = at("WS", (m, k)), at("HS", (k, n)), at("DW", (m, k)), at("DH", (k, n))
    else:
        import numpy as np
        r = np.random.default_rng(B.int("script", 0, None, 0, 10 ** 6))
        sc = B.choice("settling", [0.0, 0.3, 0.9])
        mk = lambda base, low: [np.maximum(base + r.uniform(-1, 1, base.shape) * sc ** q, low) for q in range(25)]
        ws, hs = mk(W, -9), mk(H, 0.0)
        dws, dhs = [r.uniform(-1, 1, W.shape) for q in range(25)], [r.uniform(-1, 1, H.shape) for q in range(25)]
        Wt, Ht, Dw, Dh = [lambda t, z=z: z[t] for z in ([W] + ws, [H] + hs, dws, dhs)]
    W0, H0 = B.snap(W), B.snap(H)

    def step(V, We, W, H):
        t = B.get(g, "cnt")
        B.same("every update gets the base model's data", V, B.get(sa, "V"))
        B.same("every update gets the base model's weights", We, B.get(sa, "We"))
        w, h, dw, dh = cur_w(t), cur_h(t), Dw(t), Dh(t)
        B.forall("every update starts from the pulled contributions", (m, k), lambda a, b: B.eq(
            W[a, b], B.cell(w, (a, b)) + B.cell(dw, (a, b))))
        B.forall("every update starts from the pulled profiles", (k, n), lambda a, b: B.eq(
            H[a, b], B.abs(B.cell(h, (a, b)) + B.cell(dh, (a, b)))))
        B.setattr(g, "cnt", t + 1)
        return Wt(t + 1), Ht(t + 1)

    def cur_w(t):
        return B.lam((m, k), lambda a, b: B.If(B.eq(t, 0), B.cell(W0, (a, b)), B.cell(Wt(t), (a, b)))) if B.symbolic else Wt(t)

    def cur_h(t):
        return B.lam((k, n), lambda a, b: B.If(B.eq(t, 0), B.cell(H0, (a, b)), B.cell(Ht(t), (a, b)))) if B.symbolic else Ht(t)

    def pull(iW=None, iH=None):
        t = B.get(g, "cnt")
        B.same("pulls are taken of the current contributions", iW, cur_w(t))
        B.same("pulls are taken of the current profiles", iH, cur_h(t))
        return B.pytuple((Dw(t), Dh(t))) if B.symbolic else (Dw(t).copy(), Dh(t).copy())
    if B.symbolic:
        B.set(sa, "update_step", B.builtin(step, "update step"))
        QT, QR = B.fun("QT", 1), B.fun("QR", 1)
        B.axiom(1, lambda t: B.And(B.Not(B.isnan(QT(t))), B.Not(B.isnan(QR(t)))))
    else:
        sa.update_step = step
        QT = lambda t: float((((V.astype(float) - Wt(t) @ Ht(t)) / U.astype(float)) ** 2).sum())

        def QR(t):
            s = abs((V.astype(float) - Wt(t) @ Ht(t)) / U.astype(float))
            return float((s * s * (s <= 4) + 4 * s * (s > 4)).sum())
    c = B.call(CM, sa, None, softness=soft)
    if B.symbolic:
        def args(V, U, W, H):
            t = B.get(g, "cnt")
            for nm, a, b in (("base data", V, B.get(sa, "V")), ("base uncertainty", U, B.get(sa, "U")),
                             ("updated contributions", W, Wt(t)), ("updated profiles", H, Ht(t))):
                B.same(f"losses are taken of the {nm}", a, b)
            return t

        def qr(V=None, U=None, W=None, H=None, alpha=4.0):
            B.ensure("the robust loss uses the default threshold", B.eq(alpha, 4))
            return QR(args(V, U, W, H)), B.sym_arr("Urob", (m, n))
        B.stub("esat.metrics:q_loss", lambda V=None, U=None, W=None, H=None: QT(args(V, U, W, H)))
        B.stub("esat.metrics:qr_loss", qr)
        B.stub(CM + "._calculate_pull_matrices", lambda self, iW=None, iH=None: pull(iW, iH))
        B.stub(CM + "._map_expressions", lambda self: None)
        s2 = soft * soft
        qa = lambda t: qaux(B, m, n, k, s2, B.get(sa, "W"), Dw(t - 1), Wt(t), B.get(sa, "H"), Dh(t - 1), Ht(t))

        def inv(L):
            i = L.i
            ql = L.get("Q_list")
            out = [("the update count is the iteration number", B.eq(B.get(g, "cnt"), i)),
                   ("contributions are the latest", (m, k), lambda a, b: B.eq(B.cell(L.get("W_i"), (a, b)), B.cell(cur_w(i), (a, b)))),
                   ("profiles are the latest", (k, n), lambda a, b: B.eq(B.cell(L.get("H_i"), (a, b)), B.cell(cur_h(i), (a, b)))),
                   ("the window length", B.And(B.length(L.get("qm_list")) >= 0, B.length(L.get("qm_list")) <= cn))]
            for nm, v, want in (("Qtrue_i", L.get("Qtrue_i"), QT), ("Qrobust_i", L.get("Qrobust_i"), QR), ("Qaux_i", L.get("Qaux_i"), qa)):
                if v is not None:       # set by the first iteration
                    out.append((f"{nm} is the latest", B.Implies(i >= 1, B.eq(v, want(i)))))
            return out + [("iterations done", i >= 0)]

        def at_start(L):
            L.fr.env["W_i"] = cur_w(L.i)
            L.fr.env["H_i"] = cur_h(L.i)
        B.loop(CM + ".train", "for", 0, inv, types={"qm_list": "real", "dQ": "real", "Qtrue_i": "real", "Qrobust_i": "real", "Qaux_i": "real",
                                                   "Qmain_i": "real", "i": "int"}, at_start=at_start)
    else:
        c._calculate_pull_matrices = pull
        c._map_expressions = lambda: None
    B.method(c, "add_constraint", "set to zero", B.pytuple((0, 0)), "feature")
    B.method(c, "train", max_iterations=max_iter, converge_delta=delta, converge_n=cn)
    T = B.get(g, "cnt")
    B.ensure("at least one and at most the allowed number of updates", B.And(T >= 1, T <= max_iter))
    out = B.get(c, "constrained_model")
    wt, ht, dw, dh = B.snap(Wt(T)), B.snap(Ht(T)), Dw(T - 1), Dh(T - 1)
    B.same("the contributions are those of the last update", B.get(out, "W"), wt)
    B.same("the profiles are those of the last update", B.get(out, "H"), ht)
    B.same("the model holds the base data", B.get(out, "V"), V)
    B.same("the model holds the base uncertainty", B.get(out, "U"), U)
    wh = B.get(out, "WH")
    B.forall("the reconstruction is the product of the final factors", (m, n), lambda i, j: B.eq(
        wh[i, j], B.SUM(k, lambda l: wt[i, l] * ht[l, j]), tol=1e-5, atol=1e-9))
    B.ensure("the reported Q(true) is that of the final factors", B.eq(B.get(out, "Qtrue"), QT(T), tol=2e-4))
    B.ensure("the reported Q(robust) is that of the final factors", B.eq(B.get(out, "Qrobust"), QR(T), tol=2e-4))
    want = qaux(B, m, n, k, soft * soft, W0, dw, wt, H0, dh, ht)
    B.ensure("the auxiliary loss is the weighted squared distance of the factors from their targets", B.eq(
        B.get(c, "Qaux"), want, tol=1e-6, atol=1e-9))
    md = B.get(out, "metadata")
    for key, v in (("Q(True)", QT(T)), ("Q(Robust)", QR(T)), ("Q(Aux)", want)):
        B.ensure(f"the recorded {key} is the reported one", B.eq(B.item(md, key), v, tol=2e-4))
    for nm, a, b in (("contributions", W, W0), ("profiles", H, H0)):
        B.same(f"the base {nm} are not modified", a, b)


def contract_whole(B):
    """bounded: whole runs from a trained base model"""
    import numpy as np
    m, n, k = B.dim("m", lo=4, chi=7), B.dim("n", lo=3, chi=5), B.dim("k", lo=2, chi=3)
    V = B.arr("V", (m, n), lo=0.5).astype("float32")
    U = B.arr("U", (m, n), lo=0.25).astype("float32")
    sa = B.call("esat.model.sa:SA", V, U, k, seed=B.int("seed", 0, None, 0, 99), method=B.choice("method", ["ls-nmf", "ws-nmf"]))
    B.method(sa, "initialize")
    B.method(sa, "train", max_iter=B.int("base", 1, None, 1, 30), converge_n=50)
    B.assume(bool(np.isfinite(sa.W).all() and np.isfinite(sa.H).all()))
    keep = {q: np.array(getattr(sa, q)) for q in ("V", "U", "We", "W", "H", "WH")}
    qs = (sa.Qtrue, sa.Qrobust)
    c = B.call(CM, sa, None, softness=B.choice("softness", [1.0, 0.5, 3.0]))
    B.method(c, "train", max_iterations=3)
    B.ensure("without constraints nothing is trained", c.constrained_model is None)
    from .c16 import TYPES
    for q in range(B.int("count", 0, None, 0, 4)):
        t = B.r.choice(["feature", "sample"])
        ix = (B.r.randrange(k), B.r.randrange(n)) if t == "feature" else (B.r.randrange(m), B.r.randrange(k))
        a, b = sorted([B.r.randint(0, 40) / 8, B.r.randint(1, 40) / 8])
        B.method(c, "add_constraint", B.r.choice(TYPES), ix, t, target_value=a, min_value=a, max_value=b, dQ=b * 50)
    if not c.constraints or B.bool("expression"):
        B.method(c, "add_expression", "(1.5*[factor:0|feature:0])-(2.0*[factor:1|feature:1])=0,250")
    seen, real = [], c._calculate_pull_matrices

    def pull(iW, iH):
        d = real(iW=iW, iH=iH)
        seen.append(tuple(np.array(x, copy=True) for x in d))
        return d
    c._calculate_pull_matrices = pull
    try:
        B.method(c, "train", max_iterations=B.int("iters", 1, None, 1, 25), converge_delta=B.choice("delta", [1e-2, 5.0]),
                 converge_n=3)
    except ValueError as e:     # the solver of the expressions rejects elements that are all (almost) zero
        B.assume("bound" not in str(e))
        raise
    o = c.constrained_model
    for q, a in keep.items():
        B.ensure(f"the base model's {q} is unchanged", np.array_equal(np.array(getattr(sa, q)), a, equal_nan=True))
    B.ensure("the base model's losses are unchanged", (sa.Qtrue, sa.Qrobust) == qs)
    B.assume(bool(np.isfinite(o.W).all() and np.isfinite(o.H).all()))
    Vd, Ud, wd, hd = [np.asarray(x, float) for x in (V, U, o.W, o.H)]
    close = lambda a, b: abs(float(a) - float(b)) <= 1e-3 * max(1.0, abs(float(b)))
    s = abs((Vd - wd @ hd) / Ud)
    B.ensure("the reconstruction is the product of the final factors", np.allclose(o.WH, wd @ hd, rtol=1e-4, atol=1e-6))
    B.ensure("the reported Q(true) is that of the final factors", close(o.Qtrue, (s * s).sum()))
    B.ensure("the reported Q(robust) is that of the final factors", close(o.Qrobust, (s * s * (s <= 4) + 4 * s * (s > 4)).sum()))
    dw, dh = seen[-1]
    want = (((keep["W"] + dw - wd) ** 2).sum() + ((keep["H"] + dh - hd) ** 2).sum()) / c.softness ** 2
    B.ensure("the auxiliary loss is the weighted squared distance of the factors from their targets", close(c.Qaux, want))
    B.ensure("one loss of each kind per update", all(len(q) == len(seen) for q in c.Q_list) and close(c.Q_list[0][-1], o.Qtrue))


contract_whole.opts = {"prove": False, "cases": 0.6}
CONTRACTS = ["contract_train", "contract_whole"]
ASSUMES = ["losses are not NaN"]

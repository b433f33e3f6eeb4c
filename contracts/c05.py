"""C05: a model works on private copies, with weights 1/U^2, floored uncertainties and the right algorithm; models with
missing values or mismatched shapes are invalid and are not trained."""
SA = "esat.model.sa:SA"
LS, WS = "esat.model.ls_nmf:LSNMF.update", "esat.model.ws_nmf:WSNMF.update"
EPS = 1e-12
METHODS = ["ls-nmf", "ws-nmf", "LS-NMF", "WS-NMF", "pmf"]


def is_ls(method):
    return method.lower() != "ws-nmf"


def contract_construct(B):
    m, n, k = B.dim("m"), B.dim("n"), B.dim("k", chi=4)
    num = lambda x, *ix: B.Not(B.isnan(x))
    V = B.arr("V", (m, n), elem=num)
    U = B.arr("U", (m, n), lo=-1, elem=num, gen=lambda r, *ix: r.choice([-1.0, 0.0, 1e-20, 0.25, 1.5, 3.0, 7.0]))
    method = B.choice("method", METHODS)
    seed = B.int("seed", lo=0, clo=0, chi=99)
    if not B.symbolic:
        V, U = V.astype("float32"), U.astype("float32")
    v0, u0 = B.snap(V), B.snap(U)
    sa = B.call(SA, V, U, k, method=method, seed=seed)
    B.same("the model's data are the caller's", B.get(sa, "V"), v0)
    fl = lambda i, j: B.If(u0[i, j] < EPS, EPS, u0[i, j])
    B.has_shape("uncertainty keeps its shape", B.get(sa, "U"), (m, n))
    u1, we = B.get(sa, "U"), B.get(sa, "We")
    B.forall("tiny and non-positive uncertainties are floored, others kept", (m, n),
             lambda i, j: B.eq(u1[i, j], fl(i, j), tol=1e-6, atol=0))
    B.has_shape("one weight per cell", we, (m, n))
    B.forall("weights are the inverse squared uncertainties", (m, n),
             lambda i, j: B.eq(we[i, j], B.div(1, fl(i, j) * fl(i, j)), tol=1e-5, atol=0))
    for nm, val in (("m", m), ("n", n), ("factors", k), ("seed", seed)):
        B.ensure(f"{nm} is recorded", B.eq(B.get(sa, nm), val))
    B.ensure("the method is recorded", B.eq(B.get(sa, "method"), "ls-nmf" if is_ls(method) else "ws-nmf"))
    B.same("the caller's data are not modified", V, v0)
    B.same("the caller's uncertainty is not modified", U, u0)
    x = B.real("x")
    B.setitem(B.get(sa, "V"), (0, 0), x)
    B.setitem(B.get(sa, "U"), (0, 0), x)
    B.setitem(B.get(sa, "We"), (0, 0), x)
    B.same("changing the model's arrays leaves the caller's data alone", V, v0)
    B.same("changing the model's arrays leaves the caller's uncertainty alone", U, u0)


def step_result(B, tag, V, We, W, H, hold_h):
    """an arbitrary function of the arguments (the steps themselves are the subject of C01 and C03)"""
    fw, fh = B.fun(tag + "W", 4, args=["int", "int", "real", "bool"]), B.fun(tag + "H", 4, args=["int", "int", "real", "bool"])
    (m, k), n = B.shape(W), B.shape(H)[1]
    x = lambda i, j, l: B.cell(V, (i, j)) + 2 * B.cell(We, (i, j)) + 3 * B.cell(W, (i, l)) + 5 * B.cell(H, (l, j))
    return (B.lam((m, k), lambda i, l: fw(i, l, B.SUM(n, lambda j: x(i, j, l)), hold_h)),
            B.lam((k, n), lambda l, j: fh(l, j, B.SUM(m, lambda i: x(i, j, l)), hold_h)))


def contract_dispatch(B):
    """the selected update is LS-NMF's exactly for ls-nmf on data without negative values"""
    m, n, k = B.dim("m", chi=4), B.dim("n", chi=4), B.dim("k", chi=2)
    method = B.choice("method", METHODS)
    neg = B.flag("negative")
    num = lambda x, *ix: B.Not(B.isnan(x))
    V = B.arr("V", (m, n), lo=None if neg else 0, elem=num)
    U = B.arr("U", (m, n), lo=0.1, elem=num)
    if neg:
        B.assume(B.ANY(m, lambda i: B.ANY(n, lambda j: V[i, j] < 0)))
    sa = B.call(SA, V, U, k, method=method)
    W = B.arr("W", (m, k), lo=0.1)
    H = B.arr("H", (k, n), lo=0.1)
    We = B.arr("We", (m, n), lo=0.1)
    V2 = B.arr("V2", (m, n), lo=0.1)
    hold = B.flag("hold")
    if not B.symbolic:
        B.assume(k <= n)
    f = B.get(sa, "update_step")
    if B.symbolic:
        for key, t in ((LS, "ls"), (WS, "ws")):
            B.stub(key, lambda V=None, We=None, W=None, H=None, hold_h=False, t=t: step_result(B, t, V, We, W, H, hold_h))
    a, b = B.apply(f, V=V2, We=We, W=W, H=H, hold_h=hold)
    want = LS if is_ls(method) and not neg else WS
    c, d = B.call(want, V=V2, We=We, W=W, H=H, hold_h=hold)
    B.same("contributions are those of the selected algorithm", a, c)
    B.same("profiles are those of the selected algorithm", b, d)


def contract_valid(B):
    """missing values or a shape mismatch make the model invalid: it is not trained; otherwise it is"""
    m, n, k = B.dim("m", chi=4), B.dim("n", chi=4), B.dim("k", chi=2)
    what = B.choice("what", ["clean", "V", "U", "W", "H", "W shape", "U rows"])
    gen = lambda r, *ix: float("nan") if r.random() < 0.1 else 0.5 + r.randint(0, 9) / 8

    def mat(name, shape):
        if what == name:
            # a missing value compares false with every bound
            return B.arr(name, shape, gen=gen, elem=(lambda x, *ix: B.Implies(B.isnan(x), x >= 1)) if B.symbolic else None)
        return B.arr(name, shape, lo=0.5, elem=lambda x, *ix: B.Not(B.isnan(x)))
    V = mat("V", (m, n))
    U = mat("U", (m + 1, n) if what == "U rows" else (m, n))
    H = mat("H", (k, n))
    W = mat("W", (m, k + 1) if what == "W shape" else (m, k))
    g = B.ns({"cnt": 0})

    def step(V, We, W, H, hold_h=False):
        B.setattr(g, "cnt", B.get(g, "cnt") + 1)
        return W, H
    B.stub("esat.metrics:q_loss", lambda V=None, U=None, W=None, H=None, uncertainty=True: B.sym("Q"))
    B.stub("esat.metrics:qr_loss", lambda V=None, U=None, W=None, H=None, alpha=4.0: (B.sym("QR"), B.sym_arr("UR", (m, n))))
    sa = B.call(SA, V, U, k)
    B.method(sa, "initialize", H=H, W=W, init_norm=False)
    B.set(sa, "update_step", B.builtin(step))
    r = B.method(sa, "train", max_iter=1, converge_n=5)
    bad = {"clean": False, "W shape": True, "U rows": True,
           "V": B.ANY(m, lambda i: B.ANY(n, lambda j: B.isnan(V[i, j]))),
           "U": B.ANY(m, lambda i: B.ANY(n, lambda j: B.isnan(U[i, j]))) if what != "U rows" else False,
           "H": B.ANY(k, lambda i: B.ANY(n, lambda j: B.isnan(H[i, j]))),
           "W": B.ANY(m, lambda i: B.ANY(k, lambda j: B.isnan(W[i, j]))) if what != "W shape" else False}[what]
    rejected = r is not None
    if rejected:
        B.ensure("only inputs with missing values or mismatched shapes are rejected", B.And(B.eq(r, -1), bad))
        B.ensure("a rejected model is not updated", B.eq(B.get(g, "cnt"), 0))
    else:
        B.ensure("inputs with missing values or mismatched shapes are rejected", B.Not(bad))
        B.ensure("an accepted model is trained", B.eq(B.get(g, "cnt"), 1))


CONTRACTS = ["contract_construct", "contract_dispatch", "contract_valid"]
ASSUMES = ["a missing value is modelled as a real that compares false with every bound used; infinite values are not covered"]

"""C03: one WS-NMF update solves the weighted normal equations for W and applies the semi-NMF rule to H."""
WS = "esat.model.ws_nmf:WSNMF.update"
EPS = 1e-12


def inputs(B):
    m, n, k = B.dim("m"), B.dim("n", chi=7), B.dim("k", chi=3)
    if not B.symbolic:
        B.assume(k <= n)
    V = B.arr("V", (m, n))
    We = B.arr("We", (m, n), lo=0, strict=True, scale=B.scale("weights"))
    W = B.arr("W", (m, k))
    H = B.arr("H", (k, n), lo=0, strict=True)
    return m, n, k, V, We, W, H


def normal(B, n, We, H, i):
    return lambda p, q: B.SUM(n, lambda j: H[p, j] * (We[i, j] * H[q, j]))


def wrow(B, n, k, V, We, H):
    def cell(i, l):
        M = normal(B, n, We, H, i)
        b = lambda p: B.SUM(n, lambda j: H[p, j] * (We[i, j] * V[i, j]))
        if B.symbolic:
            inv, pinv = B.inv(k, M), B.pinv(k, M)
            return B.If(B.eq(B.det(k, M), 0), B.SUM(k, lambda p: b(p) * pinv(p, l)), B.SUM(k, lambda p: b(p) * inv(p, l)))
        g = B.pinv(k, M)
        return B.SUM(k, lambda p: b(p) * g(p, l))
    return cell


def neg(B, x):
    return (B.abs(x) - x) / 2


def pos(B, x):
    return (B.abs(x) + x) / 2


def hcell(B, m, k, V, We, W1, H):
    """semi-NMF multiplicative rule with the new contributions W1"""
    def cell(l, j):
        n1 = B.SUM(m, lambda i: (We[i, j] * V[i, j]) * pos(B, W1[i, l]))
        d1 = B.SUM(m, lambda i: (We[i, j] * V[i, j]) * neg(B, W1[i, l]))
        n2 = B.SUM(k, lambda q: H[q, j] * B.SUM(m, lambda i: (neg(B, W1[i, q]) * We[i, j]) * neg(B, W1[i, l])))
        d2 = B.SUM(k, lambda q: H[q, j] * B.SUM(m, lambda i: (pos(B, W1[i, q]) * We[i, j]) * pos(B, W1[i, l])))
        return H[l, j] * B.sqrt(B.div((n1 + n2) + EPS, (d1 + d2) + EPS))
    return cell


def well(B, m, n, k, We, H):
    if not B.symbolic:
        import numpy as np
        for i in range(m):
            M = np.array([[normal(B, n, We, H, i)(p, q) for q in range(k)] for p in range(k)])
            B.assume(np.linalg.cond(M) < 1e6)


def contract_update(B):
    m, n, k, V, We, W, H = inputs(B)
    well(B, m, n, k, We, H)
    old = [B.snap(x) for x in (V, We, W, H)]
    v0, we0, w0, h0 = old
    W1, H1 = B.call(WS, V, We, W, H)
    B.has_shape("W keeps its shape", W1, (m, k))
    B.has_shape("H keeps its shape", H1, (k, n))
    ref = wrow(B, n, k, v0, we0, h0)
    B.forall("each W row is the solution of its weighted normal equations", (m, k),
             lambda i, l: B.eq(W1[i, l], ref(i, l), tol=1e-4, atol=1e-6))
    if not B.symbolic:
        for i in range(m):
            M = normal(B, n, we0, h0, i)
            B.forall("each W row satisfies its weighted normal equations", (k,), lambda q: B.eq(
                B.SUM(k, lambda p: W1[i, p] * M(p, q)), B.SUM(n, lambda j: h0[q, j] * we0[i, j] * v0[i, j]),
                tol=1e-5, atol=1e-6))
    w1 = B.snap(W1)
    hc = hcell(B, m, k, v0, we0, w1, h0)
    B.forall("each H cell follows the semi-NMF rule with the new W", (k, n),
             lambda l, j: B.eq(H1[l, j], hc(l, j), tol=1e-6))
    for nm, a, b in zip(("V", "We", "W", "H"), (V, We, W, H), old):
        B.same(f"{nm} is not modified", a, b)


def contract_nonneg(B):
    """for non-negative data the rule keeps the profiles non-negative"""
    m, n, k, V, We, W, H = inputs(B)
    W1, H1 = B.call(WS, V, We, W, H)
    B.forall("H stays non-negative", (k, n), lambda l, j: B.Not(H1[l, j] < 0))


def contract_hold(B):
    """holding the profiles returns them unchanged, with the same contributions"""
    m, n, k, V, We, W, H = inputs(B)
    well(B, m, n, k, We, H)
    old = [B.snap(x) for x in (V, We, W, H)]
    v0, we0, w0, h0 = old
    W1, H1 = B.call(WS, V=V, We=We, W=W, H=H, hold_h=True)
    B.has_shape("W keeps its shape", W1, (m, k))
    B.same("held profiles are returned unchanged", H1, h0)
    ref = wrow(B, n, k, v0, we0, h0)
    B.forall("each W row is the solution of its weighted normal equations", (m, k),
             lambda i, l: B.eq(W1[i, l], ref(i, l), tol=1e-4, atol=1e-6))
    for nm, a, b in zip(("V", "We", "W", "H"), (V, We, W, H), old):
        B.same(f"{nm} is not modified", a, b)


def contract_mixed_nan(B):
    """known finding: one fixed data set with negative values whose update is not a number"""
    import numpy as np
    V = np.array([[-1.0, 2.0, 1.0], [2.0, -3.0, 1.0], [1.0, 1.0, 2.0], [0.5, 2.0, -1.0]])
    We = np.ones((4, 3))
    H = np.array([[0.5, 1.0, 2.0], [2.0, 0.25, 1.0]])
    W1, H1 = B.call(WS, V, We, None, H)
    B.ensure("profiles are numbers for data with negative values", not np.isnan(H1).any())


contract_mixed_nan.opts = {"prove": False, "cases": 0.001}
CONTRACTS = ["contract_update", "contract_nonneg", "contract_hold", "contract_mixed_nan"]

"""C01: one LS-NMF update is the published multiplicative update and leaves its arguments alone."""
LS = "esat.model.ls_nmf:LSNMF.update"


def inputs(B, vlo=0):
    m, n, k = B.dim("m"), B.dim("n"), B.dim("k")
    V = B.arr("V", (m, n), lo=vlo)
    We = B.arr("We", (m, n), lo=0, strict=True)
    W = B.arr("W", (m, k), lo=0, strict=True)
    H = B.arr("H", (k, n), lo=0, strict=True)
    return m, n, k, V, We, W, H


def formula_h(B, m, n, k, V, We, W, H):
    def WH(i, j):
        return B.SUM(k, lambda l: W[i, l] * H[l, j])
    return lambda l, j: H[l, j] * B.div(B.SUM(m, lambda i: W[i, l] * (We[i, j] * V[i, j])),
                                        B.SUM(m, lambda i: W[i, l] * (We[i, j] * WH(i, j))))


def formula_w(B, m, n, k, V, We, W, H):
    def WH(i, j):
        return B.SUM(k, lambda l: W[i, l] * H[l, j])
    return lambda i, l: W[i, l] * B.div(B.SUM(n, lambda j: (We[i, j] * V[i, j]) * H[l, j]),
                                        B.SUM(n, lambda j: (We[i, j] * WH(i, j)) * H[l, j]))


def contract_update(B):
    m, n, k, V, We, W, H = inputs(B, None)
    hold = B.flag("hold")
    v0, we0, w0, h0 = B.snap(V), B.snap(We), B.snap(W), B.snap(H)
    W1, H1 = B.call(LS, V, We, W, H, hold)
    B.has_shape("W keeps its shape", W1, (m, k))
    B.has_shape("H keeps its shape", H1, (k, n))
    if hold:
        B.same("held profiles come back unchanged", H1, h0)
    else:
        B.same("H is the published update", H1, B.lam((k, n), formula_h(B, m, n, k, v0, we0, w0, h0)))
    h1 = B.snap(H1)
    B.same("W is the published update with the new H", W1, B.lam((m, k), formula_w(B, m, n, k, v0, we0, w0, h1)))
    B.same("V is not modified", V, v0)
    B.same("We is not modified", We, we0)
    B.same("W is not modified", W, w0)
    B.same("H is not modified", H, h0)


def contract_nonneg(B):
    m, n, k, V, We, W, H = inputs(B, 0)
    hold = B.flag("hold")
    W1, H1 = B.call(LS, V, We, W, H, hold)
    B.forall("H stays non-negative", (k, n), lambda l, j: H1[l, j] >= 0)
    # an all-zero data column can leave a zero profile column: the update is 0/0 there, hence the guard
    den = B.lam((m, k), lambda i, l: B.SUM(n, lambda j: (We[i, j] * B.SUM(k, lambda q: W[i, q] * H1[q, j])) * H1[l, j]))
    B.forall("W stays non-negative", (m, k), lambda i, l: B.Implies(den[i, l] > 0, W1[i, l] >= 0))


def contract_positive(B):
    m, n, k = B.dim("m"), B.dim("n"), B.dim("k")
    V = B.arr("V", (m, n), lo=0, strict=True)
    We = B.arr("We", (m, n), lo=0, strict=True)
    W = B.arr("W", (m, k), lo=0, strict=True)
    H = B.arr("H", (k, n), lo=0, strict=True)
    hold = B.flag("hold")
    W1, H1 = B.call(LS, V, We, W, H, hold)
    B.forall("positive profiles stay positive", (k, n), lambda l, j: H1[l, j] > 0)
    B.forall("positive contributions stay positive", (m, k), lambda i, l: W1[i, l] > 0)


def contract_history(B):
    """two chained updates: the second starts from exactly what the first returned"""
    m, n, k, V, We, W, H = inputs(B, None)
    Wa, Ha = B.call(LS, V, We, W, H)
    wa, ha = B.snap(Wa), B.snap(Ha)
    Wb, Hb = B.call(LS, V, We, Wa, Ha)
    B.same("an update does not depend on earlier calls (H)", Hb, B.lam((k, n), formula_h(B, m, n, k, V, We, wa, ha)))
    hb = B.snap(Hb)
    B.same("an update does not depend on earlier calls (W)", Wb, B.lam((m, k), formula_w(B, m, n, k, V, We, wa, hb)))
    B.same("a later update leaves earlier results alone (W)", Wa, wa)
    B.same("a later update leaves earlier results alone (H)", Ha, ha)


CONTRACTS = ["contract_update", "contract_nonneg", "contract_positive", "contract_history"]

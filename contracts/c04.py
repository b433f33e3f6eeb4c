"""C04: the loss metrics equal their definitions and leave their arguments alone."""
QT, QR, QF = "esat.metrics:q_loss", "esat.metrics:qr_loss", "esat.metrics:q_factor"


def inputs(B):
    m, n, k = B.dim("m"), B.dim("n"), B.dim("k")
    V = B.arr("V", (m, n))
    U = B.arr("U", (m, n), lo=0, strict=True)
    W = B.arr("W", (m, k))
    H = B.arr("H", (k, n))
    return m, n, k, V, U, W, H


def res(B, k, V, W, H):
    return lambda i, j: V[i, j] - B.SUM(k, lambda l: W[i, l] * H[l, j])


def frame(B, tag, now, then):
    for name, a, b in zip(("V", "U", "W", "H"), now, then):
        B.same(f"{tag}: {name} is not modified", a, b)


def contract_true(B):
    m, n, k, V, U, W, H = inputs(B)
    old = [B.snap(x) for x in (V, U, W, H)]
    r = res(B, k, *[old[q] for q in (0, 2, 3)])
    u = old[1]
    q = B.call(QT, V, U, W, H)
    B.ensure("Q(true) is the sum of squared scaled residuals",
             B.eq(q, B.SUM(m, lambda i: B.SUM(n, lambda j: B.div(r(i, j), u[i, j]) * B.div(r(i, j), u[i, j])))))
    q2 = B.call(QT, V, U, W, H, uncertainty=False)
    B.ensure("without uncertainty it is the sum of squared residuals",
             B.eq(q2, B.SUM(m, lambda i: B.SUM(n, lambda j: r(i, j) * r(i, j)))))
    frame(B, "Q(true)", (V, U, W, H), old)


def contract_robust(B):
    m, n, k, V, U, W, H = inputs(B)
    alpha = B.real("alpha", lo=0, strict=True, hi=None, chi=6.0)
    default = B.flag("default_alpha")
    old = [B.snap(x) for x in (V, U, W, H)]
    r = res(B, k, *[old[q] for q in (0, 2, 3)])
    u = old[1]
    if default:
        alpha = 4.0
        out = B.call(QR, V, U, W, H)
    else:
        out = B.call(QR, V, U, W, H, alpha=alpha)
    q = B.item(out, 0)
    uu = B.item(out, 1)
    s = lambda i, j: B.abs(B.div(r(i, j), u[i, j]))
    cell = lambda i, j: B.If(s(i, j) > alpha, alpha * s(i, j), s(i, j) * s(i, j))
    # with the previous postcondition this is Q(robust) <= Q(true)
    B.ensure("the capped sum does not exceed Q(true)",
             B.le(B.SUM(m, lambda i: B.SUM(n, lambda j: cell(i, j))) if B.symbolic else q,
                  B.SUM(m, lambda i: B.SUM(n, lambda j: s(i, j) * s(i, j)))))
    B.ensure("Q(robust) caps the cells beyond alpha",
             B.eq(q, B.SUM(m, lambda i: B.SUM(n, lambda j: cell(i, j)))))
    B.has_shape("the updated uncertainty has the shape of U", uu, (m, n))
    B.forall("the updated uncertainty is enlarged exactly beyond alpha", (m, n),
             lambda i, j: B.eq(uu[i, j], B.If(s(i, j) > alpha, B.sqrt(B.div(s(i, j), alpha)) * u[i, j], u[i, j])))
    frame(B, "Q(robust)", (V, U, W, H), old)


def contract_factor(B):
    m, n, k, V, U, W, H = inputs(B)
    old = [B.snap(x) for x in (V, U, W, H)]
    V0, u, W0, H0 = old
    out = B.call(QF, V, U, W, H)
    B.ensure("one loss per factor", B.eq(B.length(out), k))
    def wh(i, j):
        x = B.SUM(k, lambda l: W0[i, l] * H0[l, j])
        return B.If(x <= 0, 1e-12, x)
    def term(f, i, j):
        d = B.div(V0[i, j] - wh(i, j), u[i, j])
        return d * d * B.div(W0[i, f] * H0[f, j], wh(i, j))
    if B.symbolic:
        B.forall("factor loss is the factor's share of the squared scaled residuals", (k,), lambda f: B.eq(
            B.item(out, f), B.round(B.SUM(m, lambda i: B.SUM(n, lambda j: term(f, i, j))), 4)))
    else:
        for f in range(k):
            x = B.SUM(m, lambda i: B.SUM(n, lambda j: term(f, i, j)))
            B.ensure("factor loss is the factor's share of the squared scaled residuals",
                     B.eq(out[f], x, atol=6e-5 + 1e-9 * B.SUM(m, lambda i: B.SUM(n, lambda j: abs(term(f, i, j))))))
    frame(B, "factor Q", (V, U, W, H), old)


CONTRACTS = ["contract_true", "contract_robust", "contract_factor"]

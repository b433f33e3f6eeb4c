"""C02: an LS-NMF update never increases the weighted squared residual sum.

The update is proved (contract C01, z3) to be the published formula, the reported Q(true) is proved (C04, z3) to be the
weighted squared residual sum, and lean/LsDecrease.lean proves that the formula keeps the factors positive and does not
increase that sum, so the statement iterates over any number of updates."""
from contracts.c01 import LS
USES = [("c01", "contract_update"), ("c01", "contract_history"), ("c04", "contract_true")]
LEAN = [{"file": "LsDecrease.lean", "theorems": ["mu_le", "h_step", "w_step", "step"]}]
TRUSTED = ["Lean 4 kernel and Mathlib (lemma lean/LsDecrease.lean)",
           "the reading of the z3 postcondition formula and of the Lean definitions newH/newW/loss as the same formula"]


def contract_loss_form(B):
    """Q(true) of the updated factors is the weighted sum the lemma speaks about"""
    m, n, k = B.dim("m"), B.dim("n"), B.dim("k")
    V = B.arr("V", (m, n), lo=0)
    U = B.arr("U", (m, n), lo=0, strict=True)
    W = B.arr("W", (m, k), lo=0, strict=True)
    H = B.arr("H", (k, n), lo=0, strict=True)
    hold = B.flag("hold")
    if not B.symbolic:
        for i in range(m):
            B.assume(any(V[i, j] > 0 for j in range(n)))
        for j in range(n):
            B.assume(any(V[i, j] > 0 for i in range(m)))
    We = B.lam((m, n), lambda i, j: B.div(1, U[i, j] * U[i, j]))
    q0 = B.call("esat.metrics:q_loss", V, U, W, H)
    W1, H1 = B.call(LS, V, We, W, H, hold)
    q1 = B.call("esat.metrics:q_loss", V, U, W1, H1)
    B.ensure("Q(true) is the weighted squared residual sum", B.eq(q1, B.SUM(m, lambda i: B.SUM(n, lambda j: We[i, j] * (
        V[i, j] - B.SUM(k, lambda l: W1[i, l] * H1[l, j])) * (V[i, j] - B.SUM(k, lambda l: W1[i, l] * H1[l, j]))))))
    if not B.symbolic:
        B.ensure("the loss does not increase", B.le(q1, q0))
        for _ in range(12):
            B.forall("profiles stay positive", (k, n), lambda l, j: H1[l, j] > 0)
            B.forall("contributions stay positive", (m, k), lambda i, l: W1[i, l] > 0)
            W1, H1 = B.call(LS, V, We, W1, H1, hold)
            q2 = B.call("esat.metrics:q_loss", V, U, W1, H1)
            B.ensure("the loss does not increase in later updates", B.le(q2, q1))
            q1 = q2


CONTRACTS = ["contract_loss_form"]

"""C07: a trained model's reported results agree with each other.

SA.train is proved against an update step returning an arbitrary sequence of factors: every update receives the model's own
data and weights and the latest factors, and what is reported belongs to the factors of the last update."""
from .train import run_train, build, SA


def contract_report(B):
    run_train(B, False)


def contract_invalid(B):
    """a model whose factors do not fit is not trained"""
    m, n, k = B.dim("m", chi=4), B.dim("n", chi=4), B.dim("k", chi=3)
    sa, V, U, W, H = build(B, m, n, k)
    bad = B.choice("bad", ["W rows", "W columns"])
    W2 = B.arr("W2", (m + 1, k) if bad == "W rows" else (m, k + 1), lo=0.01)
    g = B.ns({"cnt": 0})

    def step(V, We, W, H, hold_h=False):
        B.setattr(g, "cnt", B.get(g, "cnt") + 1)
        return W, H
    B.method(sa, "initialize", H=H, W=W2)
    B.set(sa, "update_step", B.builtin(step))
    r = B.method(sa, "train", max_iter=2, converge_n=5)
    B.ensure("an invalid model is rejected", B.eq(r, -1))
    B.ensure("an invalid model is not updated", B.eq(B.get(g, "cnt"), 0))
    B.ensure("an invalid model reports no result", B.get(sa, "Qtrue") is None)


def contract_real(B):
    """the real algorithms: every update is one step of the selected algorithm from the current factors"""
    import numpy as np
    from esat.model.ls_nmf import LSNMF
    from esat.model.ws_nmf import WSNMF
    m, n, k = B.dim("m", chi=6), B.dim("n", chi=6), B.dim("k", chi=3)
    method = B.choice("method", ["ls-nmf", "ws-nmf"])
    neg = B.bool("negative_data")
    if method == "ws-nmf" or neg:
        B.assume(k <= n)
    V = B.arr("V", (m, n), lo=-1 if neg else 0.05).astype("float32")
    U = B.arr("U", (m, n), lo=0.05).astype("float32")
    H = B.arr("H", (k, n), lo=0.05).astype("float32")
    W = B.arr("W", (m, k), lo=0.05).astype("float32")
    sa = B.call(SA, V, U, k, method=method, seed=B.int("seed", 0, None, 0, 99))
    given = B.bool("given")
    B.method(sa, "initialize", **(dict(H=H.copy(), W=W.copy()) if given else {}))
    W, H = np.array(sa.W), np.array(sa.H)
    it = B.int("iters", lo=1, clo=1, chi=12)
    alg = LSNMF if method == "ls-nmf" and not (V < 0).any() else WSNMF
    ref = [(W.copy(), H.copy())]
    We = (1 / U.astype(float) ** 2).astype("float32")
    w, h = W.copy(), H.copy()
    B.method(sa, "train", max_iter=it, converge_n=200, model_i=4)
    for _ in range(it):
        w, h = alg.update(V=V.copy(), We=We, W=w, H=h)
        q = ((V.astype(float) - w.astype(float) @ h) / U) ** 2
        if np.isnan(q).any():
            B.end()
        ref.append((w.copy(), h.copy()))
    B.tol = 2e-3
    B.ensure("one recorded loss per iteration", len(sa.q_list) == it)
    close = lambda a, b: np.allclose(a, b, rtol=5e-3, atol=1e-4 * max(1e-9, np.abs(b).max()))
    V64, U64 = V.astype(float), U.astype(float)
    R = (V64 - w.astype(float) @ h.astype(float)) / U64
    Q = float((R ** 2).sum())
    scale = float(((V64 / U64) ** 2).sum())
    B.ensure("the loss is that of the selected algorithm's iterates", abs(sa.Qtrue - Q) <= 5e-3 * Q + 1e-4 * scale)
    Wf, Hf = np.array(sa.W, float), np.array(sa.H, float)
    B.ensure("the factors are those of the selected algorithm", close(Wf @ Hf, w.astype(float) @ h))
    R = (V64 - Wf @ Hf) / U64
    B.ensure("the reported Q(true) is that of the reported factors",
             abs(float((R ** 2).sum()) - sa.Qtrue) <= 1e-3 * sa.Qtrue + 1e-5 * scale)
    a = np.abs(R)
    B.ensure("the reported Q(robust) is that of the reported factors",
             abs(float(np.where(a > 4, 4 * a, a * a).sum()) - sa.Qrobust) <= 1e-3 * sa.Qrobust + 1e-5 * scale)
    B.ensure("the reconstruction is the product of the reported factors", close(np.array(sa.WH, float), Wf @ Hf))
    B.ensure("the loss history ends with the reported Q", abs(sa.q_list[-1] - sa.Qtrue) <= 1e-4 * sa.Qtrue + 1e-6 * scale)
    B.same("the model's data are unchanged", np.array(sa.V, float), V64)
    B.same("the model's uncertainty is unchanged", np.array(sa.U, float), U64)


contract_report.opts = {"cost": 9, "per": 90}
contract_real.opts = {"prove": False, "cases": 3}
CONTRACTS = ["contract_report", "contract_invalid", "contract_real"]

ASSUMES = ["the optional compiled back end is absent (its loop is not the Python one)"]

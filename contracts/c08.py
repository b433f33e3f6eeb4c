"""C08: training stops exactly by its convergence rule and honours held profiles.

The training loop (SA.train) is proved against an update step returning an arbitrary sequence of factors, with the two
losses arbitrary functions of the number of updates made: loop invariant over the window of recent losses."""
from .train import run_train, build, SA


def contract_rule(B):
    run_train(B, True)


def contract_hold(B):
    """real updates: held profiles come out as they went in; with a delay they change only afterwards"""
    import numpy as np
    m, n, k = B.dim("m", chi=5), B.dim("n", chi=5), B.dim("k", chi=3)
    method = B.choice("method", ["ls-nmf", "ws-nmf"])
    if method == "ws-nmf":
        B.assume(k <= n)
    sa, V, U, W, H = build(B, m, n, k, method, vlo=0.05)
    h0 = np.array(sa.H, dtype=float)
    delay = B.int("delay", lo=-1, clo=-1, chi=6)
    it = B.int("iters", lo=1, clo=1, chi=9)
    seen = []
    real = sa.update_step

    def step(**kw):
        w, h = real(**kw)
        seen.append((bool(kw.get("hold_h", False)), np.array(kw["H"], float), np.array(h, float)))
        return w, h
    sa.update_step = step
    hold = B.bool("hold")
    B.method(sa, "train", max_iter=it, converge_n=100, converge_delta=-1e9, hold_h=hold, delay_h=delay)
    B.ensure("the limit is used up when the rule is never met", len(seen) == it and not sa.converged)
    if np.isnan(seen[-1][2]).any():
        return
    for t, (h, a, b) in enumerate(seen):
        held = hold and not (delay > 0 and t > delay)
        B.ensure("held profiles are unchanged", not held or np.array_equal(a, b))
        B.ensure("profiles are held exactly when requested", h == held)
    if hold and not (delay > 0 and it - 1 > delay):
        B.same("held profiles come out as they went in", np.array(sa.H, float), h0)


contract_rule.opts = {"cost": 9, "per": 90}
contract_hold.opts = {"prove": False}
CONTRACTS = ["contract_rule", "contract_hold"]
ASSUMES = ["training starts on an initialised model; converge_n >= 1; losses are not NaN in the stopping-rule contract",
           "the optional compiled back end is absent (its loop is not the Python one)"]

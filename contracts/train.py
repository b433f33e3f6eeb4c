"""Shared text of the training-loop contracts (C07, C08)."""
SA = "esat.model.sa:SA"


def build(B, m, n, k, method="ls-nmf", tag="", vlo=0, ulo=0):
    """a constructed and initialised model with the given start factors"""
    def number(x, *ix):
        return B.Not(B.isnan(x))
    V = B.arr("V" + tag, (m, n), lo=vlo, elem=number)
    U = B.arr("U" + tag, (m, n), lo=0.01, hi=None, elem=number)
    W = B.arr("W" + tag, (m, k), lo=0.01, elem=number)
    H = B.arr("H" + tag, (k, n), lo=0.01, elem=number)
    B.lib_override("scipy.cluster.vq", "whiten", B.builtin(lambda obs=None, *a, **kw: obs, "whiten"))
    if not B.symbolic:
        V, U, W, H = [x.astype("float32") for x in (V, U, W, H)]
    sa = B.call(SA, V, U, k, method=method)
    B.method(sa, "initialize", H=H, W=W)
    return sa, V, U, W, H


def scripted(B, m, n, k, sa, hold0, delay, rule):
    """an update step whose results are arbitrary but known: W_t, H_t after t updates; it checks what it is given"""
    g = B.ns({"cnt": 0})
    V0, We0 = B.get(sa, "V"), B.get(sa, "We")
    if B.symbolic:
        WS = B.fun("WS", 3)
        HS = B.fun("HS", 3)
        Wt = lambda t: B.lam((m, k), lambda i, l: WS(t, i, l))
        Ht = lambda t: B.lam((k, n), lambda l, j: HS(t, l, j))
    else:
        import numpy as np
        r = np.random.default_rng(B.int("script", 0, None, 0, 10 ** 6))
        # a drifting sequence: losses fall at first, later changes are small, sometimes they rise
        base = [(np.asarray(B.get(sa, "W"), float), np.asarray(B.get(sa, "H"), float))]
        step = float(B.choice("step", [0.0, 0.02, 0.1, 0.4, 1.0]))
        for q in range(60):
            w, h = base[-1]
            f = step * 0.7 ** q if B.int_of(q) % 7 else step
            base.append((w * (1 + f * r.uniform(-1, 1, w.shape)) + 1e-3, h * (1 + f * r.uniform(-1, 1, h.shape)) + 1e-3))
        Wt = lambda t: base[min(t, 60)][0].astype("float32")
        Ht = lambda t: base[min(t, 60)][1].astype("float32")

    def holds(t):
        """are the profiles to be held in the update with zero-based number t?"""
        return B.And(hold0, B.Not(B.And(delay > 0, t > delay)))

    def step(V, We, W, H, hold_h=False):
        t = B.get(g, "cnt")
        if rule:
            B.ensure("profiles are held exactly when requested", B.iff(hold_h, holds(t)))
            B.setattr(g, "cnt", t + 1)
            return Wt(t + 1), Ht(t + 1)
        B.same("every update gets the model's data", V, V0)
        B.same("every update gets the model's weights", We, We0)
        B.same("every update starts from the latest contributions", W, Wt(t))
        B.same("every update starts from the latest profiles", H, Ht(t))
        B.setattr(g, "cnt", t + 1)
        return Wt(t + 1), Ht(t + 1)
    return g, step, Wt, Ht, holds


def run_train(B, rule):
    """rule: the stopping rule and the held profiles (C08); otherwise the consistency of the results (C07)"""
    m, n, k = B.dim("m", chi=4), B.dim("n", chi=4), B.dim("k", chi=3)
    max_iter = B.int("max_iter", lo=1, clo=1, chi=25)
    cn = B.int("converge_n", lo=1, clo=1, chi=8)
    delta = B.real("converge_delta", lo=-1, chi=2.0)
    hold0 = B.bool("hold_h")
    delay = B.int("delay_h", lo=-1, clo=-1, chi=12)
    alpha = B.real("robust_alpha", lo=1, chi=6)
    sa, V, U, W, H = build(B, m, n, k)
    g, step, Wt, Ht, holds = scripted(B, m, n, k, sa, hold0, delay, rule)
    if B.symbolic or B.bool("retrained"):
        # results of an earlier training run
        B.set(sa, "WH", B.arr("WH_old", (m, n)))
        for nm in ("Qtrue", "Qrobust"):
            B.set(sa, nm, B.real(nm + "_old", lo=0))
        B.set(sa, "q_list", B.pylist([B.real("q_old", lo=0)]))
        B.set(sa, "converged", B.bool("converged_old"))
        B.set(sa, "converge_steps", B.int("steps_old", lo=0))
        B.set(sa, "model_i", B.int("model_old", lo=0))
    if B.symbolic:
        B.set(sa, "W", Wt(0))
        B.set(sa, "H", Ht(0))
        step = B.builtin(step, "update step")
        QT, QR = B.fun("QT", 1), B.fun("QR", 1)
        V0, U0 = B.get(sa, "V"), B.get(sa, "U")
        if rule:
            B.axiom(1, lambda t: B.And(B.Not(B.isnan(QT(t))), B.Not(B.isnan(QR(t)))))

        def same_args(V, U, W, H):
            t = B.get(g, "cnt")
            if rule:
                return t
            for nm, a, b in (("data", V, V0), ("uncertainty", U, U0), ("current contributions", W, Wt(t)),
                             ("current profiles", H, Ht(t))):
                B.same(f"losses are taken of the {nm}", a, b)
            return t

        def q_stub(V=None, U=None, W=None, H=None, uncertainty=True):
            if not rule:
                B.ensure("Q(true) is uncertainty weighted", uncertainty)
            return QT(same_args(V, U, W, H))

        def qr_stub(V=None, U=None, W=None, H=None, alpha_=4.0, alpha=4.0, a0=alpha):
            t = same_args(V, U, W, H)
            if not rule:
                B.ensure("Q(robust) uses the requested alpha", B.eq(alpha, a0))
            return QR(t), B.sym_arr("Urob", (m, n))
        B.stub("esat.metrics:q_loss", q_stub)
        B.stub("esat.metrics:qr_loss", qr_stub)

        def conv(t):
            """the stopping rule after t updates"""
            return B.And(t > cn, QT(t - cn + 1) - QT(t) < delta)

        def inv(L):
            i = L.i
            prior, ql = L.get("prior_q"), L.get("q_list")
            out = [("the update count is the iteration number", B.eq(B.get(g, "cnt"), i)),
                   ("contributions are the latest", (m, k), lambda a, b: B.eq(B.cell(B.get(sa, "W"), (a, b)), B.cell(Wt(i), (a, b)))),
                   ("profiles are the latest", (k, n), lambda a, b: B.eq(B.cell(B.get(sa, "H"), (a, b)), B.cell(Ht(i), (a, b))))]
            if not rule:
                return out + [("every loss is recorded", B.eq(B.length(ql), i)),
                              ("recorded losses are those of the updates", (i,), lambda x: B.eq(B.cell(ql, x), QT(x + 1)))]
            return out + [
                ("the window holds the latest losses", B.eq(B.length(prior), B.min2(i, cn))),
                ("window contents", (B.min2(i, cn),),
                 lambda x: B.eq(B.cell(prior, x), QT(i - B.length(prior) + 1 + x))),
                ("not converged so far", B.Not(B.boolean(L.get("converged")))),
                ("not marked so far", B.Not(B.boolean(B.get(sa, "converged")))),
                ("no earlier stop was due", (i + 1,), lambda t: B.Implies(t > 0, B.Not(conv(t)))),
                ("hold switch", B.iff(L.get("hold_h"), B.And(hold0, B.Not(B.And(delay > 0, i - 1 > delay)))))]

        def at_start(L):
            # cellwise equal by the invariant just assumed
            B.set(sa, "W", Wt(L.i))
            B.set(sa, "H", Ht(L.i))
        B.loop("esat.model.sa:SA.train", "for", 0, inv,
               types={"prior_q": "real", "q_list": "real", "converge_steps": "int"}, at_start=at_start)
        B.set(sa, "update_step", step)
    else:
        B.set(sa, "W", Wt(0))
        B.set(sa, "H", Ht(0))
        sa.update_step = step
        Vd, Ud = V.astype(float), B.snap(B.get(sa, "U"))

        def QT(t):
            return float((((Vd - Wt(t).astype(float) @ Ht(t).astype(float)) / Ud) ** 2).sum())

        def QR(t):
            s = abs((Vd - Wt(t).astype(float) @ Ht(t).astype(float)) / Ud)
            return float((s * s * (s <= alpha) + alpha * s * (s > alpha)).sum())

        def conv(t):
            d = QT(t - cn + 1) - QT(t) if t > cn else 0
            if t > cn:      # stay away from decisions that rounding could flip
                B.assume(cn == 1 or abs(d - delta) > 1e-3 * abs(delta) + 1e-4 * QT(t))
            return t > cn and d < delta
    B.method(sa, "train", max_iter=max_iter, converge_delta=delta, converge_n=cn, hold_h=hold0, delay_h=delay,
             robust_alpha=alpha, model_i=3)
    T = B.get(g, "cnt")
    B.ensure("at least one and at most max_iter updates", B.And(T >= 1, T <= max_iter))
    if rule:
        if not B.symbolic:
            stop = next((t for t in range(1, max_iter + 1) if conv(t)), None)
            B.ensure("training stops at the first iteration meeting the rule, else at the limit",
                     T == (stop if stop is not None else max_iter))
            B.ensure("marked converged exactly when the rule stopped it", bool(sa.converged) == (stop is not None))
        else:
            B.ensure("marked converged exactly when the rule stopped it", B.iff(B.get(sa, "converged"), conv(T)))
            B.ensure("without convergence the limit was used up", B.Or(conv(T), B.eq(T, max_iter)))
            B.forall("no earlier iteration met the rule", (T,), lambda t: B.Implies(t > 0, B.Not(conv(t))))
        return
    ql = B.get(sa, "q_list")
    B.ensure("one recorded loss per update", B.eq(B.length(ql), T))
    B.forall("recorded losses are those of the updates in order", (T,), lambda x: B.eq(B.cell(ql, x), QT(x + 1), tol=2e-4))
    B.same("the final contributions are those of the last update", B.get(sa, "W"), Wt(T))
    B.same("the final profiles are those of the last update", B.get(sa, "H"), Ht(T))
    wt, ht = B.snap(Wt(T)), B.snap(Ht(T))
    wh = B.get(sa, "WH")
    B.has_shape("the reconstruction has the shape of the data", wh, (m, n))
    B.forall("the reconstruction is the product of the final factors", (m, n), lambda i, j: B.eq(
        wh[i, j], B.SUM(k, lambda l: wt[i, l] * ht[l, j]), tol=1e-5))
    B.ensure("the reported Q(true) is that of the final factors", B.eq(B.get(sa, "Qtrue"), QT(T), tol=2e-4))
    B.ensure("the reported Q(robust) is that of the final factors", B.eq(B.get(sa, "Qrobust"), QR(T), tol=2e-4))
    B.ensure("the loss history ends with the reported Q", B.eq(B.cell(ql, T - 1), B.get(sa, "Qtrue"), tol=2e-4))

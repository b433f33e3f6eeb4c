"""C12: the DISP search moves one profile element at a time, accepts only what its rule allows, and keeps the base model.

The two search workers are proved for every model, cell, threshold and loss function (loops cut by invariants, the loss being
an arbitrary function of the displaced element); the search results on real losses and the sequential and parallel drivers are
bounded stand-ins on the real code."""
D = "esat.error.displacement:Displacement"
LEVELS = [32, 16, 8, 4]


def base(B, m, n, k, features, labels, thr=0.1):
    V, U = B.arr("V", (m, n), lo=0), B.arr("U", (m, n), lo=0.2, strict=True)
    W, H = B.arr("W", (m, k), lo=0.05, strict=True), B.arr("H", (k, n), lo=0.05, strict=True)
    bq = B.real("base_q", lo=0)
    mi, cd, cn = B.int("max_iter", lo=1, clo=1, chi=9), B.real("delta", lo=0), B.int("cn", lo=1, clo=1, chi=9)
    if not B.symbolic:
        bq = float((((V - W @ H) / U) ** 2).sum())
    sa = B.ns({"V": V, "U": U, "W": W, "H": H, "Qtrue": bq, "seed": 42, "method": "ls-nmf", "factors": k,
               "metadata": B.pydict({"max_iterations": mi, "converge_delta": cd, "converge_n": cn})})
    d = B.call(D, sa, B.pylist(labels), threshold_dQ=thr, features=B.pylist(features), cores=1, parallel=False)
    return d, sa, V, U, W, H, bq, mi, cd, cn


def halvings(B, s):
    """2 to the power s for 0 <= s <= 26"""
    r = 2 ** 26
    for q in range(25, -1, -1):
        r = B.If(B.eq(s, q), 2 ** q, r)
    return r


def search(B, up):
    m, n, k = B.dim("m", chi=5), B.dim("n", chi=5), B.dim("k", chi=3)
    f, j = B.int("factor", lo=0, clo=0, chi=2), B.int("feature", lo=0, clo=0, chi=4)
    B.assume(B.And(f < k, j < n))
    thr = B.real("threshold", lo=0.05, hi=3)
    nf = n if not B.symbolic else 1
    d, sa, V, U, W, H, bq, mi, cd, cn = base(B, m, n, k, list(range(nf)), ["f"] * nf, thr)
    Hd = B.get(d, "H")
    v0, u0, w0, h0 = B.snap(V), B.snap(U), B.snap(W), B.snap(Hd)
    hs = B.snap(H)
    x0 = B.cell(h0, (f, j))
    B.forall("the search starts from the model's profiles", (k, n), lambda a, b: B.And(
        B.cell(h0, (a, b)) > B.cell(hs, (a, b)), B.cell(h0, (a, b)) - B.cell(hs, (a, b)) < 1e-10))
    kwname = "esat.error.displacement:"
    wd, hd, ud, vd = B.get(d, "W"), Hd, B.get(d, "U"), B.get(d, "V")
    if B.symbolic:
        QF, QTR = B.fun("QF", 1, args=["real"]), B.fun("QTRAINED", 1, args=["real"])
        SW = B.fun("SWAP", 1, "bool", args=["real"])

        def q(x):
            return QF(x)
    else:
        import numpy as np
        r = (v0 - w0 @ h0) / u0
        A = w0[:, f] / u0[:, j]

        def q(x):
            R = r.copy()
            R[:, j] = r[:, j] - (x - x0) * A
            return float((R * R).sum())
        a, b_ = float((A * A).sum()), float(-2 * (r[:, j] * A).sum())

    def dq(x):
        return q(x) - bq if up else B.abs(bq - q(x))

    def only(what, Hx, x):
        B.forall(f"{what} differs from the base profiles in the searched element only", (k, n), lambda a, b: B.Implies(
            B.Not(B.And(B.eq(a, f), B.eq(b, j))), B.eq(B.cell(Hx, (a, b)), B.cell(h0, (a, b)))))

    def q_stub(V=None, U=None, W=None, H=None):
        for nm, a, b in (("data", V, v0), ("uncertainty", U, u0), ("contributions", W, w0)):
            B.same(f"losses are taken with the model's {nm}", a, b)
        x = B.cell(H, (f, j))
        only("every evaluated model", H, x)
        if up:
            B.ensure("only larger values are tried", x >= x0)
        else:
            B.ensure("only values between zero and the base value are tried", B.And(x >= 0, x <= x0))
        return q(x)
    trained = []
    rec = B.ns({"swaps": 0})

    def sa_stub(V=None, U=None, factors=None, method=None, seed=None, **kw):
        for nm, a, b in (("data", V, v0), ("uncertainty", U, u0)):
            B.same(f"displaced models are trained on the model's {nm}", a, b)
        B.ensure("displaced models have the base model's factor count, method and seed", B.And(
            B.eq(factors, k), method == "ls-nmf", B.eq(seed, 42)))
        o = B.ns({"Qtrue": 0.0, "H": None, "x": 0.0, "start": None})

        def init(H=None, W=None):
            B.setattr(o, "start", B.snap(H))
            only("every displaced model", H, B.cell(H, (f, j)))
            x = B.cell(H, (f, j))
            B.setattr(o, "x", x)

        def train(max_iter=None, converge_delta=None, converge_n=None, model_i=None, robust_mode=False):
            B.ensure("displaced models are trained with the base model's settings", B.And(
                B.eq(max_iter, mi), B.eq(converge_delta, cd), B.eq(converge_n, cn), B.Not(robust_mode)))
            x = B.get(o, "x")
            if B.symbolic:
                B.setattr(o, "Qtrue", QTR(x))
                B.setattr(o, "H", B.lam((k, n), lambda a, b: x))
            else:
                o.Qtrue = float(x) * 3 + 1
                o.H = np.full((k, n), float(x))
            trained.append(o)
        B.setattr(o, "initialize", B.builtin(init, "initialize"))
        B.setattr(o, "train", B.builtin(train, "train"))
        return o

    def swap_stub(a, b):
        B.same("swaps are judged against the base profiles", b, h0)
        x = B.cell(a, (0, 0))
        B.same("swaps are judged by the displaced model's trained profiles", a, B.get(trained[-1], "H"))
        return SW(x) if B.symbolic else bool(int(x * 1e6) % 2)
    B.stub("esat.metrics:q_loss", q_stub)
    B.stub("esat.model.sa:SA", sa_stub)
    B.stub("esat.utils:compare_all_factors", swap_stub)
    B.patch(kwname + "q_loss", q_stub)
    B.patch(kwname + "SA", sa_stub)
    B.patch(kwname + "compare_all_factors", swap_stub)
    key = D + ("._increase_disp_p" if up else "._decrease_disp_p")

    def inv(L):
        out = [("at least one step when a value was accepted", B.And(L.get("search_i") >= 0, B.Or(
            B.Not(B.boolean(L.get("value_found"))), L.get("search_i") >= 1)))]
        for nm in (["high_modifier", "low_modifier", "modifier"] if up else ["high_mod", "low_mod", "modifier"]):
            v = L.get(nm)
            out.append((f"{nm} in range", v >= 1 if up else B.And(v >= 0, v <= 1)))
        found = B.boolean(L.get("value_found"))
        if L.has("new_H") and B.is_array(L.get("new_H")) and L.has("dQ"):
            nH, dQ = L.get("new_H"), L.get("dQ")
            x = B.cell(nH, (f, j))
            out += [
                ("accepted profiles", (k, n), lambda a, b: B.Implies(B.And(found, B.Not(B.And(B.eq(a, f), B.eq(b, j)))), B.eq(
                    B.cell(nH, (a, b)), B.cell(h0, (a, b))))),
                ("accepted value", B.Implies(found, B.And(B.eq(x, L.get("new_value")), x >= x0 if up else B.And(x >= 0, x <= x0)))),
                ("accepted loss change", B.Implies(found, B.eq(dQ, dq(x))))]
            lv = LEVELS[L.get("i")]
            tol = B.And(dQ <= lv, dQ >= lv - thr)
            if up:
                out.append(("accepted by the rule", B.Implies(found, B.Or(tol, L.get("search_i") >= 100))))
            else:
                out.append(("accepted by the rule", B.Implies(found, B.Or(
                    tol, L.get("search_i") >= 26))))
                s = L.get("search_i")
                hi, lo = L.get("high_mod"), L.get("low_mod")
                out.append(("the bracket halves with every step", B.Or(found, s > 25, B.And(
                    B.eq((hi - lo) * halvings(B, s), 1), B.eq(L.get("modifier") * 2, hi + lo), B.eq(L.get("p_mod"), B.If(B.eq(s, 0), 0, L.get("modifier")))))))
        else:
            out.append(("nothing accepted yet", B.Not(found)))
        return out

    def inv0(L):
        nH = L.get("new_H")
        return [("modifier", L.get("high_modifier") >= 2),
                ("profiles tried so far", (k, n), lambda a, b: B.Implies(
                    B.Not(B.And(B.eq(a, f), B.eq(b, j))), B.eq(B.cell(nH, (a, b)), B.cell(h0, (a, b)))))]
    if up:
        B.loop(key, "while", 0, inv0, after=lambda L: [("modifier", L.get("high_modifier") >= 2)], types={"new_value": "real", "dQ": "real", "max_dQ": "real"})
    B.loop(key, "while", 1 if up else 0, inv, types={"new_value": "real", "dQ": "real", "max_dQ": "real"})
    out = B.method(d, key.split(".")[-1], B.pytuple([5, f, j]))
    res = B.item(out, 2)
    B.ensure("results are returned with their factor and feature", B.And(B.eq(B.item(out, 0), f), B.eq(B.item(out, 1), j)))
    B.ensure("one displaced model per dQ level", len(trained) == len(LEVELS))
    for lv, o in zip(LEVELS, trained):
        e = B.item(res, lv)
        x, c = B.item(e, "value"), B.item(e, "dQ")
        st = B.item(e, "search steps")
        B.ensure("the recorded value is the one the displaced model was trained from", B.eq(x, B.get(o, "x")))
        B.ensure("the recorded loss change is that of the recorded value", B.eq(c, dq(x), tol=1e-6, atol=1e-7))
        within = B.And(c <= lv, c >= lv - thr)
        if up:
            B.ensure("the value is not below the base value", x >= x0)
            B.ensure("the loss change is within the tolerance, or the search was exhausted", B.Or(within, st >= 100))
        else:
            B.ensure("the value is between zero and the base value", B.And(x >= 0, x <= x0))
            B.ensure("the loss change is within the tolerance, or the search was exhausted", B.Or(within, st >= 26))
        if not B.symbolic:
            # on a real (quadratic) loss every reachable limit is met
            if up:
                # the limit is reached between the base value and its largest multiple
                B.ensure("every reachable limit is met within the tolerance", bool(within) or x0 < 1e-6)
            elif abs(bq - q(0.0)) > lv + 1e-6:
                B.ensure("every reachable limit is met within the tolerance", bool(within) or x0 < 1e-6)
        t = B.get(o, "start")
        col = B.SUM(k, lambda l: B.cell(t, (l, j)))
        B.ensure("the recorded share is that of the displaced profiles", B.eq(B.item(e, "percent") * col, x, tol=1e-6))
        B.ensure("the recorded concentration is that of the displaced factor", B.eq(
            B.item(e, "conc"), B.SUM(m, lambda i: B.cell(w0, (i, f)) * x), tol=1e-6))
        B.ensure("the recorded loss drop is that of the displaced model", B.eq(
            B.item(e, "Q_drop"), bq - B.get(o, "Qtrue"), atol=1e-9))
        xx = B.get(o, "x")
        B.ensure("the recorded swap is that of the displaced model", B.iff(
            B.item(e, "swap"), SW(xx) if B.symbolic else bool(int(float(xx) * 1e6) % 2)))
    for nm, a, o in (("data", V, v0), ("uncertainty", U, u0), ("contributions", W, w0), ("profiles", H, hs), ("search base", Hd, h0)):
        B.same(f"the base model's {nm} are not modified", a, o)


def contract_up(B):
    search(B, True)


def contract_down(B):
    search(B, False)


def small(B, kmax=3):
    """a trained model and its displacement object"""
    m, n, k = B.dim("m", lo=4, chi=6), B.dim("n", lo=3, chi=5), B.dim("k", lo=2, chi=kmax)
    V = B.arr("V", (m, n), lo=0.5).astype("float32")
    U = B.arr("U", (m, n), lo=0.25).astype("float32")
    sa = B.call("esat.model.sa:SA", V, U, k, seed=3)
    B.method(sa, "initialize")
    B.method(sa, "train", max_iter=B.int("train", 1, None, 1, 30), converge_n=50)
    feats = [j for j in range(n) if B.bool(f"feature{j}")] or [n - 1]
    feats = feats[::-1] if B.bool("reversed") else feats
    return sa, m, n, k, feats


def same_results(B, what, a, b):
    B.ensure(what + ": same factors and features", {f: sorted(r) for f, r in a.items()} == {f: sorted(r) for f, r in b.items()})
    for f in b:
        for g in b[f]:
            B.ensure(what + ": same dQ levels", list(a[f][g]) == list(b[f][g]))
            for lv in b[f][g]:
                x, y = a[f][g][lv], b[f][g][lv]
                B.ensure(what + ": same values", set(x) == set(y) and all(
                    float(x[q]) == float(y[q]) or (x[q] != x[q] and y[q] != y[q]) for q in y))


def contract_drivers(B):
    """bounded: the sequential and the parallel run record exactly what the proved workers return, for every cell"""
    import numpy as np
    sa, m, n, k, feats = small(B)
    old = [np.array(x, copy=True) for x in (sa.V, sa.U, sa.W, sa.H)]
    mk = lambda par: B.call(D, sa, [f"f{j}" for j in range(n)], features=list(feats), cores=2, parallel=par, threshold_dQ=0.1)
    ref = mk(False)
    inc = {f"factor-{f+1}": {f"feature-{j}": B.method(ref, "_increase_disp_p", (1, f, j))[2] for j in feats} for f in range(k)}
    dec = {f"factor-{f+1}": {f"feature-{j}": B.method(ref, "_decrease_disp_p", (1, f, j))[2] for j in feats} for f in range(k)}
    d = mk(B.bool("parallel"))
    B.method(d, "run", batch=1)
    same_results(B, "upward", d.increase_results, inc)
    same_results(B, "downward", d.decrease_results, dec)
    for nm, a, o in zip(("data", "uncertainty", "contributions", "profiles"), (sa.V, sa.U, sa.W, sa.H), old):
        B.ensure(f"the base model's {nm} are not modified", np.array_equal(a, o))


contract_drivers.opts = {"prove": False, "cases": 0.2}
contract_up.opts = {"cost": 30}
contract_down.opts = {"cost": 30}
CONTRACTS = ["contract_up", "contract_down", "contract_drivers"]
ASSUMES = ["the loss of a displaced model is a function of the displaced element (q_loss is C04)", "training of the displaced models (C07, C08)"]

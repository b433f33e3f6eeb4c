"""C18: pull searches stay within the allowed change of the loss, on the requested side, and never touch the factors.

All three searches are proved for every model, element and limit with the loss an arbitrary function of the pulled element
(loops cut by invariants); on the real, quadratic loss they are also run."""
from .c16 import CM

TOL = 100


def halvings(B, s, top=31):
    r = 2 ** top
    for q in range(top - 1, -1, -1):
        r = B.If(B.eq(s, q), 2 ** q, r)
    return r


def setup(B):
    m, n, k = B.dim("m", chi=5), B.dim("n", chi=5), B.dim("k", chi=3)
    V, U = B.arr("V", (m, n), lo=0), B.arr("U", (m, n), lo=0.01) if B.symbolic else B.arr("U", (m, n), lo=0.01, hi=0.4)
    W, H = B.arr("W", (m, k), lo=0), B.arr("H", (k, n), lo=0)
    t = B.choice("target", ["feature", "sample"])
    ix = (B.index("i", k if t == "feature" else m), B.index("j", n if t == "feature" else k))
    sa = B.ns({"m": m, "n": n, "factors": k, "V": V, "U": U, "W": W, "H": H, "update_step": None})
    c = B.call(CM, sa, None)
    w0, h0 = B.snap(W), B.snap(H)
    x0 = B.cell(h0 if t == "feature" else w0, ix)
    lim = B.real("dQ limit", lo=0, strict=True, clo=0.5, chi=B.choice("scale", [20.0, 2000.0]) if not B.symbolic else None)
    g = B.ns({"count": 0, "last": x0, "safe": x0})
    if B.symbolic:
        QF = B.fun("QF", 1, args=["real"])
        loss = lambda x: QF(x)
    else:
        def loss(x):
            w, h = w0.copy(), h0.copy()
            (h if t == "feature" else w)[ix] = x
            return float((((V - w @ h) / U) ** 2).sum())

    def q_stub(V=None, U=None, W=None, H=None):
        for nm, a, b in (("data", V, B.get(sa, "V")), ("uncertainty", U, B.get(sa, "U"))):
            B.same(f"losses are taken with the model's {nm}", a, b)
        same = lambda what, A, O, shape, q: B.forall(f"evaluated {what} differ in the pulled element only", shape, lambda a, b: B.Or(
            B.And(t == q, B.eq(a, ix[0]), B.eq(b, ix[1])), B.eq(A[a, b], O[a, b])))
        same("contributions", W, w0, (m, k), "sample")
        same("profiles", H, h0, (k, n), "feature")
        x = B.cell(H if t == "feature" else W, ix)
        B.setattr(g, "count", B.get(g, "count") + 1)
        B.setattr(g, "last", x)
        B.setattr(g, "safe", B.If(B.abs(loss(x0) - loss(x)) < lim, x, B.get(g, "safe")))
        return loss(x)
    B.stub("esat.metrics:q_loss", q_stub)
    B.patch("esat.rotational.constrained:q_loss", q_stub)
    return c, sa, W, H, t, ix, w0, h0, x0, lim, g, loss, (m, n, k)


def elem(B, L, t, ix):
    return B.cell(L.get("_H" if t == "feature" else "_W"), ix)


def matrices(B, L, t, ix, w0, h0, dims):
    m, n, k = dims
    f = lambda nm, A, O, shape, q: (f"tried {nm}", shape, lambda a, b: B.Or(
        B.And(t == q, B.eq(a, ix[0]), B.eq(b, ix[1])), B.eq(B.cell(A, (a, b)), B.cell(O, (a, b)))))
    return [f("contributions", L.get("_W"), w0, (m, k), "sample"), f("profiles", L.get("_H"), h0, (k, n), "feature")]


def within(B, dq, lim):
    return B.And(dq <= lim, dq >= lim - TOL)


def near(B, dq, y, g, lim, width, parts):
    """an exhausted search ends next to a value within the limit"""
    safe = B.get(g, "safe")
    B.ensure("the value is within the limit, or within the search's resolution of such a value", B.Or(
        dq(y) <= lim, B.And(dq(safe) <= lim, B.le(B.abs(y - safe) * parts, width, tol=1e-9))))


def finish(B, c, W, H, w0, h0, r, t, ix):
    B.same("the contributions are not modified", W, w0)
    B.same("the profiles are not modified", H, h0)


def contract_down(B):
    c, sa, W, H, t, ix, w0, h0, x0, lim, g, loss, dims = setup(B)
    dq = lambda x: B.abs(loss(x0) - loss(x))

    def inv(L):
        s, mod, hi, lo = L.get("search_i"), L.get("modifier"), L.get("high_mod"), L.get("low_mod")
        found = B.boolean(L.get("value_found"))
        x = L.get("new_value")
        return matrices(B, L, t, ix, w0, h0, dims) + [
            ("steps", B.And(s >= 0, s <= 31, B.eq(B.get(g, "count"), s + 1))),
            ("bracket", B.And(lo >= 0, lo <= hi, hi <= 1, mod >= lo, mod <= hi)),
            ("the bracket halves with every step", B.Or(found, B.And(s <= 30, B.eq((hi - lo) * halvings(B, s), 1), B.eq(mod * 2, hi + lo),
                                                                     B.eq(L.get("p_mod"), B.If(B.eq(s, 0), 0, mod))))),
            ("accepted value", B.Implies(found, B.And(s >= 1, x >= 0, x <= x0, B.eq(x, elem(B, L, t, ix)), B.eq(x, B.get(g, "last"))))),
            ("accepted by the rule", B.Implies(found, B.Or(within(B, dq(x), lim), s >= 25))),
            ("the last value within the limit", B.And(dq(B.get(g, "safe")) <= lim, B.If(found, B.Or(dq(x) <= lim, B.abs(x - B.get(g, "safe")) * halvings(B, s) <= x0),
                                                                                        B.eq(B.get(g, "safe"), x0 * hi))))]
    B.loop(CM + "._pull_down_value", "while", 0, inv, types={"new_value": "real", "dQ": "real", "_Q": "real"})
    r = B.method(c, "_pull_down_value", W, H, t, B.pytuple(ix), lim)
    B.ensure("the value is not above the current one", B.Or(r <= x0, B.eq(r, 1e-8)))
    B.ensure("the value is positive", r >= 0)
    steps = B.get(g, "count") - 1
    y = B.If(B.eq(r, 1e-8), B.get(g, "last"), r)
    B.ensure("the returned value is the last one tried", B.eq(y, B.get(g, "last")))
    B.ensure("the change of the loss is within the limit, or the search was exhausted", B.Or(within(B, dq(y), lim), steps >= 25))
    near(B, dq, y, g, lim, x0, halvings(B, steps))
    if not B.symbolic:
        # the loss is continuous: an exhausted search is at the limit, at zero, or the limit cannot be reached
        if x0 > 1e-3:
            B.ensure("the change of the loss stays within the limit", dq(y) <= lim * (1 + 1e-5) + 1e-4 * slope(loss, x0))
    finish(B, c, W, H, w0, h0, r, t, ix)


def slope(loss, x0):
    return (abs(loss(x0) - loss(0)) + abs(loss(2 * x0 + 1) - loss(x0))) / max(x0, 1e-3) * 1e-2


def contract_up(B):
    c, sa, W, H, t, ix, w0, h0, x0, lim, g, loss, dims = setup(B)
    dq = lambda x: B.abs(loss(x0) - loss(x))

    def inv0(L):
        i, hi, lo = L.get("high_search_i"), L.get("high_modifier"), L.get("low_modifier")
        found = B.boolean(L.get("high_found"))
        return matrices(B, L, t, ix, w0, h0, dims) + [
            ("doublings", B.And(i >= 0, i <= 30, B.eq(B.get(g, "count"), i + 1), hi >= 2, B.Or(found, i < 30), B.Implies(found, i >= 1))),
            ("lower end", B.Or(B.And(B.eq(lo, 0), B.eq(hi, 2), B.eq(B.get(g, "safe"), x0)), B.And(B.eq(B.get(g, "safe"), x0 * lo), lo >= 2, B.eq(lo * 2, hi), dq(x0 * lo) < lim))),
            ("upper end", B.Implies(found, dq(x0 * hi) >= lim))]

    def after0(L):
        hi, lo = L.get("high_modifier"), L.get("low_modifier")
        return matrices(B, L, t, ix, w0, h0, dims) + [
            ("tried", B.get(g, "count") >= 2),
            ("the last value within the limit", B.And(B.eq(B.get(g, "safe"), B.If(B.eq(lo, 0), x0, x0 * lo)), dq(B.get(g, "safe")) <= lim)),
            ("range", B.And(hi >= 2, B.Or(B.And(B.eq(lo, 0), B.eq(hi, 2)), B.And(lo >= 2, B.eq(lo * 2, hi)))))]

    def inv1(L):
        s, mod, hi, lo = L.get("search_i"), L.get("modifier"), L.get("high_modifier"), L.get("low_modifier")
        found = B.boolean(L.get("value_found"))
        x = L.get("new_value")
        safe = B.get(g, "safe")
        E = L.old("high_modifier") - L.old("low_modifier")
        near = B.abs(x - safe) * halvings(B, s) <= 2 * x
        return matrices(B, L, t, ix, w0, h0, dims) + [
            ("the last value within the limit", B.And(dq(safe) <= lim, B.If(found, B.Or(dq(x) <= lim, near), B.eq(safe, B.If(lo < 1, x0, x0 * lo))))),
            ("the bracket halves with every step", B.Or(found, B.And(B.eq((hi - lo) * halvings(B, s), E), B.eq(mod * 2, hi + lo)))),
            ("range kept", B.And(lo >= L.old("low_modifier"), hi <= L.old("high_modifier"))),
            ("steps", B.And(s >= 0, s <= 30, B.Or(found, s < 30), B.get(g, "count") >= s + 2)),
            ("bracket", B.And(lo >= 0, hi >= lo, mod >= 1, mod >= lo, mod <= hi, B.Or(lo >= 1, B.eq(s, 0), found))),
            ("first step", B.Implies(B.And(B.eq(s, 0), lo < 1), B.And(B.eq(lo, 0), B.eq(mod, 1)))),
            ("accepted value", B.Implies(found, B.And(s >= 1, x >= x0, B.eq(x, elem(B, L, t, ix)), B.eq(x, B.get(g, "last"))))),
            ("accepted by the rule", B.Implies(found, B.Or(within(B, dq(x), lim), s >= 30)))]
    ty = {"new_value": "real", "dQ": "real", "_Q": "real"}
    B.loop(CM + "._pull_up_value", "while", 0, inv0, types=ty, after=after0)
    B.loop(CM + "._pull_up_value", "while", 1, inv1, types=ty)
    r = B.method(c, "_pull_up_value", W, H, t, B.pytuple(ix), lim)
    B.ensure("the value is not below the current one", r >= x0)
    B.ensure("the returned value is the last one tried", B.eq(r, B.get(g, "last")))
    # the initial loss, 30 doublings, and at least one more step when the bisection ran
    B.ensure("the change of the loss is within the limit, or the search was exhausted", B.Or(dq(r) <= lim, B.get(g, "count") >= 32))
    near(B, dq, r, g, lim, 2 * r, 2 ** 30)
    B.ensure("the allowed change is used, or the search was exhausted", B.Or(dq(r) >= lim - TOL, B.get(g, "count") >= 31))
    if not B.symbolic:
        B.ensure("the change of the loss stays within the limit", dq(r) <= lim * (1 + 1e-5) + 1e-6 * loss(x0) + 1e-5)
        if x0 > 1e-3:
            B.ensure("the allowed change is used", dq(r) >= lim - TOL - 1e-5 * lim or r > 1e6 * x0)
    finish(B, c, W, H, w0, h0, r, t, ix)


def contract_to(B):
    c, sa, W, H, t, ix, w0, h0, x0, lim, g, loss, dims = setup(B)
    tv = B.real("target value", lo=0, clo=0, chi=8)
    dq = lambda x: B.abs(loss(x0) - loss(x))
    width = B.abs(tv - x0)
    lo_, hi_ = B.min2(tv, x0), B.max2(tv, x0)

    def inv(L):
        s, mid, near, far = L.get("search_i"), L.get("mid_value"), L.get("high_value"), L.get("low_value")
        found = B.boolean(L.get("value_found"))
        x, p = L.get("new_value"), L.get("p_value")
        return matrices(B, L, t, ix, w0, h0, dims) + [
            ("steps", B.And(s >= 0, s <= 31, B.eq(B.get(g, "count"), s + 2))),
            ("bracket", B.And(near >= lo_, near <= hi_, far >= lo_, far <= hi_, mid >= lo_, mid <= hi_)),
            ("the bracket halves with every step", B.Or(found, B.And(
                s <= 30, B.eq(B.abs(near - far) * halvings(B, s), width), B.eq(mid * 2, near + far), B.eq(p, B.If(B.eq(s, 0), 0, mid))))),
            ("accepted value", B.Implies(found, B.And(s >= 1, x >= lo_, x <= hi_, B.eq(x, elem(B, L, t, ix)), B.eq(x, B.get(g, "last"))))),
            ("accepted by the rule", B.Implies(found, B.Or(within(B, dq(x), lim), s >= 31, width <= 1e-7 * halvings(B, s)))),
            ("the last value within the limit", B.And(dq(B.get(g, "safe")) <= lim, B.If(found, B.Or(dq(x) <= lim, B.abs(x - B.get(g, "safe")) * halvings(B, s) <= width),
                                                                                        B.eq(B.get(g, "safe"), near))))]
    B.loop(CM + "._pull_to_value", "while", 0, inv, types={"new_value": "real", "dQ": "real", "_Q": "real"})
    r = B.method(c, "_pull_to_value", W, H, t, B.pytuple(ix), tv, lim)
    B.ensure("the value lies between the current one and the target", B.And(r >= lo_, r <= hi_))
    B.ensure("the returned value is the last one tried", B.eq(r, B.get(g, "last")))
    n = B.get(g, "count") - 2
    B.ensure("a target within the limit is reached", B.Implies(dq(tv) < lim, B.eq(r, tv)))
    B.ensure("the change of the loss is within the limit, or the search was exhausted", B.Or(
        B.eq(r, tv), within(B, dq(r), lim), n >= 31, width <= 1e-7 * halvings(B, n)))
    B.ensure("a target beyond the limit is not returned", B.Implies(dq(tv) > lim, B.Or(B.Not(B.eq(r, tv)), n >= 31, width <= 1e-7 * halvings(B, n))))
    near(B, dq, r, g, lim, width, halvings(B, n))
    if not B.symbolic:
        B.ensure("the change of the loss stays within the limit", dq(r) <= lim * (1 + 1e-5) + 1e-5 * max(loss(x0), loss(tv)) + 1e-4)
    finish(B, c, W, H, w0, h0, r, t, ix)


CONTRACTS = ["contract_down", "contract_up", "contract_to"]
ASSUMES = ["the loss of a model with one element pulled is a function of that element (q_loss is C04)",
           "values and targets are not negative"]

"""C16: each constraint pulls exactly its own element to its own target.

Proved for one constraint of any type applied to arbitrary pull matrices, which is the loop body of _apply_constraints from an
arbitrary state, so it holds for any number of constraints; the pull searches are replaced by arbitrary functions (C18).
Whole sets of constraints and expressions are bounded stand-ins."""
CM = "esat.rotational.constrained:ConstrainedModel"
CO = "esat.rotational.constrained:Constraint"
TYPES = ["pull down", "pull up", "pull to value", "set to zero", "set to base value", "define limits"]


def model(B, chi=4):
    m, n, k = B.dim("m", chi=chi), B.dim("n", chi=chi), B.dim("k", chi=3)
    V, U = B.arr("V", (m, n), lo=0), B.arr("U", (m, n), lo=0.01)
    W, H = B.arr("Wb", (m, k), lo=0), B.arr("Hb", (k, n), lo=0)
    sa = B.ns({"m": m, "n": n, "factors": k, "V": V, "U": U, "W": W, "H": H, "update_step": None, "Qtrue": B.real("Qtrue", lo=0)})
    c = B.call(CM, sa, None)
    iW, iH = B.arr("iW", (m, k), lo=0), B.arr("iH", (k, n), lo=0)
    return c, sa, m, n, k, W, H, iW, iH


def searches(B, c, iW, iH, ow, oh, t, ix):
    """pull searches with arbitrary results, checking what they are given"""
    res = {q: B.real("found " + q, lo=0) for q in ("down", "up", "to")}
    calls = []

    def mk(q):
        def f(iW=None, iH=None, target=None, index=None, dQ_limit=None, target_value=None):
            calls.append(q)
            B.same("the search gets the current contributions", iW, ow)
            B.same("the search gets the current profiles", iH, oh)
            B.ensure("the search gets the constraint's element", B.And(target == t, B.eq(B.item(index, 0), ix[0]), B.eq(B.item(index, 1), ix[1])))
            B.ensure("the search gets the constraint's dQ limit", B.eq(dQ_limit, lim[0]))
            if q == "to":
                B.ensure("the search gets the constraint's target", B.eq(target_value, lim[1]))
            return res[q]
        return f
    lim = [None, None]
    if B.symbolic:
        for q, nm in (("down", "_pull_down_value"), ("up", "_pull_up_value"), ("to", "_pull_to_value")):
            g = mk(q)
            B.stub(f"{CM}.{nm}", lambda self, *a, g=g, **kw: g(*a, **kw))
    else:
        for q, nm in (("down", "_pull_down_value"), ("up", "_pull_up_value"), ("to", "_pull_to_value")):
            setattr(c, nm, mk(q))
    return res, lim, calls


def contract_element(B):
    c, sa, m, n, k, W, H, iW, iH = model(B)
    through = B.bool("through") if not B.symbolic else B.choice("through", [True, False])
    Dw, Dh = B.arr("Dw", (m, k)), B.arr("Dh", (k, n))
    ow, oh, dw, dh = [B.snap(x) for x in (iW, iH, Dw, Dh)]
    bw, bh = B.snap(W), B.snap(H)
    t, typ = B.choice("target", ["feature", "sample"]), B.choice("type", TYPES)
    ix = (B.index("i", k if t == "feature" else m), B.index("j", n if t == "feature" else k))
    res, lim, calls = searches(B, c, iW, iH, ow, oh, t, ix)
    a, b = B.real("first", lo=0), B.real("second", lo=0)
    tv = None
    if typ in ("pull down", "pull up"):
        tv, lim[0] = a, a
    elif typ == "pull to value":
        tv, lim[0], lim[1] = B.pytuple((a, b)), b, a
    elif typ == "define limits":
        B.assume(a <= b)
        tv = B.pytuple((a, b))
    con = B.call(CO, typ, B.pytuple(ix), t, tv)
    B.set(c, "constraints", B.pydict([("the constraint", con)]))
    if through:     # with no expressions nothing else is pulled
        r = B.method(c, "_calculate_pull_matrices", iW, iH)
    else:
        r = B.method(c, "_apply_constraints", iW, iH, Dw, Dh)
    rw, rh = B.item(r, 0), B.item(r, 1)
    B.has_shape("pulls of the contributions have their shape", rw, (m, k))
    B.has_shape("pulls of the profiles have their shape", rh, (k, n))
    here = lambda q, x, y: B.And(t == q, B.eq(x, ix[0]), B.eq(y, ix[1]))
    B.forall("no other contribution is touched", (m, k), lambda x, y: B.Or(
        here("sample", x, y), B.eq(rw[x, y], 0 if through else dw[x, y])))
    B.forall("no other profile element is touched", (k, n), lambda x, y: B.Or(
        here("feature", x, y), B.eq(rh[x, y], 0 if through else dh[x, y])))
    cur = B.cell(oh if t == "feature" else ow, ix)
    got = cur + B.cell(rh if t == "feature" else rw, ix)
    base = B.cell(bh if t == "feature" else bw, ix)
    if typ == "define limits":
        want = B.If(cur < a, a, B.If(cur > b, b, cur))
    else:
        want = {"set to zero": 0, "set to base value": base, "pull down": res["down"], "pull up": res["up"], "pull to value": res["to"]}[typ]
    B.ensure("the element is pulled to its target", B.eq(got, want, tol=1e-9, atol=1e-12))
    for nm, x, o in (("current contributions", iW, ow), ("current profiles", iH, oh), ("base contributions", W, bw), ("base profiles", H, bh)):
        B.same(f"the {nm} are not modified", x, o)


def contract_sets(B):
    """bounded: any number of constraints, with the real searches"""
    import numpy as np
    c, sa, m, n, k, W, H, iW, iH = model(B)
    ow, oh = iW.copy(), iH.copy()
    cons = {}
    for q in range(B.int("count", 1, None, 1, 6)):
        t = B.r.choice(["feature", "sample"])
        ix = (B.r.randrange(k), B.r.randrange(n)) if t == "feature" else (B.r.randrange(m), B.r.randrange(k))
        typ = B.r.choice(TYPES)
        a, b = sorted([B.r.randint(0, 40) / 8, B.r.randint(0, 40) / 8])
        if B.method(c, "add_constraint", typ, ix, t, target_value=a, min_value=a, max_value=b, dQ=b * 50):
            cons[t, ix] = (typ, a, b)
    rw, rh = B.method(c, "_calculate_pull_matrices", iW, iH)
    B.same("the current contributions are not modified", iW, ow)
    B.same("the current profiles are not modified", iH, oh)
    for t, D, cur, base in (("sample", rw, ow, W), ("feature", rh, oh, H)):
        for ix in np.ndindex(D.shape):
            if (t, ix) not in cons:
                B.ensure("no other element is touched", D[ix] == 0)
                continue
            typ, a, b = cons[t, ix]
            x, y = cur[ix], cur[ix] + D[ix]
            if typ in ("pull down", "pull up", "pull to value"):
                nm = {"pull down": "_pull_down_value", "pull up": "_pull_up_value", "pull to value": "_pull_to_value"}[typ]
                kw = {"target_value": a} if typ == "pull to value" else {}
                want = B.method(c, nm, iW=ow.copy(), iH=oh.copy(), target=t, index=ix, dQ_limit=b * 50, **kw)
            else:
                want = {"set to zero": 0, "set to base value": base[ix], "define limits": min(max(x, a), b)}[typ]
            B.ensure("the element is pulled to its target", abs(y - want) < 1e-9 * (1 + abs(want)))


def contract_expressions(B):
    """bounded: expressions pull only the elements they name; a constraint on such an element wins"""
    import numpy as np
    c, sa, m, n, k, W, H, iW, iH = model(B)
    iW, iH = iW + 0.01, iH + 0.01
    ow, oh = iW.copy(), iH.copy()
    sa.Qtrue = float((((sa.V - W @ H) / sa.U) ** 2).sum())
    named = set()
    for _ in range(B.int("expressions", 1, None, 1, 3)):
        es = []
        for _ in range(B.r.randint(2, 3)):
            t = B.r.choice(["feature", "sample"])
            f, j = B.r.randrange(k), B.r.randrange(n if t == "feature" else m)
            if (f, t, j) not in es:
                es.append((f, t, j))
        text = "".join(f"{'-' if q else ''}({B.r.choice([0.5, 1.0, 2.0])}*[factor:{f}|{t}:{j}])" for q, (f, t, j) in enumerate(es))
        B.method(c, "add_expression", f"{text}=0,{B.r.choice([1e9, 50.0, 1e-9])}")
        named |= {(t, (f, j) if t == "feature" else (j, f)) for f, t, j in es}
    t = B.r.choice(["feature", "sample"])
    ix = (B.r.randrange(k), B.r.randrange(n)) if t == "feature" else (B.r.randrange(m), B.r.randrange(k))
    B.method(c, "add_constraint", "set to zero", ix, t)
    B.method(c, "_map_expressions")
    rw, rh = B.method(c, "_calculate_pull_matrices", iW, iH)
    B.same("the current contributions are not modified", iW, ow)
    B.same("the current profiles are not modified", iH, oh)
    for q, D, cur in (("sample", rw, ow), ("feature", rh, oh)):
        for x in np.ndindex(D.shape):
            if (q, x) == (t, ix):
                B.ensure("the constrained element is pulled to its target", abs(D[x] + cur[x]) < 1e-12)
            elif (q, x) not in named:
                B.ensure("elements without a constraint or expression are not touched", D[x] == 0)


contract_sets.opts = {"prove": False, "cases": 1}
contract_expressions.opts = {"prove": False, "cases": 0.5}
CONTRACTS = ["contract_element", "contract_sets", "contract_expressions"]
ASSUMES = ["the limits of 'define limits' are given in order (min <= max)", "pull searches: C18"]

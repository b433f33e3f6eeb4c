"""C15: constraints and expressions are recorded exactly as given, invalid constraints are rejected, removal keeps the rest.

One addition or removal of a constraint, on a set holding arbitrary other constraints, and of an expression, on an arbitrary
list, are proved; histories of many steps and the parsing of expressions (regular expressions) are bounded stand-ins."""
CM = "esat.rotational.constrained:ConstrainedModel"
TYPES = ("pull down", "pull up", "pull to value", "set to zero", "set to base value", "define limits")


def model(B, chi=4):
    m, n, k = B.dim("m", chi=chi), B.dim("n", chi=chi), B.dim("k", chi=3)
    W, H = B.arr("W", (m, k), lo=0.01), B.arr("H", (k, n), lo=0.01)
    sa = B.ns({"m": m, "n": n, "factors": k, "W": W, "H": H, "update_step": None})
    c = B.call(CM, sa, None, softness=B.real("softness", lo=0.01))
    return c, sa, m, n, k


def expected(typ, tv, lo, hi, dq):
    if typ in ("pull down", "pull up"):
        return [dq]
    return {"pull to value": [tv, dq], "define limits": [lo, hi]}.get(typ, None)


def check_constraint(B, c, typ, ix, target, want):
    B.ensure("the type is recorded", B.get(c, "constraint_type") == typ)
    B.ensure("the target is recorded", B.get(c, "target") == target)
    rec = B.get(c, "index")
    B.ensure("the index is recorded", B.And(B.eq(B.item(rec, 0), ix[0]), B.eq(B.item(rec, 1), ix[1])))
    got = B.get(c, "target_values")
    if want is None:
        B.ensure("no values are recorded where the type has none", got is None)
    elif len(want) == 1:
        B.ensure("the dQ limit is recorded", B.eq(got, want[0]))
    else:
        B.ensure("both values are recorded in order", B.And(B.eq(B.item(got, 0), want[0]), B.eq(B.item(got, 1), want[1])))


def label(B, target, ix):
    return B.fstr("factor:", ix[0], "|", target, ":", ix[1])


def others(B, c, count):
    """an arbitrary set of earlier constraints"""
    out = []
    for q in range(count):
        t = B.choice(f"target{q}", ["feature", "sample"])
        ix = (B.int(f"a{q}", lo=0, clo=0, chi=3), B.int(f"b{q}", lo=0, clo=0, chi=3))
        for t2, ix2, _ in out:
            B.assume(B.Or(t != t2, B.Not(B.And(B.eq(ix[0], ix2[0]), B.eq(ix[1], ix2[1])))))
        o = B.ns({"q": q})
        out.append((t, ix, o))
    B.set(c, "constraints", B.pydict([(label(B, t, ix), o) for t, ix, o in out]))
    return out


def same_label(B, t, ix, t2, ix2):
    return B.And(t == t2, B.eq(ix[0], ix2[0]), B.eq(ix[1], ix2[1]))


def contract_add(B):
    c, sa, m, n, k = model(B)
    old = others(B, c, B.choice("earlier", [0, 2] if B.symbolic else [0, 1, 2]))
    typ = B.choice("type", list(TYPES) + ["pull sideways"])
    target = B.choice("target", ["feature", "sample", "factor"])
    ix = (B.int("i", clo=-1, chi=4), B.int("j", clo=-1, chi=4))
    tv, lo, hi, dq = B.real("value", lo=0), B.real("min", lo=0), B.real("max", lo=0), B.real("dQ", lo=0)
    r = B.method(c, "add_constraint", typ, B.pytuple(ix), target, target_value=tv, min_value=lo, max_value=hi, dQ=dq)
    rows, cols = {"feature": (k, n), "sample": (m, k)}.get(target, (0, 0))
    valid = B.And(typ in TYPES, target in ("feature", "sample"), ix[0] >= 0, ix[0] < rows, ix[1] >= 0, ix[1] < cols)
    taken = B.Or(*[same_label(B, target, ix, t2, ix2) for t2, ix2, _ in old]) if old else False
    valid = B.And(valid, B.Not(taken))
    cons = B.get(c, "constraints")
    B.ensure("valid constraints are accepted, all others rejected", B.iff(r, valid))
    for t, i2, o in old:
        B.ensure("the other constraints stay as they were", B.item(cons, label(B, t, i2)) is o)
    if B.case(valid):
        B.ensure("one constraint more", B.eq(B.length(cons), len(old) + 1))
        check_constraint(B, B.item(cons, label(B, target, ix)), typ, ix, target, expected(typ, tv, lo, hi, dq))
    else:
        B.ensure("nothing is recorded for an invalid constraint", B.eq(B.length(cons), len(old)))


def contract_remove(B):
    c, sa, m, n, k = model(B)
    old = others(B, c, B.choice("earlier", [1, 3] if B.symbolic else [1, 2, 3]))
    t, ix = B.choice("target", ["feature", "sample"]), (B.int("i", lo=0, clo=0, chi=3), B.int("j", lo=0, clo=0, chi=3))
    known = B.Or(*[same_label(B, t, ix, t2, ix2) for t2, ix2, _ in old])
    _, err = B.try_method(c, "remove_constraint", label(B, t, ix))
    cons = B.get(c, "constraints")
    B.ensure("removing an unknown constraint changes nothing", B.eq(B.length(cons), B.If(known, len(old) - 1, len(old))))
    B.ensure("known constraints are removed without an error", B.Or(err is None, B.Not(known)))
    for t2, ix2, o in old:
        if B.case(same_label(B, t, ix, t2, ix2)):
            B.ensure("the constraint is gone", all(x is not o for _, x in B.entries(cons)))
        else:
            B.ensure("the other constraints stay as they were", B.item(cons, label(B, t2, ix2)) is o)


def contract_expressions(B):
    """expressions are kept in the order given"""
    c, sa, m, n, k = model(B)
    cnt = B.dim("expressions", lo=0, chi=4)
    if B.symbolic:
        E = B.fun("E", 1)
        old = lambda q: E(q)
        B.set(c, "expressions", B.list("exps", cnt, lambda q: E(q)))
        new = B.real("new")
    else:
        texts = [f"exp{q}" for q in range(cnt)]
        old = lambda q: texts[q]
        B.set(c, "expressions", list(texts))
        new = "new"
    if B.choice("step", ["add", "remove"]) == "add":
        r = B.method(c, "add_expression", new)
        got = B.get(c, "expressions")
        B.ensure("the expression is accepted", r)
        B.ensure("one expression more", B.eq(B.length(got), cnt + 1))
        B.forall("the others stay in place", (cnt,), lambda q: B.eq(B.cell(got, q), old(q)) if B.symbolic else got[q] == old(q))
        B.ensure("the new one comes last", B.eq(B.cell(got, cnt), new) if B.symbolic else got[cnt] == new)
    else:
        x = B.int("which", clo=-2, chi=5)
        B.method(c, "remove_expression", x)
        got = B.get(c, "expressions")
        if B.case(B.And(x >= 0, x < cnt)):
            B.ensure("one expression less", B.eq(B.length(got), cnt - 1))
            B.forall("the others keep their order", (cnt - 1,), lambda q: B.eq(B.cell(got, q), B.If(q < x, old(q), old(q + 1)))
                     if B.symbolic else got[q] == (old(q) if q < x else old(q + 1)))
        else:
            B.ensure("removing an unknown expression changes nothing", B.eq(B.length(got), cnt))
            B.forall("unchanged", (cnt,), lambda q: B.eq(B.cell(got, q), old(q)) if B.symbolic else got[q] == old(q))


def contract_history(B):
    """bounded: random sequences of additions and removals against a plain model of the set"""
    c, sa, m, n, k = model(B, chi=3)
    ref, refx = {}, []
    for _ in range(B.int("steps", 1, None, 1, 25)):
        op = B.r.choice(["add", "add", "add", "remove", "expr", "unexpr"])
        if op == "add":
            typ = B.r.choice(TYPES + ("pull", "Pull Down", ""))
            t = B.r.choice(["feature", "sample", "feature", "sample", "H", "Feature"])
            ix = (B.r.randint(-1, 3), B.r.randint(-1, 3))
            tv, lo, hi, dq = [B.r.randint(0, 9) / 4 for _ in range(4)]
            ok = B.method(c, "add_constraint", typ, ix, t, target_value=tv, min_value=lo, max_value=hi, dQ=dq)
            rows, cols = {"feature": (k, n), "sample": (m, k)}.get(t, (0, 0))
            lab = f"factor:{ix[0]}|{t}:{ix[1]}"
            want = typ in TYPES and 0 <= ix[0] < rows and 0 <= ix[1] < cols and lab not in ref
            B.ensure("valid constraints are accepted, all others rejected", bool(ok) == want)
            if want:
                ref[lab] = (typ, ix, t, expected(typ, tv, lo, hi, dq))
        elif op == "remove":
            lab = B.r.choice(list(ref) + ["factor:0|feature:9"])
            _, err = B.try_method(c, "remove_constraint", lab)
            B.ensure("known constraints are removed without an error", err is None or lab not in ref)
            ref.pop(lab, None)
        elif op == "expr":
            x = f"(1.0*[factor:0|feature:{B.r.randint(0, 9)}])=0,5"
            B.method(c, "add_expression", x)
            refx.append(x)
        else:
            q = B.r.randint(-1, len(refx))
            B.method(c, "remove_expression", q)
            if 0 <= q < len(refx):
                del refx[q]
        B.ensure("the set holds exactly the valid additions not removed since", list(c.constraints) == list(ref))
        B.ensure("expressions are kept in order", list(c.expressions) == refx)
        for lab, (typ, ix, t, want) in ref.items():
            check_constraint(B, c.constraints[lab], typ, ix, t, want)


def contract_parse(B):
    """bounded: expressions are parsed into exactly the terms, coefficients, signs and limits written in them"""
    c, sa, m, n, k = model(B)
    want, labels = [], []
    for _ in range(B.int("expressions", 1, None, 1, 4)):
        terms, text = [], ""
        used = set()
        for q in range(B.r.randint(1, 5)):
            e = (B.r.randint(0, 11), B.r.choice(["feature", "sample"]), B.r.randint(0, 11))
            if e in used:
                continue
            used.add(e)
            coef = B.r.choice([0.66, 4.2, 1.0, 20.0, 3, 1e-3, 0.25])
            neg = bool(text) and B.r.random() < 0.5
            text += ("-" if neg else "+" if text else "") + f"({coef}*[factor:{e[0]}|{e[1]}:{e[2]}])"
            terms.append((e, -coef if neg else coef))
        dq = B.r.choice([250, 0.5, 1e3])
        B.method(c, "add_expression", f"{text}=0,{dq}")
        want.append((terms, dq))
    for _ in range(B.int("times", 1, None, 1, 2)):
        B.method(c, "_map_expressions")
    B.ensure("one parsed expression per expression", len(c.expression_labeled) == len(want))
    for q, (terms, dq) in enumerate(want):
        lab, d = c.expression_labeled[q]
        B.ensure("the terms are those written, in order", list(lab) == [f"factor:{e[0]}|{e[1]}:{e[2]}" for e, _ in terms])
        B.ensure("the dQ limit is the one written", d == float(dq))
        for (e, coef), x in zip(terms, lab):
            g = c.expression_mapped[x]
            B.ensure("the element is the one written", tuple(g["index"]) == (e[0], e[2]) and g["type"] == e[1])
            B.ensure("the coefficient is the one written, with its sign", g["coef"][g["exp_i"].index(q)] == coef)
    cols = [g["coef_index"] for g in c.expression_mapped.values()]
    B.ensure("every element has its own column", sorted(cols) == list(range(len({e for t, _ in want for e, _ in t}))))


contract_history.opts = {"prove": False, "cases": 3}
contract_parse.opts = {"prove": False, "cases": 3}
CONTRACTS = ["contract_add", "contract_remove", "contract_expressions", "contract_history", "contract_parse"]
ASSUMES = ["the sets of earlier constraints in the proofs have up to three arbitrary members (labels are the only thing looked at)"]

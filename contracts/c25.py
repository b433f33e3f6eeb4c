"""C25: the mapping of factors is one-to-one, the best there is, and reported with its own correlations.

The metric tables of FactorCompareV2 and the map read from them are proved for any number of factors, models and samples
(the assignment solver of scipy is used by its contract); FactorCompare, which works on tables and enumerates permutations,
is a bounded stand-in on the real code."""
from .dhmodel import B_perm

FC = "eval.factor_comparison:"


def r2(np, a, b):
    a, b = np.asarray(a, float) - np.mean(a), np.asarray(b, float) - np.mean(b)
    return float((a * b).sum() ** 2 / ((a * a).sum() * (b * b).sum()))


def contract_compare(B):
    import itertools
    import numpy as np
    import pandas as pd
    m, n = B.dim("m", lo=4, chi=9), B.dim("n", lo=4, chi=7)
    kb = B.int("base factors", 1, None, 1, 4)
    ks = kb if B.bool("as many") else B.int("model factors", 1, None, 1, 4)
    r = np.random.default_rng(B.int("seed", 0, None, 0, 10 ** 6))
    W, H = r.uniform(0.01, 5, (m, kb)), r.uniform(0.01, 5, (kb, n))
    names = [f"Factor {q + 1}" for q in range(kb)] if B.bool("numbered") else [f"src{q}" for q in range(kb)][::-1]
    feats = [f"f{q}" for q in range(n)]
    V = pd.DataFrame(np.abs(W @ H + r.normal(0, 0.3, (m, n))), columns=feats)
    U = pd.DataFrame(r.uniform(0.1, 1, (m, n)), columns=feats)
    results, sols = [], {}
    for q in range(B.int("models", 1, None, 1, 3)):
        if q and B.bool(f"gap{q}"):
            results.append(None)
            continue
        o = list(range(ks))
        r.shuffle(o)
        w = np.array([W[:, x] if x < kb else r.uniform(0, 5, m) for x in o]).T * r.uniform(0.2, 1.8, (m, ks)) ** r.choice([0.3, 1, 3])
        h = np.array([H[x] if x < kb else r.uniform(0, 5, n) for x in o]) * r.uniform(0.2, 1.8, (ks, n)) ** r.choice([0.3, 1, 3])
        results.append(B.ns({"H": h, "W": w, "WH": w @ h, "Qtrue": float(q), "factors": ks}))
        sols[q] = (w, h)
    batch = B.ns({"factors": ks, "results": results, "best_model": 0})
    method = B.choice("method", ["all", "W", "H", "WH"])
    logs = []
    B.patch(FC + "logger", B.ns({k: (lambda *a, **x: logs.append(str(a))) for k in ("info", "error", "warning", "debug")}))
    fc = B.call(FC + "FactorCompare", V, U, pd.DataFrame(H.T, columns=names), pd.DataFrame(W, columns=names), batch, method=method)
    for q, (w, h) in sols.items():
        B.ensure("reconstruction tables hold the model's cells in place", np.allclose(fc.sa_model_dfs[q]["WH"].to_numpy(), w @ h))
    B.ensure("the base reconstruction is the product of the base factors", np.allclose(fc.base_V_estimate, W @ H))
    B.method(fc, "compare")
    R = {q: [[(r2(np, H[b], h[s]), r2(np, W[:, b], w[:, s]), r2(np, np.outer(W[:, b], H[b]).ravel(), np.outer(w[:, s], h[s]).ravel()))
              for s in range(ks)] for b in range(kb)] for q, (w, h) in sols.items()}

    def score(q, pairs):
        x = np.mean([R[q][b][s] for b, s in pairs], axis=0)
        return {"all": float(np.mean(x)), "H": x[0], "W": x[1], "WH": x[2]}[method], x
    per = [[(b, s) for s, b in enumerate(p)] for p in itertools.permutations(range(kb), ks)] if kb >= ks else \
        [[(b, s) for b, s in enumerate(p)] for p in itertools.permutations(range(ks), kb)]
    sa_names = [f"Factor {q + 1}" for q in range(ks)]

    def pairs_of(fm):
        if kb >= ks:
            B.ensure("every model factor has a base factor", len(fm) == ks and all(x in names for x in fm))
            return [(names.index(x), s) for s, x in enumerate(fm)]
        B.ensure("every base factor has a model factor", len(fm) == kb and all(x in sa_names for x in fm))
        return [(b, sa_names.index(x)) for b, x in enumerate(fm)]

    def check(q, fm, avg, rr, cr, wr, ra, ca, wa):
        p = pairs_of(fm)
        B.ensure("the mapping is one-to-one", len({x[0] for x in p}) == len(p) == len({x[1] for x in p}))
        s, x = score(q, p)
        B.ensure("the average reported is that of the mapping", abs(s - avg) <= 1e-9)
        B.ensure("no other assignment has a higher average", s >= max(score(q, z)[0] for z in per) - 1e-9)
        for nm, got, av, c in (("profile", rr, ra, 0), ("contribution", cr, ca, 1), ("factor", wr, wa, 2)):
            B.ensure(f"the {nm} correlations are those of the pairs", np.allclose(got, [R[q][b][t][c] for b, t in p], atol=1e-9))
            B.ensure(f"the average {nm} correlation is theirs", abs(av - x[c]) <= 1e-9)
    B.ensure("every model with a result is reported under its own number", set(fc.model_results) == set(sols))
    for q in sols:
        d = fc.model_results[q]
        check(q, d["factor_map"], d["best_avg_r"], d["best_factor_r"], d["best_contribution_r"], d["best_wh_r"],
              d["best_factor_r_avg"], d["best_contribution_r_avg"], d["best_wh_r_avg"])
    B.ensure("the best model is the one with the best mapping", fc.best_model in sols and max(
        max(score(q, z)[0] for z in per) for q in sols) <= score(fc.best_model, pairs_of(fc.factor_map))[0] + 1e-9)
    check(fc.best_model, fc.factor_map, fc.best_avg_r, fc.best_factor_r, fc.best_contribution_r, fc.best_wh_r,
          fc.best_factor_r_avg, fc.best_contribution_r_avg, fc.best_wh_r_avg)
    q0 = float((((V.to_numpy() - W @ H) / U.to_numpy()) ** 2).sum())
    txt = [x for x in logs if "Base Q(true)" in x]
    if txt:
        import re
        v = float(re.search(r"Base Q\(true\): ([-+0-9.e]+)", txt[-1]).group(1).rstrip("."))
        B.ensure("the loss of the base solution is taken with the uncertainties", abs(v - q0) <= 1e-6 * max(1, q0))


def metrics(B, Wb, Hb, Wm, Hm, m, n, j, k):
    """squared correlation, relative average absolute error and mass correlation of base factor j and model factor k"""
    c = B.corr(m, lambda i: Wb[i, j], lambda i: Wm[i, k])
    if B.symbolic:
        # mass fractions; the common scale of a row does not change a correlation, but the prover has no lemma for that
        K = B.shape(Hb)[0]

        def mass(W, H):
            w = B.div(B.SUM(m, lambda i: W[i, 0]), m)
            tot = B.SUM(K, lambda a: B.SUM(n, lambda b: w * H[a, b]))
            return lambda a, b: B.div(w * H[a, b], tot)
        mb, mm = mass(Wb, Hb), mass(Wm, Hm)
        e = B.corr(n, lambda f: mb(j, f), lambda f: mm(k, f))
    else:
        e = B.corr(n, lambda f: Hb[j, f], lambda f: Hm[k, f])
    raae = B.div(B.SUM(m, lambda i: B.abs(Wm[i, k] - Wb[i, j])), B.SUM(m, lambda i: Wb[i, j]))
    return c * c, raae, e * e


def contract_map(B):
    import numpy as np
    m, n, k = B.dim("m", lo=4, chi=9), B.dim("n", lo=3, chi=7), B.dim("k", chi=4)
    r = np.random.default_rng(B.int("seed", 0, None, 0, 10 ** 6))
    W, H = r.uniform(0.01, 5, (m, k)), r.uniform(0.01, 5, (k, n))
    models = []
    for q in range(B.int("models", 1, None, 1, 3)):
        o = list(range(k))
        if not B.bool(f"ordered{q}"):
            r.shuffle(o)
        models.append(B.ns({"W": W[:, o] * r.uniform(0.3, 1.7, (m, k)) ** r.choice([0, 0.3, 1, 3]),
                            "H": H[o] * r.uniform(0.3, 1.7, (k, n)) ** r.choice([0, 0.3, 1, 3]), "factors": k}))
    c = B.call(FC + "FactorCompareV2", B.ns({"W": W, "H": H, "factors": k}), models)
    import itertools
    for method, a in (("corr", 0), ("raae", 1), ("emc", 2)):
        mp, val = B.method(c, "determine_map", method)
        for q, mo in enumerate(models):
            M = np.array([[metrics(B, W, H, mo.W, mo.H, m, n, j, x)[a] for x in range(k)] for j in range(k)])
            got = [int(x) for x in mp[q]]
            B.ensure(f"{method}: the mapping is one-to-one", sorted(got) == list(range(k)))
            best = max if method != "raae" else min
            tot = lambda p: sum(M[j, x] for j, x in enumerate(p))
            B.ensure(f"{method}: no other assignment is better", abs(tot(got) - best(tot(p) for p in itertools.permutations(range(k)))) <= 1e-8)
            B.ensure(f"{method}: the values are those of the pairs", all(abs(val[q][j] - M[j, x]) <= 6e-5 for j, x in enumerate(got)))


contract_compare.opts = {"prove": False, "cases": 3}
contract_map.opts = {"prove": False, "cases": 3}
CONTRACTS = ["contract_compare", "contract_map"]


def contract_tables(B):
    """one model; the metric tables for any number of factors, samples and features"""
    m, n, k = B.dim("m", lo=2, chi=7), B.dim("n", lo=2, chi=6), B.dim("k", chi=4)
    W, H = B.arr("W", (m, k), lo=0, strict=True), B.arr("H", (k, n), lo=0, strict=True)
    Wm, Hm = B.arr("Wm", (m, k), lo=0, strict=True), B.arr("Hm", (k, n), lo=0, strict=True)
    snaps = [B.snap(x) for x in (W, H, Wm, Hm)]
    c = B.call(FC + "FactorCompareV2", B.ns({"W": W, "H": H, "factors": k}), B.pylist([B.ns({"W": Wm, "H": Hm, "factors": k})]))
    d = B.item(B.get(c, "correlation_data"), 0)
    for a, key in ((0, "all_corr"), (1, "all_raae"), (2, "all_emc")):
        B.forall(f"{key}: row j holds the metric of base factor j with every model factor", (k, k), lambda j, x: B.eq(
            B.item(B.item(B.item(d, key), j), x), metrics(B, snaps[0], snaps[1], snaps[2], snaps[3], m, n, j, x)[a], tol=1e-6))
    for nm, x, o in zip(("contributions of the base", "profiles of the base", "contributions of the model", "profiles of the model"),
                        (W, H, Wm, Hm), snaps):
        B.same(f"the {nm} are not modified", x, o)


def contract_map_any(B):
    """the map read from any metric tables, against an arbitrary other assignment"""
    k = B.dim("k", chi=4)
    tabs = {}
    for key in ("all_corr", "all_raae", "all_emc"):
        tabs[key] = B.arr(key, (k, k), lo=0)
    method = B.choice("method", ["corr", "raae", "emc"])
    M = tabs["all_" + method]
    sign = -1 if method == "raae" else 1
    if B.symbolic:
        P, C = B.fun("P", 1, "int"), B.fun("C", 1, "int")

        def perm(f):
            B.axiom(1, lambda i: B.Implies(B.And(i >= 0, i < k), B.And(f(i) >= 0, f(i) < k)))
            B.axiom(2, lambda i, j: B.Implies(B.And(i >= 0, i < k, j >= 0, j < k, B.eq(f(i), f(j))), B.eq(i, j)))
        perm(P)

        def solver(cost, maximize=False):
            """contract of scipy.optimize.linear_sum_assignment: a permutation not worse than the arbitrary one, P"""
            perm(C)
            c = B.snap(cost)
            s = lambda f: B.SUM(k, lambda i: B.cell(c, (i, f(i))))
            B.assume(s(C) >= s(P) if maximize else s(C) <= s(P))
            return B.pytuple([B.lam((k,), lambda i: i, "int"), B.lam((k,), lambda i: C(i), "int")])
        B.lib_override("scipy.optimize", "linear_sum_assignment", B.builtin(solver))
    else:
        o = B_perm(B, k)
        P = lambda i: o[int(i)]
    c = B.obj(FC + "FactorCompareV2", {"factors": k, "factor_map": None, "correlation_data": B.pydict([(0, B.pydict(
        [(key, B.list(key + " rows", k, lambda i, key=key: B.lam((k,), lambda j: tabs[key][i, j]))) for key in tabs]))])})
    r = B.method(c, "determine_map", method)
    mp, val = B.item(B.item(r, 0), 0), B.item(B.item(r, 1), 0)
    at = lambda i: B.int_of(B.item(mp, i))
    B.forall("every base factor gets a model factor", (k,), lambda i: B.And(at(i) >= 0, at(i) < k))
    B.forall("no two base factors get the same one", (k, k), lambda i, j: B.Implies(B.eq(at(i), at(j)), B.eq(i, j)))
    tot = lambda f: B.SUM(k, lambda i: B.cell(M, (i, f(i))))
    B.ensure("no other assignment is better", B.le(tot(at), tot(P), tol=1e-9) if sign < 0 else B.le(tot(P), tot(at), tol=1e-9))
    B.forall("the values are those of the pairs", (k,), lambda i: B.eq(B.item(val, i), B.round(B.cell(M, (i, at(i))), 4)))


contract_tables.opts = {}
CONTRACTS += ["contract_tables", "contract_map_any"]
ASSUMES = ["contributions and profiles are positive, correlations are defined", "contract of scipy.optimize.linear_sum_assignment"]

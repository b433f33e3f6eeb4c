"""C27: perturbed uncertainties, their multipliers and the models trained with them.

The perturbation of the uncertainties is proved for every matrix, share, spread and seed; the runs (process pools, training)
and the comparison tables are bounded stand-ins on the real code."""
PB = "eval.perturbation:Perturbation"


def contract_perturb(B):
    m, n = B.dim("m", chi=7), B.dim("n", chi=5)
    U = B.arr("U", (m, n), lo=0)
    per_feature = B.bool("per feature")
    if B.case(per_feature):
        P, S = B.arr("share", (n,), lo=-1, hi=2), B.arr("spread", (n,), lo=0, hi=1)
        share, spread = B.list("shares", n, lambda j: P[j]), B.list("spreads", n, lambda j: S[j])
        p = lambda j: P[j]
    else:
        share, spread = B.real("share", clo=-1, chi=2), B.real("spread", lo=0, clo=0, chi=1)
        p = lambda j: share
    u0 = B.snap(U)
    c = B.obj(PB, {"U": U, "perturb_percent": share, "sigma": spread})
    seed = B.int("seed", lo=0, clo=0, chi=10 ** 6)
    r = B.method(c, "perturb", seed)
    u, f = B.item(r, 0), B.item(r, 1)
    B.has_shape("perturbed uncertainties keep the shape", u, (m, n))
    B.has_shape("there is one multiplier per cell", f, (m, n))
    B.forall("multipliers are positive", (m, n), lambda i, j: f[i, j] > 0)
    B.forall("perturbed uncertainties are the uncertainties times their multipliers", (m, n), lambda i, j: B.eq(
        u[i, j], B.If(B.cell(u0, (i, j)) * f[i, j] <= 0, 1e-12, B.cell(u0, (i, j)) * f[i, j])))
    B.forall("with a share below zero nothing is perturbed", (m, n), lambda i, j: B.Implies(p(j) < 0, B.eq(f[i, j], 1)))
    B.same("the uncertainties of the base model are not modified", U, u0)
    c2 = B.obj(PB, {"U": U, "perturb_percent": share, "sigma": spread})
    r2 = B.method(c2, "perturb", seed)
    B.same("the same seed gives the same uncertainties", B.item(r2, 0), u)
    B.same("the same seed gives the same multipliers", B.item(r2, 1), f)


def contract_share(B):
    """bounded: the share of perturbed cells and the spread of the multipliers are those configured"""
    import numpy as np
    p, s = B.choice("p", [0.0, 0.1, 0.5, 0.9, 1.0]), B.choice("s", [0.05, 0.33, 1.0])
    lst = B.bool("lists")
    U = np.random.default_rng(B.int("seed0", 0, None, 0, 999)).uniform(0.1, 2, (3000, 2))
    c = B.obj(PB, {"U": U, "perturb_percent": [p, 1.0] if lst else p, "sigma": [s, 0.33] if lst else s})
    u, f = B.method(c, "perturb", B.int("seed", 0, None, 0, 10 ** 6))
    hit = f[:, 0] != 1
    B.ensure("the configured share of the cells is perturbed", abs(hit.mean() - p) <= 0.05 if 0 < p < 1 else abs(hit.mean() - p) <= 0.001)
    if p > 0:
        z = np.log(f[:, 0][hit])
        B.ensure("multipliers are centred on one", abs(np.median(z)) <= 6 * s / np.sqrt(hit.sum()))
        B.ensure("multipliers have the configured spread", abs(z.std() / s - 1) <= 6 / np.sqrt(hit.sum()))
    if lst:
        B.ensure("every feature has its own share", (f[:, 1] != 1).all())


def contract_run(B):
    """bounded: every perturbed model is the base model's data with one perturbed set of uncertainties"""
    import numpy as np
    m, n, k = B.dim("m", lo=5, chi=9), B.dim("n", lo=3, chi=5), B.int("k", 2, None, 2, 3)
    r = np.random.default_rng(B.int("seed0", 0, None, 0, 10 ** 6))
    V = r.uniform(0, 1, (m, k)) @ r.uniform(0, 1, (k, n)) + r.uniform(0, 0.1, (m, n))
    U = r.uniform(0.05, 0.4, (m, n))
    V0, U0 = V.copy(), U.copy()
    method = B.choice("method", ["ls-nmf", "ws-nmf"])
    SA = "esat.model.sa:SA"

    def model(V, U, seed, H=None, W=None, it=0):
        x = B.call(SA, V, U, k, method=method, seed=seed, verbose=False)
        if H is None:
            B.method(x, "initialize")
        else:
            B.method(x, "initialize", H=H, W=W)
        B.method(x, "train", max_iter=25, converge_delta=1e-6, converge_n=5)
        return x
    base = model(V, U, 3) if B.bool("base given") else None
    bs = None if base is None else (base.W.copy(), base.H.copy())
    q, seed = B.int("models", 1, None, 1, 3), B.int("seed", 0, None, 0, 10 ** 4)
    share = B.choice('p', [1.0, 0.5])
    runs = []
    for _ in range(2):
        c = B.call(PB, V, U, k, base_model=base, method=method, random_seed=seed, perturb_percent=share,
                   sigma=0.2, models=q, max_iterations=25, converge_n=5, converge_delta=1e-6)
        B.method(c, "run")
        runs.append(c)
    c = runs[0]
    B.ensure("as many models as asked for", len(c.perturbed_models) == q and len(c.perturbed_multipliers) == q)
    if base is None:
        ref = model(V, U, seed)
        B.ensure("the base model is trained on the unperturbed uncertainties", np.allclose(c.base_model.WH, ref.WH))
    for x, y in zip(runs[0].perturbed_multipliers, runs[1].perturbed_multipliers):
        B.ensure("runs with the same seed draw the same multipliers", np.array_equal(x, y))
    for x, y in zip(runs[0].perturbed_models, runs[1].perturbed_models):
        B.ensure("runs with the same seed give the same models", np.allclose(x.W, y.W) and np.allclose(x.H, y.H))
    for a in range(q):
        for b in range(a):
            B.ensure("every model has multipliers of its own", not np.array_equal(c.perturbed_multipliers[a], c.perturbed_multipliers[b]))
    for x, f in zip(c.perturbed_models, c.perturbed_multipliers):
        B.ensure("models are trained on the base model's data", np.allclose(x.V, V0, rtol=1e-6, atol=1e-9))
        B.ensure("with the uncertainties times the multipliers", np.allclose(x.U, U0 * f, rtol=1e-6, atol=1e-9))
        ref = model(V0, U0 * f, x.seed, H=c.base_model.H, W=c.base_model.W)
        B.ensure("starting from the base model's factors", np.allclose(x.WH, ref.WH) and np.allclose(x.H, ref.H))
    B.ensure("data and uncertainties are not modified", np.array_equal(V, V0) and np.array_equal(U, U0))
    if base is not None:
        B.ensure("the base model is not modified", np.array_equal(base.W, bs[0]) and np.array_equal(base.H, bs[1]) and
                 np.allclose(base.V, V0, rtol=1e-6, atol=1e-9) and np.allclose(base.U, U0, rtol=1e-6, atol=1e-9))
    met = B.choice("compare", ["raae", "emc", "corr"])
    B.method(c, "compare", met)
    for a, x in enumerate(c.perturbed_models):
        mp = [int(z) for z in c.perturb_mapping[a]]
        H, W = x.H / x.H.sum(axis=0), x.W / x.W.sum(axis=1, keepdims=True)
        B.ensure("compared profiles are those of the mapped factors", np.allclose(c.perturb_H[:, :, a], H[mp]))
        B.ensure("compared contributions are those of the mapped factors", np.allclose(c.perturb_W[:, :, a], W[:, mp].T))


contract_share.opts = {"prove": False}
contract_run.opts = {"prove": False, "cases": 2}
CONTRACTS = ["contract_perturb", "contract_share", "contract_run"]
ASSUMES = ["random draws are arbitrary numbers in their documented ranges, determined by seed and position"]

"""C24: synthetic data are the product of contributions and profiles, with bounded noise and outliers; the uncertainties follow.

The generated data and uncertainties are proved for every configuration and every outcome of the random draws, as are supplied
profiles and rising or falling contributions; curves of other shapes, the rates of the draws and the tables and the model that
are built from the data are bounded stand-ins on the real code."""
SIM = "eval.simulator:Simulator"


class Draws:
    """random generator: arbitrary numbers of the documented ranges, remembered for the contract"""

    def __init__(self, B, m, n):
        self.B, self.m, self.n, self.normals, self.masks, self.means = B, m, n, [], [], []

    def normal(self, loc=0, scale=1, size=None):
        B = self.B
        z = B.arr(f"z{len(self.normals)}", (self.m, self.n))
        r = B.lam((self.m, self.n), lambda i, j: loc[j] + scale * z[i, j])
        self.normals.append((B.snap(r), scale))
        return r

    def uniform(self, low=0, high=1, size=None):
        B = self.B
        if isinstance(size, (tuple, list)):
            u = B.arr(f"u{len(self.masks)}", (self.m, self.n), lo=0, hi=1)
            self.masks.append(B.snap(u))
            return u
        u = B.arr(f"mean{len(self.means)}", (self.n,), lo=0, hi=1)
        r = B.lam((self.n,), lambda j: low + (high - low) * u[j])
        self.means.append((B.snap(r), low, high))
        return r

    def ns(self):
        B = self.B
        return B.ns({"normal": B.builtin(lambda *a, **k: self.normal(*a, **k)), "uniform": B.builtin(lambda *a, **k: self.uniform(*a, **k))})


def contract_data(B):
    m, n, k = B.dim("m", chi=6), B.dim("n", chi=5), B.dim("k", chi=4)
    W, H = B.arr("W", (m, k), lo=0), B.arr("H", (k, n), lo=0)
    wsnap, hsnap = B.snap(W), B.snap(H)
    outliers = bool(B.case(B.bool("outliers")))
    p, mag = B.real("p", lo=0, hi=1, clo=0, chi=1), B.real("mag", lo=0, strict=True, clo=0.25, chi=4)
    ns_, us = B.real("noise scale", lo=0, clo=0, chi=0.5), B.real("unc scale", lo=0, clo=0, chi=0.5)
    a, b = B.real("nmin", lo=0, clo=0, chi=0.2), B.real("nmax", lo=0, clo=0, chi=0.4)
    c, d = B.real("umin", lo=0, clo=0, chi=0.2), B.real("umax", lo=0, clo=0, chi=0.4)
    rng = Draws(B, m, n)
    s = B.obj(SIM, {"samples_n": m, "features_n": n, "factors_n": k, "syn_contributions": W, "syn_profiles": H, "rng": rng.ns(),
                    "outliers": outliers, "outlier_p": p, "outlier_mag": mag, "noise_mean_min": a, "noise_mean_max": b,
                    "noise_scale": ns_, "uncertainty_mean_min": c, "uncertainty_mean_max": d, "uncertainty_scale": us,
                    "verbose": False})
    B.method(s, "_generate_data")
    V, U = B.get(s, "syn_data"), B.get(s, "syn_uncertainty")
    B.has_shape("the data are samples by features", V, (m, n))
    B.has_shape("the uncertainties are samples by features", U, (m, n))
    prod = lambda i, j: B.SUM(k, lambda q: wsnap[i, q] * hsnap[q, j])
    B.ensure("noise and uncertainty are drawn once per cell", len(rng.normals) == 2)
    noise, unc = rng.normals[0][0], rng.normals[1][0]
    B.ensure("with the configured spreads", B.And(B.eq(rng.normals[0][1], ns_), B.eq(rng.normals[1][1], us)))
    B.ensure("around means between the configured limits", len(rng.means) == 2 and B.And(*[B.And(B.eq(x, y), B.eq(z, w)) for (_, x, z), (y, w) in
                                                                                        zip(rng.means, ((a, b), (c, d)))]))
    floor = lambda x: B.If(x <= 0, 1e-12, x)

    def cell(i, j):
        out = []
        for sg in (1, -1):
            x = prod(i, j) * (1 + sg * B.cell(noise, (i, j)))
            out += [x, x * mag, B.div(x, mag)] if outliers else [x]
        return B.Or(*[B.eq(V[i, j], floor(x), tol=1e-9) for x in out])
    B.forall("every cell is the product, with noise and at most one outlier factor", (m, n), cell)
    B.forall("data are positive", (m, n), lambda i, j: V[i, j] > 0)
    B.forall("uncertainties are the data times the drawn share", (m, n), lambda i, j: B.eq(
        U[i, j], B.If(V[i, j] * B.cell(unc, (i, j)) <= 0, 1e-4, V[i, j] * B.cell(unc, (i, j)))))
    B.forall("uncertainties are positive", (m, n), lambda i, j: U[i, j] > 0)
    B.same("the contributions are not modified", W, wsnap)
    B.same("the profiles are not modified", H, hsnap)


def contract_profiles(B):
    n, k = B.dim("n", chi=5), B.dim("k", chi=4)
    P = B.arr("P", (k, n), lo=-1)
    p0 = B.snap(P)
    s = B.obj(SIM, {"features_n": n, "factors_n": k, "verbose": False, "syn_profiles": None})
    B.method(s, "generate_profiles", P)
    r = B.get(s, "syn_profiles")
    B.has_shape("supplied profiles keep their shape", r, (k, n))
    B.forall("supplied profiles are used as given, without zeros", (k, n), lambda q, j: B.eq(r[q, j], B.If(B.cell(p0, (q, j)) <= 0, 1e-12,
                                                                                                       B.cell(p0, (q, j)))))
    B.same("the matrix supplied is not modified", P, p0)


def contract_curves(B):
    """rising and falling curves, any outcome of the draws"""
    m, k = B.dim("m", lo=2, chi=7), B.dim("k", chi=4)
    W = B.arr("W", (m, k), lo=0)
    w0 = B.snap(W)
    f = B.index("factor", k)
    kind = B.choice("kind", ["increasing", "decreasing"])
    lo, hi, sc = B.real("min", lo=0, clo=0, chi=2), B.real("max", lo=0, clo=0, chi=5), B.real("scale", lo=0, clo=0, chi=0.3)
    B.assume(B.Not(B.eq(lo, hi)))
    z = B.arr("z", (m,))
    s = B.obj(SIM, {"samples_n": m, "factors_n": k, "verbose": False, "syn_contributions": W, "rng": B.ns({"normal": B.builtin(
        lambda loc, scale, size: B.lam((m,), lambda i: loc[i] + scale * z[i]))})})
    B.method(s, "update_contribution", f, kind, scale=sc, maximum=hi, minimum=lo)
    r = B.get(s, "syn_contributions")
    a, b = B.min2(lo, hi), B.max2(lo, hi)

    def want(i):
        t = B.div(i, m - 1) * (b - a)
        x = (a + t if kind == "increasing" else b - t) + sc * z[i]
        return B.If(x <= 0, 1e-12, x)
    B.forall("the contribution is the line with the drawn deviations", (m,), lambda i: B.eq(B.cell(r, (i, f)), want(i), tol=1e-9, atol=1e-9))
    B.forall("other contributions stay", (m, k), lambda i, q: B.Implies(B.Not(B.eq(q, f)), B.eq(r[i, q], B.cell(w0, (i, q)))))


def contract_simulator(B):
    """bounded: simulators as they are used"""
    import numpy as np
    m, n, k = B.dim("m", lo=5, chi=60), B.dim("n", lo=2, chi=6), B.int("k", 1, None, 1, 4)
    seed = B.int("seed", 0, None, 0, 10 ** 6)
    conf = dict(outliers=B.bool("outliers"), outlier_p=0.1, outlier_mag=B.choice("mag", [1.25, 2.0]), contribution_max=B.choice("cmax", [1, 10]),
                noise_mean_min=0.03, noise_mean_max=0.05, noise_scale=0.005, uncertainty_mean_min=0.04, uncertainty_mean_max=0.06,
                uncertainty_scale=0.002, verbose=False)
    new = lambda sd: B.call(SIM, sd, k, n, m, **conf)
    s, t = new(seed), new(seed)
    r = np.random.default_rng(seed)
    B.ensure("profiles are between 0 and 1", s.syn_profiles.shape == (k, n) and (s.syn_profiles > 0).all() and (s.syn_profiles < 1).all())
    B.ensure("every feature is in some profile", (s.syn_profiles > 1e-9).any(axis=0).all())
    B.ensure("contributions are up to the configured maximum", s.syn_contributions.shape == (m, k) and (s.syn_contributions >= 0).all() and
             (s.syn_contributions <= conf["contribution_max"]).all() and s.syn_contributions.max() > 0.2 * conf["contribution_max"])
    if B.bool("custom"):
        P = r.uniform(-0.2, 1, (k, n)) if B.bool("reals") else r.integers(0, 4, (k, n))
        P0 = P.copy()
        for x in (s, t):
            B.method(x, "generate_profiles", P)
        B.ensure("supplied profiles are used as given", np.array_equal(s.syn_profiles, np.where(P0 <= 0, 1e-12, P0)))
        B.ensure("the profiles supplied are not modified", np.array_equal(P, P0))
    w0 = s.syn_contributions.copy()
    kind = B.choice("kind", [None, "uniform", "increasing", "decreasing", "logistic", "periodic"])
    f, lo, hi = B.int("f", 0, None, 0, 3) % k, B.choice("lo", [0.1, 2.0, 0.0]), B.choice("hi", [1.0, 4.0, 0.5])
    freq = B.choice("freq", [0.1, 0.5, 0.02, 1.0, 2.0])
    if kind:
        for x in (s, t):
            B.method(x, "update_contribution", f, kind, scale=0.001, maximum=hi, minimum=lo, frequency=freq)
        y = s.syn_contributions[:, f]
        B.ensure("the curve is within its limits", (y >= min(lo, hi) - 0.01).all() and (y <= max(lo, hi) + 0.01).all() and (y > 0).all())
        B.ensure("other contributions stay", all(np.array_equal(s.syn_contributions[:, q], w0[:, q]) for q in range(k) if q != f))
    W, H = s.syn_contributions.copy(), s.syn_profiles.copy()
    V, U = B.method(s, "get_data")
    V2, U2 = B.method(t, "get_data")
    B.ensure("the same seed gives the same data", np.array_equal(V.to_numpy(), V2.to_numpy()) and np.array_equal(U.to_numpy(), U2.to_numpy()))
    v, u = V.to_numpy(), U.to_numpy()
    B.ensure("there is one row per sample and one column per feature", v.shape == (m, n) == u.shape and list(V.columns) == list(U.columns) and
             V.index.equals(U.index) and len(set(V.index)) == m)
    q = v / (W @ H)
    near = lambda x: np.abs(np.abs(q / x - 1) - 0.04) <= 0.05
    hit = near(1)
    if conf["outliers"]:
        mg = conf["outlier_mag"]
        hit = hit | near(mg) | near(1 / mg)
        share = (~near(1)).mean()
        B.ensure("the configured share of the cells are outliers", abs(share - 0.1) <= 5 * np.sqrt(0.1 * 0.9 / (m * n)))
    B.ensure("data are the product with the configured noise and outliers", hit.all())
    B.ensure("uncertainties are the configured share of the data", (np.abs(u / v - 0.05) <= 0.03).all())
    B.ensure("tables of the truth are the truth", np.array_equal(s.syn_profiles_df.to_numpy(), H.T) and np.array_equal(s.syn_contributions_df.to_numpy(), W))
    sa = s.syn_sa
    B.ensure("the synthetic solution is the truth", np.array_equal(sa.H, H) and np.array_equal(sa.W, W) and np.allclose(sa.WH, W @ H))
    vv, uu = np.asarray(sa.V, float), np.asarray(sa.U, float)
    e = (vv - W @ H) / uu
    B.ensure("its loss is that of the truth", abs(sa.Qtrue - (e ** 2).sum()) <= 1e-4 * (1 + (e ** 2).sum()))
    a = np.abs(e)
    qr = np.where(a > 4, 4 * a, e ** 2).sum()
    got, err = B.try_call("esat.metrics:qr_loss", V=sa.V, U=sa.U, W=sa.W, H=sa.H)
    B.ensure("its robust loss is a number, the loss of the truth", err is None and np.isscalar(sa.Qrobust) and abs(sa.Qrobust - got[0]) <= 1e-4 * (1 + abs(got[0])))


contract_simulator.opts = {"prove": False, "cases": 3}
CONTRACTS = ["contract_data", "contract_profiles", "contract_curves", "contract_simulator"]
ASSUMES = ["random draws are arbitrary numbers in their documented ranges"]

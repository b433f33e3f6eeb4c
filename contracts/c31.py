"""C31: factor correlation, swap detection, lag matrix, block length, memory estimate and time step match their definitions.

Correlation, swap detection, lag matrix, kernel weights and memory estimate are proved; the automatic block length and the
time step (timedelta arithmetic of pandas) are bounded stand-ins on the real code."""
U = "esat.utils:"
R = "esat.model.recombinator:"


def contract_correlation(B):
    n = B.dim("n", lo=2, chi=8)
    a, b = B.arr("a", (n,)), B.arr("b", (n,))
    c = B.corr(n, lambda i: a[i], lambda i: b[i])
    if not B.symbolic:
        B.assume(c == c)
    B.ensure("squared Pearson correlation", B.eq(B.call(U + "calculate_factor_correlation", a, b), c * c, atol=1e-6))


def contract_swap(B):
    k, n = B.dim("k", chi=4), B.dim("n", lo=2, chi=5)
    h1, h2 = B.arr("h1", (k, n)), B.arr("h2", (k, n))
    same = B.bool("same") if not B.symbolic else False
    if same:
        h2 = h1 + B.arr("noise", (k, n)) * 0.01
    o1, o2 = B.snap(h1), B.snap(h2)

    def r2(i, j):
        c = B.corr(n, lambda x: o1[i, x], lambda x: o2[j, x])
        return c * c
    if not B.symbolic:
        R2 = [[r2(i, j) for j in range(k)] for i in range(k)]
        B.assume(all(x == x for q in R2 for x in q))
        B.assume(all(i == j or abs(R2[i][i] - R2[i][j]) > 1e-9 for i in range(k) for j in range(k)))
    s = B.call(U + "compare_all_factors", h1, h2)
    B.ensure("a swap is reported exactly when some factor correlates better with another row than with its own", B.iff(
        s, B.ANY(k, lambda i: B.ANY(k, lambda j: r2(i, j) > r2(i, i)))))
    B.same("the first matrix is not modified", h1, o1)
    B.same("the second matrix is not modified", h2, o2)


def contract_memory(B):
    n, m, f = B.int("features", lo=1, clo=1, chi=400), B.int("samples", lo=1, clo=1, chi=90000), B.int("factors", lo=1, clo=1, chi=20)
    av = B.int("available", lo=0, clo=0, chi=2 ** 33)
    cores = B.int("cores", lo=1, clo=1, chi=64)
    vm = B.ns({"available": av})
    if B.symbolic:
        B.lib_override("psutil", "virtual_memory", B.builtin(lambda: vm))
    else:
        B.patch("psutil:virtual_memory", lambda: vm)
    r = B.call(U + "memory_estimate", n, m, f, cores=cores)
    need = 32 * (3 * n * m + n * f + m * f) + 150 * 1024 ** 2
    B.ensure("bytes per model: three data sized and two factor sized arrays of 32 bytes plus 150 MB", B.eq(B.item(r, "max_bytes"), need))
    mc = B.item(r, "max_cores")
    B.ensure("no more models at once than cores", mc <= cores)
    B.ensure("no more models at once than fit into memory", mc * need <= av)
    B.ensure("as many as both allow", B.Or(B.eq(mc, cores), (mc + 1) * need > av))
    B.ensure("available memory in GB", B.eq(B.item(r, "available_memory_bytes") * 1024 ** 3, av, atol=1))


def contract_mlag(B):
    m, q = B.dim("m", chi=7), B.dim("q", chi=5)
    x = B.arr("x", (m, 1))
    x0 = B.snap(x)
    r = B.call(R + "mlag", x, q)
    B.has_shape("one column per lag", r, (m, q))
    B.forall("column j holds the values j+1 rows earlier", (m, q), lambda i, j: B.eq(
        r[i, j], B.If(i > j, B.cell(x0, (B.max2(i - j - 1, 0), 0)), 0)))
    B.same("the series is not modified", x, x0)


def contract_lam(B):
    m = B.dim("m")
    x = B.arr("x", (m, 1), lo=-2, hi=2)
    r = B.call(R + "lam", x)
    a = lambda i: B.abs(x[i, 0])
    B.forall("flat-top kernel", (m,), lambda i: B.eq(r[i, 0], B.If(a(i) < 0.5, 1, B.If(a(i) <= 1, 2 * (1 - a(i)), 0))))


def block_length(x):
    """Politis and White (2004) with the correction of 2009, written with plain loops"""
    import math
    import numpy as np
    n = len(x)
    kn = int(max(5, math.sqrt(math.log10(n))))
    mmax = int(math.ceil(math.sqrt(n)) + kn)
    bmax = math.ceil(min(3 * math.sqrt(n), n / 3))
    crit = 2 * math.sqrt(math.log10(n) / n)
    t = x[mmax:]
    rho = [np.corrcoef(t, x[mmax - j:n - j])[0, 1] for j in range(1, mmax + 1)]
    ok = [abs(v) < crit for v in rho]
    mhat = None
    for s in range(0, mmax - kn + 1):           # lags s+1 .. s+kn all insignificant
        if all(ok[s:s + kn]):
            mhat = s + 1
            break
    if mhat is None:
        mhat = max([q for q in range(mmax) if not ok[q]])
    M = mmax if 2 * mhat > mmax else 2 * mhat
    if M <= 0:
        return 1.0, 1.0
    y = x[M:]
    gam = [np.cov(y, x[M - j:n - j])[0, 1] for j in range(0, M + 1)]
    w = lambda v: 1.0 if abs(v) < 0.5 else (2 * (1 - abs(v)) if abs(v) <= 1 else 0.0)
    g = sum(w(j / M) * abs(j) * gam[abs(j)] for j in range(-M, M + 1))
    s0 = sum(w(j / M) * gam[abs(j)] for j in range(-M, M + 1))
    sb = (2 * g * g / (2 * s0 * s0)) ** (1 / 3) * n ** (1 / 3)
    cb = (2 * g * g / (4 / 3 * s0 * s0)) ** (1 / 3) * n ** (1 / 3)
    return min(sb, bmax), min(cb, bmax)


def contract_block_length(B):
    """bounded: against the published estimator written with plain loops"""
    import numpy as np
    n = B.int("n", lo=40, clo=40, chi=140)
    r = np.random.default_rng(B.int("seed", 0, None, 0, 10 ** 6))
    k = B.dim("k", chi=3)
    cols = []
    for _ in range(k):
        phi = r.choice([0.0, 0.3, 0.8, 0.97])
        e = r.standard_normal(n)
        x = np.zeros(n)
        for q in range(1, n):
            x[q] = phi * x[q - 1] + e[q]
        cols.append(x + 5)
    data = np.array(cols).T
    d0 = data.copy()
    try:
        ref = [block_length(c) for c in cols]
    except ValueError:
        B.end()
    out = B.call(R + "optimal_block_length", data)
    B.ensure("one result per column", len(out) == k)
    for o, (sb, cb) in zip(out, ref):
        B.ensure("block length of the stationary bootstrap", abs(o.b_star_sb - sb) <= 1e-6 * max(1, sb))
        B.ensure("block length of the circular bootstrap", abs(o.b_star_cb - cb) <= 1e-6 * max(1, cb))
    B.same("the data are not modified", data, d0)


def contract_timestep(B):
    """bounded: smallest time step between consecutive rows, as a resampling rule"""
    import pandas as pd
    unit = B.choice("unit", ["D", "h", "min", "s"])
    sec = {"D": 86400, "h": 3600, "min": 60, "s": 1}[unit]
    top = {"D": 40, "h": 23, "min": 59, "s": 59}[unit]
    steps = [B.int(f"d{q}", 1, None, 1, top) for q in range(B.int("rows", 1, None, 1, 6))]
    t, idx = pd.Timestamp("2020-01-01"), []
    for d in [0] + steps:
        t = t + pd.Timedelta(seconds=d * sec)
        idx.append(t)
    df = pd.DataFrame({"a": range(len(idx))}, index=pd.DatetimeIndex(idx))
    r = B.call(U + "min_timestep", df)
    B.ensure("a resampling rule is returned", isinstance(r, str))
    B.ensure("it is the smallest step between consecutive rows", pd.Timedelta(pd.tseries.frequencies.to_offset(r)) == pd.Timedelta(seconds=min(steps) * sec))


contract_block_length.opts = {"prove": False}
contract_timestep.opts = {"prove": False}
CONTRACTS = ["contract_correlation", "contract_swap", "contract_memory", "contract_mlag", "contract_lam",
             "contract_block_length", "contract_timestep"]
ASSUMES = ["correlations are defined (no constant rows)", "lag matrix of one series, the only use in the code base"]

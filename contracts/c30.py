"""C30: per-feature statistics are computed from that feature's own observed and modelled values and match their definitions.

The feature metrics (means, variances, RMSE) are proved for every model; the regression and normality statistics, the residuals above
a threshold and the factor fingerprints (scipy, pandas) are bounded stand-ins on the real code."""
MA = "esat.data.analysis:ModelAnalysis"


def contract_metrics(B):
    m, n = B.dim("m", lo=2, chi=9), B.dim("n", lo=1, chi=5)
    V, E, O = B.arr("V", (m, n), lo=0), B.arr("E", (m, n), lo=0), B.arr("O", (m, n), lo=0)
    given = B.case(B.bool("other estimate given"))
    names = B.list("names", n, lambda j: j)
    snaps = [B.snap(x) for x in (V, E, O)]
    seen = {}

    def frame(data=None, **kw):
        seen["data"] = data
        return B.opaque("frame")
    B.lib_override("pandas", "DataFrame", B.builtin(frame, "DataFrame"))
    c = B.obj(MA, {"model": B.ns({"V": V, "WH": E}), "dh": B.ns({"features": names}), "residual_metrics": None})
    r = B.method(c, "features_metrics", O) if given else B.method(c, "features_metrics")
    X = O if given else E
    d = seen["data"] if B.symbolic else r
    mean = lambda A: lambda j: B.div(B.SUM(m, lambda i: A[i, j]), m)

    def var(A):
        mu = mean(A)
        return lambda j: B.div(B.SUM(m, lambda i: (A[i, j] - mu(j)) * (A[i, j] - mu(j))), m)
    rmse = lambda j: B.sqrt(B.div(B.SUM(m, lambda i: (V[i, j] - X[i, j]) * (V[i, j] - X[i, j])), m))
    close = lambda a, b: B.eq(a, B.round(b, 4)) if B.symbolic else abs(float(a) - float(b)) <= 1.0001e-4
    for col, f in (("Input Mean", mean(V)), ("Input Var", var(V)), ("Est Mean", mean(X)), ("Est Var", var(X)), ("RMSE", rmse)):
        x = B.item(d, col)
        B.ensure(f"{col} has one value per feature", B.eq(B.length(x), n))
        B.forall(f"{col} is that of the feature", (n,), lambda j: close(B.item(x, j), f(j)))
    fs = B.item(d, "Feature")
    B.forall("values are listed under their feature", (n,), lambda j: B.eq(B.item(fs, j), j))
    for nm, x, o in zip(("data", "model", "estimate"), (V, E, O), snaps):
        B.same(f"the {nm} are not modified", x, o)


def analysed(B, np, pd):
    """a data handler with bad and weak features, rows that are left out, and a model of it"""
    m, n = B.dim("m", lo=8, chi=14), B.dim("n", lo=3, chi=6)
    r = np.random.default_rng(B.int("seed0", 0, None, 0, 10 ** 6))
    V = np.round(r.uniform(0.1, 9, (m, n)), 3)
    U = np.round(r.uniform(0.05, 2, (m, n)), 3)
    if B.bool("missing"):
        V[r.integers(0, m), r.integers(0, n)] = np.nan
    if B.bool("zeros"):
        V[r.integers(0, m), r.integers(0, n)] = 0
    names = [f"f{j}" for j in range(n)]
    ix = pd.Index(pd.date_range("2020-01-01", periods=m, freq="D").strftime("%Y-%m-%d"), name="Date")
    dh = B.call("esat.data.datahandler:DataHandler.load_dataframe", pd.DataFrame(V, columns=names, index=ix), pd.DataFrame(U, columns=names, index=ix))
    for j, c in enumerate(names):
        cat = B.choice(f"cat{j}", ["strong", "strong", "weak", "bad"])
        if cat == "bad" and j < 2:
            cat = "weak"
        B.method(dh, "set_category", c, cat)
    v, u = B.method(dh, "get_data")
    sa = B.call("esat.model.sa:SA", v, u, 2, seed=B.int("seed", 0, None, 0, 999), verbose=False)
    B.method(sa, "initialize")
    B.method(sa, "train", max_iter=20, converge_delta=0.01, converge_n=5)
    return dh, sa, v, u


def contract_statistics(B):
    import numpy as np
    import pandas as pd
    from scipy import stats
    dh, sa, v, u = analysed(B, np, pd)
    other = B.bool("other estimate given")
    X = np.array(sa.WH, float)
    if other:
        X = X * np.random.default_rng(1).uniform(0.5, 1.5, X.shape)
    c = B.call(MA, dh, sa, 0)
    before = [np.array(a, float) for a in (sa.WH, sa.V, sa.U)]
    B.method(c, "calculate_statistics", X) if other else B.method(c, "calculate_statistics")
    s = c.statistics
    B.ensure("one row per feature of the model", list(s["Features"]) == list(dh.features) and len(s) == v.shape[1])
    V = dh.input_data_df.to_numpy(float)
    for j, f in enumerate(dh.features):
        q = s.iloc[j]
        B.ensure("with its category", q["Category"] == dh.metrics["Category"].loc[f])
        o, p = V[:, j], X[:, j]
        near = lambda a, b: bool(np.isclose(float(a), float(b), rtol=1e-3, atol=1e-6))
        sxx, sxy = ((o - o.mean()) ** 2).sum(), ((o - o.mean()) * (p - p.mean())).sum()
        slope = sxy / sxx
        icpt = p.mean() - slope * o.mean()
        r2 = np.corrcoef(o, p)[0, 1] ** 2
        B.ensure("r2 is that of observed and modelled values", near(q["r2"], r2))
        B.ensure("slope and intercept are those of the regression", near(q["Slope"], slope) and near(q["Intercept"], icpt))
        res = p - icpt - slope * o
        se = np.sqrt((res ** 2).sum() / (len(o) - 2) / sxx)
        B.ensure("with their standard errors", near(q["Slope SE"], se) and near(q["Intercept SE"], se * np.sqrt((o ** 2).mean())))
        d = o - p
        B.ensure("the standard error is that of the residuals", near(q["SE"], d.std() / np.sqrt(len(d))) or near(q["SE"], d.std(ddof=1) / np.sqrt(len(d))))
        B.ensure("the regression error is that of the regression", near(q["SE Regression"], np.sqrt(max(0, 1 - r2)) * p.std()))
        z = d / np.array(sa.U, float)[:, j]
        sh = stats.shapiro(z).pvalue
        B.ensure("normality is tested on the residuals over the model's uncertainty", near(q["Shapiro PValue"], sh))
        ks = stats.ks_1samp(z, stats.norm(z.mean(), z.std(ddof=1)).cdf)
        B.ensure("and their distance from the fitted normal distribution", near(q["KS Statistic"], ks.statistic) and near(q["KS PValue"], ks.pvalue))
        B.ensure("residuals are called normal at five percent", q["Shapiro Normal Residuals"] == ("Yes" if sh >= 0.05 else "No") and
                 q["KS Normal Residuals"] == ("Yes" if ks.pvalue >= 0.05 else "No") or min(abs(sh - 0.05), abs(ks.pvalue - 0.05)) < 1e-4)
        an = stats.anderson(z, dist="norm")
        B.ensure("the Anderson statistic is that of the scaled residuals", near(q["Anderson Statistic"], an.statistic))
        lv = [str(l) for l, cv in zip(an.significance_level, an.critical_values) if an.statistic < cv]
        B.ensure("normal at the highest level not rejected", str(q["Anderson Normal Residual"]) == (lv[0] if lv else "No"))
    B.ensure("the model is not modified", all(np.array_equal(np.array(a, float), b) for a, b in zip((sa.WH, sa.V, sa.U), before)))


def contract_residuals(B):
    import numpy as np
    import pandas as pd
    dh, sa, v, u = analysed(B, np, pd)
    c = B.call(MA, dh, sa, 0)
    j = B.int("feature", 0, None, 0, v.shape[1] - 1)
    t = B.choice("threshold", [0.1, 0.5, 3.0, -1])
    by = {"feature_idx": j} if B.bool("by index") else {"feature_name": dh.features[j]}
    fig, df = B.method(c, "plot_residual_histogram", abs_threshold=t, show=False, **by)
    z = (np.array(sa.V, float)[:, j] - np.array(sa.WH, float)[:, j]) / np.array(sa.U, float)[:, j]
    keep = np.abs(z) > t
    B.assume(not (np.abs(np.abs(z) - t) < 1e-5).any())
    B.ensure("exactly the residuals above the threshold are listed", len(df) == keep.sum() and np.allclose(df.iloc[:, 0].to_numpy(float), z[keep], rtol=1e-3, atol=1e-6))
    B.ensure("under their own sample and feature", list(df.index) == list(np.array(dh.input_data_df.index)[keep]) and list(df.columns) == [dh.features[j]])
    fig = B.method(c, "plot_factor_fingerprints", show=False)
    H = np.array(sa.H, float)
    for tr in fig.data:
        f = int(str(tr.name).split()[-1]) - 1
        B.ensure("fingerprints are each factor's share of the features", np.allclose(np.array(tr.y, float), 100 * H[f] / H.sum(axis=0), rtol=1e-5) and
                 list(tr.x) == list(dh.features))
    B.ensure("every factor has its fingerprint", len(fig.data) == sa.factors)


contract_statistics.opts = {"prove": False}
contract_residuals.opts = {"prove": False}
CONTRACTS = ["contract_metrics", "contract_statistics", "contract_residuals"]
ASSUMES = ["definitions of the normality tests are scipy's"]

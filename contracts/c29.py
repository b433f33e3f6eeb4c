"""C29: a model written to disk and read back is the same model; exported tables hold its own matrices under their own names.

The round trips through real files, of single models and of
batches, are bounded stand-ins on the real code."""
SA = "esat.model.sa:SA"
BS = "esat.model.batch_sa:BatchSA"


def trained(B, np, seed=None):
    m, n, k = B.dim("m", lo=5, chi=9), B.dim("n", lo=3, chi=6), B.int("k", 1, None, 1, 3)
    r = np.random.default_rng(B.int("seed0", 0, None, 0, 10 ** 6))
    V = r.uniform(0, 3, (m, n)) * 10.0 ** B.int("scale", None, None, -4, 4)
    U = 0.1 * V + 0.01 * V.mean()
    method = B.choice("method", ["ls-nmf", "ws-nmf"])
    x = B.call(SA, V, U, k, method=method, seed=B.int("seed", 0, None, 0, 10 ** 6), verbose=False)
    B.method(x, "initialize")
    B.method(x, "train", max_iter=B.int("it", 1, None, 1, 25), converge_delta=0.05, converge_n=4)
    B.assume(bool(np.isfinite(x.W).all() and np.isfinite(x.H).all() and np.isfinite(x.WH).all()))   # training may run out of numbers
    return x


def table(np, path):
    """the numbers of a written table, the line above them and the lines before"""
    rows, top = [], []
    for l in open(path).read().split("\n"):
        try:
            rows.append([float(c) for c in l.split(",")])
        except ValueError:
            if not rows:
                top.append(l)
    return (top[-1] if top else ""), np.array(rows), top


def same_model(B, np, x, y, what):
    B.ensure(f"{what}: same factors and reconstruction", all(np.array_equal(getattr(x, a), getattr(y, a)) for a in ("W", "H", "WH")))
    B.ensure(f"{what}: same data", all(np.array_equal(getattr(x, a), getattr(y, a)) for a in ("V", "U", "We")))
    B.ensure(f"{what}: same losses", x.Qtrue == y.Qtrue and x.Qrobust == y.Qrobust and list(x.q_list) == list(y.q_list))
    B.ensure(f"{what}: same settings", all(getattr(x, a) == getattr(y, a) for a in ("factors", "method", "seed", "converged", "converge_steps"))
             and x.metadata == y.metadata)
    import copy
    a, b = copy.deepcopy(x), copy.deepcopy(y)
    for z in (a, b):
        B.method(z, "train", max_iter=4, converge_delta=0.0, converge_n=2)
    B.ensure(f"{what}: training goes on alike", np.array_equal(a.WH, b.WH) and a.Qtrue == b.Qtrue)


def contract_files(B):
    import numpy as np
    import json
    import os
    x = trained(B, np)
    d = B.tmpdir()
    names = [f"f {j}" for j in range(x.n)]
    header = names if B.bool("header") else None
    before = [a.copy() for a in (x.V, x.U, x.W, x.H, x.WH)]
    r = B.method(x, "save", "abc", d, pickle_model=False, header=header)
    B.ensure("saving returns the directory", str(r) == d)
    B.ensure("the files are those of the model", sorted(os.listdir(d)) == [
        "abc-contribution.csv", "abc-metadata.json", "abc-profile.csv", "abc-residuals.csv", "abc-vprime.csv"])
    for f, M, hd, title in (("profile", x.H, header, "Profile"), ("contribution", x.W, header and [f"Factor {i + 1}" for i in range(x.factors)], "Contribution"),
                            ("vprime", x.WH, header, "Estimated"), ("residuals", x.V - x.WH, header, "Residual")):
        h, T, top = table(np, os.path.join(d, f"abc-{f}.csv"))
        B.ensure(f"the {f} table holds the model's own values", T.shape == M.shape and np.allclose(T, M, rtol=1e-12, atol=0))
        if hd:
            B.ensure(f"the {f} table says what it is", title in top[0])
            B.ensure(f"the {f} table has the names given", h == ",".join(hd))
    meta = json.load(open(os.path.join(d, "abc-metadata.json")))
    B.ensure("the metadata are those of the model", set(meta) == set(x.metadata) and all(
        np.isclose(float(meta[k]), float(v)) if isinstance(v, (int, float, np.number)) and not isinstance(v, bool) else str(meta[k]) == str(v)
        for k, v in x.metadata.items()))
    B.ensure("saving does not modify the model", all(np.array_equal(a, b) for a, b in zip(before, (x.V, x.U, x.W, x.H, x.WH))))


def contract_pickle(B):
    import numpy as np
    import os
    x = trained(B, np)
    d = B.tmpdir()
    p = B.method(x, "save", "abc", d, pickle_model=True)
    B.ensure("saving returns the file", str(p) == os.path.join(d, "abc.pkl") and os.path.isfile(p))
    y = B.call(SA + ".load", p)
    same_model(B, np, x, y, "read back")
    B.ensure("a missing file gives nothing", B.call(SA + ".load", os.path.join(d, "other.pkl")) is None)
    B.ensure("a missing directory gives nothing", B.method(x, "save", "abc", os.path.join(d, "no"), pickle_model=True) is None)
    B.ensure("a relative path gives nothing", B.method(x, "save", "abc", "relative", pickle_model=True) is None and
             B.call(SA + ".load", "abc.pkl") is None)


def contract_batch(B):
    import numpy as np
    import os
    xs = []
    q = B.int("models", 1, None, 1, 3)
    first = trained(B, np)
    for i in range(q):
        y = B.call(SA, first.V, first.U, first.factors, method=first.method, seed=100 + i, verbose=False)
        B.method(y, "initialize")
        B.method(y, "train", max_iter=6, converge_delta=0.05, converge_n=4)
        xs.append(y)
    b = B.call(BS, first.V, first.U, first.factors, models=q, method=first.method, seed=first.seed, verbose=False, cores=1)
    gap = B.bool("a model without result")
    b.results, b.best_model = ([None] if gap else []) + xs, q - 1
    d = B.tmpdir()
    p = B.method(b, "save", "all", d, pickle_batch=True)
    c = B.call(BS + ".load", p)
    B.ensure("the batch has the same models", len(c.results) == len(b.results) and c.best_model == b.best_model)
    B.ensure("the same settings", all(getattr(c, a) == getattr(b, a) for a in (
        "factors", "method", "models", "max_iter", "converge_delta", "converge_n", "seed", "init_method", "init_norm", "hold_h", "delay_h", "best_robust")))
    B.ensure("the same data", np.array_equal(c.V, b.V) and np.array_equal(c.U, b.U))
    for x, y in zip(b.results, c.results):
        if x is None:
            B.ensure("a model without result stays one", y is None)
        else:
            same_model(B, np, x, y, "batch")
    one = B.bool("pickled models")
    B.method(b, "save", "each", d, pickle_batch=False, pickle_model=one)
    for i, x in enumerate(b.results):
        if x is None:
            continue
        if one:
            same_model(B, np, x, B.call(SA + ".load", os.path.join(d, f"each-model-{i}.pkl")), "each model")
        else:
            _, T, _ = table(np, os.path.join(d, f"each-model-{i}-profile.csv"))
            B.ensure("every model is written under its own number", np.allclose(T, x.H, rtol=1e-12, atol=0))


for f in (contract_files, contract_pickle, contract_batch):
    f.opts = {"prove": False}
CONTRACTS = ["contract_files", "contract_pickle", "contract_batch"]
ASSUMES = ["pickle reproduces plain Python and numpy objects (sampled)"]


def contract_bootstrap(B):
    import numpy as np
    import pandas as pd
    import json
    import os
    x = trained(B, np)
    B.assume(x.factors > 1)
    b = B.call("esat.error.bootstrap:Bootstrap", x, feature_labels=[f"f{j}" for j in range(x.n)], bootstrap_n=B.int("runs", 1, None, 1, 3),
               block_size=B.int("block", 1, None, 1, 3), threshold=B.choice("t", [0.0, 0.6]), parallel=False, cpus=1, seed=B.int("bs seed", 0, None, 0, 999))
    B.method(b, "run")
    d = B.tmpdir()
    p = B.method(b, "save", "bs", d, pickle_result=True)
    B.ensure("saving returns the file", p is not None and os.path.isfile(str(p)))
    c = B.call("esat.error.bootstrap:Bootstrap.load", p)
    B.ensure("the bootstrap read back has the same results", sorted(c.bs_results) == sorted(b.bs_results) and all(
        np.array_equal(c.bs_results[i]["model"].WH, b.bs_results[i]["model"].WH) for i in b.bs_results))
    B.ensure("the same tables", c.mapping_df.equals(b.mapping_df) and c.q_results.equals(b.q_results))
    B.ensure("the same base model", np.array_equal(c.base_H, b.base_H) and np.array_equal(c.base_W, b.base_W))


contract_bootstrap.opts = {"prove": False, "cases": 0.3}
CONTRACTS.append("contract_bootstrap")


def contract_constrained(B):
    """bounded: constrained models"""
    import numpy as np
    import json
    import os
    from .c16 import TYPES
    CM = "esat.rotational.constrained:ConstrainedModel"
    x = trained(B, np)
    B.assume(x.factors > 1 and bool(np.isfinite(x.W).all() and np.isfinite(x.H).all()))
    names = [f"feature {j}" for j in range(x.n)]
    soft = B.choice("softness", [1.0, 0.5, 3.0])
    c = B.call(CM, x, B.ns({"features": names}), softness=soft)
    for q in range(B.int("count", 1, None, 1, 4)):
        t = B.r.choice(["feature", "sample"])
        ix = (B.r.randrange(x.factors), B.r.randrange(x.n)) if t == "feature" else (B.r.randrange(x.m), B.r.randrange(x.factors))
        a, b = sorted([B.r.randint(0, 40) / 8, B.r.randint(1, 40) / 8])
        B.method(c, "add_constraint", B.r.choice(["set to zero", "set base value", "set value"]), ix, t, target_value=a, min_value=a, max_value=b, dQ=b * 50)
    B.assume(len(c.constraints) > 0)
    B.method(c, "train", max_iterations=B.int("iters", 1, None, 1, 8), converge_delta=0.01, converge_n=3)
    o = c.constrained_model
    B.assume(bool(np.isfinite(o.W).all() and np.isfinite(o.H).all() and np.isfinite(o.Qtrue) and np.isfinite(o.Qrobust)))
    given = [q.tostring(label=lb) for lb, q in c.constraints.items()]
    d = B.tmpdir()
    B.method(c, "save", "abc", d, pickle_model=False)
    pre = "constrained_model-abc-"
    for f, M, hd in (("profile", o.H, names), ("contribution", o.W, [f"Factor {i + 1}" for i in range(o.factors)]),
                     ("vprime", o.WH, names), ("residuals", o.V - o.WH, names)):
        h, T, top = table(np, os.path.join(d, f"{pre}{f}.csv"))
        B.ensure(f"the {f} table holds the constrained model's own values", T.shape == M.shape and np.allclose(T, M, rtol=1e-6, atol=1e-12, equal_nan=True))
        B.ensure(f"the {f} table has the names of the data", h == ",".join(hd))
    meta = json.load(open(os.path.join(d, pre + "metadata.json")))
    B.ensure("constraints and softness are written", meta["constraints"] == given and meta["softness"] == soft)
    B.ensure("expressions are written", len(meta["expressions"]) == len(c.expressions))
    B.method(c, "save", "abc", d, pickle_model=True)
    p = os.path.join(d, "constrained_model-abc.pkl")
    B.ensure("the constrained model is pickled", os.path.isfile(p))
    y = B.call(CM + ".load", p)
    y = getattr(y, "constrained_model", y)
    B.ensure("the model read back is the constrained model", all(np.array_equal(np.asarray(getattr(o, a)), np.asarray(getattr(y, a)), equal_nan=True)
             for a in ("V", "U", "We", "W", "H", "WH")) and float(y.Qtrue) == float(o.Qtrue) and float(y.Qrobust) == float(o.Qrobust))
    B.ensure("with its settings", all(getattr(o, a) == getattr(y, a) for a in ("factors", "method", "seed")) and sorted(o.metadata) == sorted(y.metadata))
    B.ensure("a missing file gives nothing", B.call(CM + ".load", os.path.join(d, "no.pkl")) is None and B.call(CM + ".load", "abc.pkl") is None)
    B.ensure("saving to a missing directory writes nothing", B.method(c, "save", "abc", os.path.join(d, "no")) is None and not os.path.exists(os.path.join(d, "no")))


def contract_simulator(B):
    """bounded: simulators"""
    import numpy as np
    import pandas as pd
    import os
    SIM = "eval.simulator:Simulator"

    def same_index(a, b):       # numbers, names, or times (written with as many digits as they need)
        return len(a) == len(b) and (list(pd.to_datetime(a, format="ISO8601")) == list(b) if isinstance(b, pd.DatetimeIndex) else
                                     list(map(str, a)) == list(map(str, b)))
    m, n, k = B.dim("m", lo=5, chi=20), B.dim("n", lo=2, chi=5), B.int("k", 1, None, 1, 3)
    s = B.call(SIM, B.int("seed", 0, None, 0, 10 ** 6), k, n, m, outliers=B.bool("outliers"), verbose=False)
    B.method(s, "get_data")
    d = B.tmpdir()
    B.ensure("saving says it worked", B.method(s, "save", sim_name="abc", output_directory=d) is True)
    for f, df in (("data", s.syn_data_df), ("uncertainty", s.syn_uncertainty_df), ("profiles", s.syn_profiles_df), ("contributions", s.syn_contributions_df)):
        t = pd.read_csv(os.path.join(d, f"abc_{f}.csv"), index_col=0)
        B.ensure(f"the {f} file holds the {f}", list(map(str, t.columns)) == list(map(str, df.columns)) and same_index(t.index, df.index) and
                 np.allclose(t.to_numpy(float), df.to_numpy(float), rtol=1e-12, atol=0))
    y = B.call(SIM + ".load", os.path.join(d, "esat_simulator.pkl"))
    B.ensure("the simulator read back has the same truth and data", all(np.array_equal(getattr(s, a), getattr(y, a)) for a in (
        "syn_data", "syn_uncertainty", "syn_profiles", "syn_contributions")))
    B.ensure("the same settings", all(getattr(s, a) == getattr(y, a) for a in ("seed", "factors_n", "features_n", "samples_n", "outliers", "outlier_p",
             "outlier_mag", "noise_mean_min", "noise_mean_max", "noise_scale", "uncertainty_mean_min", "uncertainty_mean_max", "uncertainty_scale")))
    same = [B.method(z, "get_data") for z in (s, y)]
    B.ensure("data drawn from then on are the same", all(a.equals(b) for a, b in zip(*same)))
    B.ensure("missing or relative paths give nothing", B.method(s, "save", output_directory=os.path.join(d, "no")) is False and
             B.method(s, "save", output_directory="rel") is False and B.call(SIM + ".load", os.path.join(d, "no.pkl")) is None and B.call(SIM + ".load", "no.pkl") is None)


def contract_bsdisp(B):
    """bounded: displacement results of one model and of bootstrap models"""
    import numpy as np
    import pandas as pd
    import os
    x = trained(B, np)
    B.assume(x.factors > 1)
    labels = [f"f{j}" for j in range(x.n)]
    B.patch("esat.error.bs_disp:clear_screen", lambda *a, **kw: None)
    b = B.call("esat.error.bootstrap:Bootstrap", x, feature_labels=labels, bootstrap_n=2, block_size=2, parallel=False, seed=B.int("bs seed", 0, None, 0, 999))
    B.method(b, "run")
    BD = "esat.error.bs_disp:BSDISP"
    e = B.call(BD, x, labels, bootstrap=b, features=[0, x.n - 1])
    B.method(e, "run", parallel=False)
    d = B.tmpdir()
    p = B.method(e, "save", "bd", d, pickle_result=True)
    B.ensure("saving returns the file", str(p) == os.path.join(d, "bd.pkl") and os.path.isfile(p))
    y = B.call(BD + ".load", p)
    B.ensure("the same results", sorted(y.disp_results) == sorted(e.disp_results) and y.compiled_results.equals(e.compiled_results) and
             np.array_equal(y.swap_table, e.swap_table) and np.array_equal(y.count_table, e.count_table))
    B.ensure("the same runs", all(y.disp_results[q].compiled_results.equals(z.compiled_results) and np.array_equal(y.disp_results[q].H, z.H)
                                  for q, z in e.disp_results.items()))
    B.ensure("the same base model", all(np.array_equal(getattr(y.sa, a), getattr(x, a)) for a in ("V", "U", "W", "H", "WH")) and y.sa.Qtrue == x.Qtrue)
    B.ensure("missing or relative paths give nothing", B.call(BD + ".load", os.path.join(d, "no.pkl")) is None and B.call(BD + ".load", "bd.pkl") is None and
             B.method(e, "save", "bd", "rel") is None and B.method(e, "save", "bd", os.path.join(d, "no")) is None)
    B.method(e, "save", "bt", d, pickle_result=False)
    t = pd.read_csv(os.path.join(d, "bt-results.csv"))
    B.ensure("the exported table is the compiled one", list(t.columns) == list(e.compiled_results.columns) and all(
        np.allclose(t[c], e.compiled_results[c], equal_nan=True) if t[c].dtype.kind in "fi" else list(t[c]) == list(e.compiled_results[c]) for c in t))
    for q, z in e.disp_results.items():
        t = pd.read_csv(os.path.join(d, f"bt-{q}-results.csv"))
        B.ensure("every run has its own table", np.allclose(t["profile"], z.compiled_results["profile"], equal_nan=True) and
                 np.allclose(t["dQ"], z.compiled_results["dQ"]))


contract_constrained.opts = {"prove": False, "cases": 0.5}
contract_simulator.opts = {"prove": False, "cases": 0.5}
contract_bsdisp.opts = {"prove": False, "cases": 0.06}
CONTRACTS += ["contract_constrained", "contract_simulator", "contract_bsdisp"]

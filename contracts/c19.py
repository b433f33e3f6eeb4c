"""C19: the matrices handed to a model are the non-bad features in order, weak ones with three times their uncertainty.

Bounded: arbitrary tables (zeros, missing values, dropped and location columns) and sequences of category changes, on the real
pandas code."""
from .dhmodel import DH, tables


def contract_model_input(B):
    import numpy as np
    V, U = tables(B, lo=0.0)
    V0, U0 = V.copy(), U.copy()
    dh = B.call(DH + ".load_dataframe", V, U)
    full, fullu = dh.input_data.copy(), dh.uncertainty_data.copy()
    names = list(V.columns)
    cat = {c: "strong" for c in names}
    drop = [names[0]] if B.bool("drop") and len(names) > 2 else None
    loc = names[-1] if B.bool("loc") and len(names) > 2 else None
    B.set(dh, "drop_col", drop)
    B.set(dh, "loc_cols", [loc] if loc and B.bool("list") else loc)
    use = [c for c in names if not (drop and c in drop) and c != loc]
    for q in range(B.int("steps", 0, None, 0, 5)):
        f, c = B.choice(f"f{q}", use + ["no such feature", None]), B.choice(f"c{q}", ["strong", "weak", "bad", "Bad", "excellent"])
        r, err = B.try_method(dh, "set_category", f, c)
        ok = f in use and c in ("strong", "weak", "bad")
        B.ensure("changing the category of a feature of the data to a known category succeeds, anything else is refused",
                 err is None and bool(r) == ok)
        if ok:
            cat[f] = c
        if B.bool(f"get{q}"):
            B.assume(any(cat[x] != "bad" for x in use))
            B.method(dh, "get_data")
    B.ensure("the categories are those set last", all(dh.metrics.loc[c, "Category"] == cat[c] for c in names) and
             len(dh.metrics) == len(names))
    kept = [c for c in use if cat[c] != "bad"]
    B.assume(len(kept) > 0)
    got = B.method(dh, "get_data")
    if B.bool("twice"):
        got = B.method(dh, "get_data")
    v, u = got
    good = ~(full[kept].isna().any(axis=1) | fullu[kept].isna().any(axis=1)).to_numpy()
    wv, wu = full[kept].to_numpy()[good], fullu[kept].to_numpy()[good]
    B.assume(len(wv) > 0)
    B.ensure("the features are the non-bad ones in their original order", list(dh.features) == kept)
    B.ensure("one column per feature and one row per complete row", v.shape == wv.shape and u.shape == wu.shape)
    wu = wu * np.array([3.0 if cat[c] == "weak" else 1.0 for c in kept])
    B.ensure("the data are those loaded", np.allclose(v, wv, rtol=1e-6, atol=1e-30))
    B.ensure("weak features have three times their uncertainty, the others their own", np.allclose(u, wu, rtol=1e-6, atol=1e-30))
    B.ensure("no entry handed to a model is zero", (v != 0).all() and (u != 0).all())
    B.ensure("the data frames for the analysis have the same rows and features", list(dh.input_data_df.columns) == kept and
             list(dh.uncertainty_data_df.columns) == kept and list(dh.input_data_df.index) == list(full.index[good]) and
             list(dh.uncertainty_data_df.index) == list(full.index[good]))
    B.ensure("the loaded tables are not modified", dh.input_data.equals(full) and dh.uncertainty_data.equals(fullu) and
             V.equals(V0) and U.equals(U0))


contract_model_input.opts = {"prove": False, "cases": 5}
CONTRACTS = ["contract_model_input"]

"""C21: splitting by location gives every location exactly its rows; merging keeps every row once, labelled by its source.

Bounded: arbitrary location columns and lists of data sets on the real pandas code."""
from .dhmodel import DH, tables


def contract_split(B):
    import numpy as np
    two = B.bool("two")
    cols = ["latitude", "longitude"] if two else ["site"]
    V, U = tables(B, names=cols + ["a", "b", "c"][:B.int("features", 1, 3, 1, 3)], missing=B.bool("holes"), lo=0.01)
    r = np.random.default_rng(B.int("seed2", 0, None, 0, 10 ** 6))
    near = two and B.bool("near")
    codes = None if two else B.choice("codes", [None, 1, 10 ** 6, 10 ** 9, 1e-7, -40000])
    for q, c in enumerate(cols):
        base = r.integers(1, 3, len(V)) * 1.5 + q
        if codes is not None:
            base = codes + r.integers(0, 3, len(V)) * (codes if abs(codes) < 1 else 1)
        elif two and B.bool(f"close{q}"):
            base = -80 - q + r.integers(0, 3, len(V)) * 1e-4            # stations ten metres apart
        V[c] = base + (r.choice([0, 1e-7, -1e-7], len(V)) if near else 0)
        U[c] = V[c] * (1.0 if B.bool(f"same{q}") else 0.5)      # the uncertainty file need not repeat the locations
    if B.bool("shuffled"):
        o = r.permutation(len(cols) + 1)
        order = [list(V.columns)[q] for q in o] + list(V.columns)[len(cols) + 1:]
        V, U = V[order], U[order]
    V0, U0 = V.copy(), U.copy()
    dh = B.call(DH + ".load_dataframe", V, U)
    B.set(dh, "loc_cols", cols if two or B.bool("list") else cols[0])
    own = (lambda x: tuple(np.round(x, 5))) if two else (lambda x: tuple(float(y) for y in x))
    key = [own(x) for x in V[cols].to_numpy()]
    want = []
    for q in key:
        if q not in want:
            want.append(q)
    parts = B.method(dh, "split_locations")
    B.ensure("there is one data set per location", len(parts) == len(want))
    seen = []
    for p in parts:
        loc = own([p.metadata["location"][c] for c in cols])
        B.ensure("every data set is labelled with its own location", loc in want and loc not in seen)
        seen.append(loc)
        rows = [x for x, q in zip(V.index, key) if q == loc and not (V.loc[x].isna().all() or U.loc[x].isna().all())]
        B.ensure("its rows are exactly the rows of the location, in order", list(p.input_data.index) == rows)
        B.ensure("its data and uncertainties are those of its rows", p.input_data.equals(V0.loc[rows]) and
                 p.uncertainty_data.equals(U0.loc[rows]))
    B.ensure("the data set split is not modified", V.equals(V0) and U.equals(U0) and dh.input_data.equals(V0) and
             dh.uncertainty_data.equals(U0))


def contract_merge(B):
    import numpy as np
    names = ["a", "b", "c"][:B.int("features", 1, 3, 1, 3)]
    V, U = tables(B, names=names, missing=False, lo=0.01)
    dh = B.call(DH + ".load_dataframe", V, U)
    r = np.random.default_rng(B.int("seed2", 0, None, 0, 10 ** 6))
    k = B.int("others", 0, None, 0, 3)
    others, labels, tabs = [], [], []
    bad = False
    for q in range(k):
        m = int(r.integers(4, 9))
        import pandas as pd
        cols = list(names)
        if B.bool(f"mismatch{q}") and B.bool(f"really{q}"):
            cols = cols + ["z"] if B.bool(f"more{q}") else ["y"] + cols[1:]
            bad = True
        v, u = pd.DataFrame(r.uniform(0.1, 5, (m, len(cols))), columns=cols), pd.DataFrame(r.uniform(0.1, 1, (m, len(cols))), columns=cols)
        others.append(B.call(DH + ".load_dataframe", v.copy(), u.copy()))
        labels.append(f"station {q}")
        tabs.append((f"station {q}", v, u))
    if B.bool("labels"):
        labels = labels + ["one more"]
    ok = k > 0 and len(labels) == k and not bad
    V0, U0 = dh.input_data.copy(), dh.uncertainty_data.copy()
    r_ = B.method(dh, "merge", others, labels)
    B.ensure("data sets with the same features and one label each are merged, anything else is refused", bool(r_) == ok)
    if not ok:
        B.ensure("a refused merge changes nothing", dh.input_data.equals(V0) and dh.uncertainty_data.equals(U0))
        return
    tabs.append(("self", V0, U0))
    for what, got, q in (("data", dh.input_data, 1), ("uncertainty", dh.uncertainty_data, 2)):
        B.ensure(f"the merged {what} have every row once", len(got) == sum(len(t[1]) for t in tabs))
        for t in tabs:
            part = got[got["source_label"] == t[0]]
            B.ensure(f"the {what} of every source are under its own label in order", np.allclose(part[names].to_numpy(dtype=float),
                     t[q][names].to_numpy(dtype=float)) if len(part) == len(t[q]) else False)
    B.ensure("data and uncertainty rows stay aligned", list(dh.input_data["source_label"]) == list(dh.uncertainty_data["source_label"]))
    B.ensure("the features are those shared", list(dh.features) == names)
    got, err = B.try_method(dh, "get_data")
    B.ensure("the merged data can be handed to a model", err is None)
    B.ensure("a model gets every row of every source with its uncertainty", all(
        g.shape == (len(t), len(names)) and np.allclose(g, t[names].to_numpy(dtype=float), rtol=1e-6, atol=1e-30)
        for g, t in ((got[0], dh.input_data), (got[1], dh.uncertainty_data))))
    for h, t in zip(others, tabs):
        B.ensure("the data sets merged are not modified", h.input_data.equals(t[1]) and h.uncertainty_data.equals(t[2]))


contract_split.opts = {"prove": False, "cases": 3}
contract_merge.opts = {"prove": False, "cases": 3}
CONTRACTS = ["contract_split", "contract_merge"]

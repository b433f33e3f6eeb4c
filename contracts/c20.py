"""C20: loading drops rows without any value, keeps data and uncertainty aligned, and computes the metrics of the table kept.

Bounded: arbitrary tables with zeros and missing values, from data frames and from files (csv, tab separated, with and without an
index column), on the real pandas code."""
from .dhmodel import DH, tables


def check(B, dh, V, U):
    import numpy as np
    keep = ~(V.isna().all(axis=1) | U.isna().all(axis=1))
    B.ensure("rows without any value are dropped from both tables, all others kept in order",
             list(dh.input_data.index) == list(V.index[keep]) and list(dh.uncertainty_data.index) == list(V.index[keep]))
    v, u = V[keep], U[keep]
    B.ensure("the columns are those of the input", list(dh.input_data.columns) == list(V.columns) and
             list(dh.uncertainty_data.columns) == list(V.columns) and list(dh.features) == list(V.columns))
    B.ensure("the values are those of the input", np.allclose(dh.input_data, v, equal_nan=True) and
             np.allclose(dh.uncertainty_data, u, equal_nan=True))
    M = dh.metrics
    B.ensure("there is one row of metrics per feature, in order", list(M.index) == list(V.columns))
    B.ensure("every feature starts strong", all(M["Category"] == "strong"))
    for c in V.columns:
        x, s = v[c].to_numpy(dtype=float), u[c].to_numpy(dtype=float)
        p = np.sort(x[~np.isnan(x)])

        def quant(q):
            h = (len(p) - 1) * q
            a = int(np.floor(h))
            return p[a] + (h - a) * (p[min(a + 1, len(p) - 1)] - p[a])
        if len(p):
            B.ensure("minimum and maximum are those of the table kept", np.isclose(M.loc[c, "Min"], p[0]) and np.isclose(M.loc[c, "Max"], p[-1])
                     and np.isclose(dh.min_values[c], p[0]) and np.isclose(dh.max_values[c], p[-1]))
            B.ensure("quartiles are those of the table kept", all(np.isclose(M.loc[c, k], quant(q)) for k, q in (
                ("25th", 0.25), ("50th", 0.5), ("75th", 0.75))))
        if (s > 0).all() and not np.isnan(x).any():
            want = sum((a - b) / b for a, b in zip(x, s) if a > b) / len(x)
            B.ensure("the signal to noise ratio is that of the table kept", np.isclose(M.loc[c, "S/N"], want))


def contract_frames(B):
    V, U = tables(B)
    V0, U0 = V.copy(), U.copy()
    dh = B.call(DH + ".load_dataframe", V, U)
    check(B, dh, V0, U0)
    B.ensure("the tables passed in are not modified", V.equals(V0) and U.equals(U0))


def contract_files(B):
    import os
    V, U = tables(B, missing=False)
    out = B.tmpdir()
    ext, sep = B.choice("format", [("csv", ","), ("txt", "\t"), ("csv", ";")])
    index = B.bool("index")
    fv, fu = os.path.join(out, "v." + ext), os.path.join(out, "u." + ext)
    if not index:
        V, U = V.reset_index(drop=True), U.reset_index(drop=True)
    V.to_csv(fv, sep=sep, index=index)
    U.to_csv(fu, sep=sep, index=index)
    dh = B.call(DH, fv, fu, index_col="Date" if index else None)
    check(B, dh, V, U)


contract_frames.opts = {"prove": False, "cases": 4}
contract_files.opts = {"prove": False, "cases": 1}
CONTRACTS = ["contract_frames", "contract_files"]

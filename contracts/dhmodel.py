"""shared by the data handler contracts (bounded)"""
DH = "esat.data.datahandler:DataHandler"


def tables(B, names=None, missing=True, lo=0.0):
    """data and uncertainty tables with zeros and missing values"""
    import numpy as np
    import pandas as pd
    m = B.dim("rows", lo=4, chi=12)
    n = B.dim("cols", lo=2, chi=5) if names is None else len(names)
    names = names or [f"f{j}" for j in B_perm(B, n)]
    r = np.random.default_rng(B.int("seed", 0, None, 0, 10 ** 6))
    V = np.round(r.uniform(lo, 9, (m, n)), 3)
    U = np.round(r.uniform(0.05, 4, (m, n)), 3)
    if B.bool("zeros"):
        V[r.uniform(size=(m, n)) < 0.15] = 0
        U[r.uniform(size=(m, n)) < 0.1] = 0
    if missing and B.bool("missing"):
        p = 0.12
        V[r.uniform(size=(m, n)) < p] = np.nan
        U[r.uniform(size=(m, n)) < p] = np.nan
        if B.bool("empty rows"):
            V[r.integers(0, m)] = np.nan
            U[r.integers(0, m)] = np.nan
    ix = pd.Index([f"t{q}" for q in range(m)], name="Date")
    return pd.DataFrame(V, columns=names, index=ix), pd.DataFrame(U, columns=names, index=ix)


def B_perm(B, n):
    o = list(range(n))
    for q in range(n - 1, 0, -1):
        x = B.int(f"p{q}", 0, q, 0, q)
        o[q], o[x] = o[x], o[q]
    return o


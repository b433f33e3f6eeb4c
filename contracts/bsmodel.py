"""Shared: bootstrap objects for the contracts (C10, C11, C14)."""
BS = "esat.error.bootstrap:Bootstrap"
SA = "esat.model.sa:SA"


def bootstrap(B, m, n, k, bs=None, threshold=0.6, V=None, U=None, W=None, H=None, **more):
    """a Bootstrap over a base model given by its attributes"""
    V = B.arr("V", (m, n)) if V is None else V
    U = B.arr("U", (m, n), lo=0, strict=True) if U is None else U
    W = B.arr("W", (m, k)) if W is None else W
    H = B.arr("H", (k, n), lo=0, strict=True) if H is None else H
    sa = B.ns({"V": V, "U": U, "W": W, "H": H, "Qrobust": 1.0, "seed": 42, "method": "ls-nmf", "factors": k,
               "metadata": {}})
    b = B.call(BS, sa, feature_labels=B.pylist(["f"]), bootstrap_n=2, block_size=10 if bs is None else bs,
               threshold=threshold, parallel=False, cpus=1, seed=5)
    return b, V, U, W, H

"""C10: bootstrap resamples consist of whole input rows, data, uncertainty and contributions together.

Row resampling is proved for all matrices and all random draws; block resampling (lists of lists mutated in place) and the
runs built on it are bounded stand-ins on the real code."""
from .bsmodel import bootstrap, BS

_MANY = {"prove": False, "cases": 2}


def rows_match(B, m, n, k, out, src, what="resample"):
    """every output row is the input row its index names, in all three matrices"""
    d, u, w, ix = out
    V0, U0, W0 = src
    B.ensure("as many rows as the input", B.eq(B.length(ix), m))
    B.has_shape("data keep their shape", d, (m, n))
    B.has_shape("uncertainties keep their shape", u, (m, n))
    B.has_shape("contributions keep their shape", w, (m, k))
    B.forall("every index is an input row", (m,), lambda i: B.And(B.cell(ix, i) >= 0, B.cell(ix, i) < m))
    B.forall("every row is a whole data row", (m, n), lambda i, j: B.eq(d[i, j], B.cell(V0, (B.cell(ix, i), j))))
    B.forall("with its own uncertainty row", (m, n), lambda i, j: B.eq(u[i, j], B.cell(U0, (B.cell(ix, i), j))))
    B.forall("and its own contribution row", (m, k), lambda i, l: B.eq(w[i, l], B.cell(W0, (B.cell(ix, i), l))))


def contract_rows(B):
    m, n, k = B.dim("m"), B.dim("n"), B.dim("k", chi=3)
    b, V, U, W, H = bootstrap(B, m, n, k)
    old = [B.snap(x) for x in (V, U, W)]
    seed = B.int("seed", lo=0, clo=0, chi=10 ** 6)
    r = B.method(b, "_resample", V, U, W, seed)
    out = [B.item(r, q) for q in range(4)]
    rows_match(B, m, n, k, out, old)
    for nm, a, o in zip(("data", "uncertainty", "contributions"), (V, U, W), old):
        B.same(f"the original {nm} are not modified", a, o)


def contract_block(B):
    """bounded: blocks of the configured size (at most half of the rows), the last one cut to fit"""
    m, n, k = B.dim("m", lo=2, chi=13), B.dim("n", chi=3), B.dim("k", chi=2)
    bs = B.int("block", lo=1, clo=1, chi=9)
    over = B.bool("overlapping")
    b, V, U, W, H = bootstrap(B, m, n, k, bs=bs)
    old = [B.snap(x) for x in (V, U, W)]
    import copy
    r = B.method(b, "_block_resample", copy.deepcopy(V), copy.deepcopy(U), copy.deepcopy(W),
                 B.int("seed", 0, None, 0, 10 ** 6), over)
    rows_match(B, m, n, k, r, old)
    ix = list(r[3])
    size = bs if bs <= m / 2 else max(1, m // 2)
    for s in range(0, m, size):
        blk = ix[s:s + size]
        B.ensure("blocks are contiguous rows", all(blk[q] == blk[0] + q for q in range(len(blk))))
        B.ensure("blocks start at a block boundary", over or blk[0] % size == 0)
    for nm, a, o in zip(("data", "uncertainty"), (b.data, b.uncertainty), old):
        B.same(f"the base {nm} are not modified", a, o)


def contract_reach(B):
    """bounded: with overlapping blocks every row can be drawn, and a different seed gives a different resample"""
    m = 8
    b, V, U, W, H = bootstrap(B, m, 2, 1, bs=3)
    import copy
    seen, samples = set(), set()
    s0 = B.int("seed", 0, None, 0, 10 ** 6)
    for s in range(60):
        r = B.method(b, "_block_resample", copy.deepcopy(V), copy.deepcopy(U), copy.deepcopy(W), s0 + s, True)
        seen |= set(r[3])
        samples.add(tuple(r[3]))
    B.ensure("every row can be drawn", seen == set(range(m)))
    B.ensure("resamples vary with the seed", len(samples) > 5)


def contract_run(B):
    """bounded: the models of a whole run are trained on such resamples and the base model stays as it was"""
    import numpy as np
    m, n, k = B.dim("m", lo=6, chi=9), B.dim("n", lo=3, chi=4), B.dim("k", chi=2)
    V = B.arr("V", (m, n), lo=0.5).astype("float32")
    U = B.arr("U", (m, n), lo=0.25).astype("float32")
    sa = B.call("esat.model.sa:SA", V, U, k, seed=3)
    B.method(sa, "initialize")
    B.method(sa, "train", max_iter=3, converge_n=50)
    old = {q: np.array(getattr(sa, q)) for q in ("V", "U", "We", "W", "H", "WH")}
    block, over = B.bool("block"), B.bool("overlapping")
    keep, reuse, nb = B.bool("keep_H"), B.bool("reuse"), B.int("runs", 1, None, 1, 3)
    par = B.r.random() < 0.1
    bsz = B.int("block_size", 1, None, 1, 8)
    seed = B.int("seed", 0, None, 0, 99)

    def make():
        return B.call(BS, sa, bootstrap_n=nb, block_size=bsz, parallel=par, cpus=2, seed=seed)
    b = make()
    B.method(b, "run", keep_H=keep, reuse_seed=reuse, block=block, overlapping=over)
    B.ensure("one result per requested run", sorted(b.bs_results) == list(range(1, nb + 1)))
    for i, r in b.bs_results.items():
        M = r["model"]
        ix = list(r["index"])
        B.ensure("as many rows as the input", len(ix) == m and M.V.shape == (m, n))
        B.same("runs train on whole data rows", np.array(M.V, float), old["V"][ix].astype(float))
        B.same("with their own uncertainty rows", np.array(M.U, float), old["U"][ix].astype(float))
        B.ensure("runs are trained", M.Qtrue is not None and M.model_i == i)
        if keep:
            B.ensure("models start from the base profiles or move on", M.H.shape == (k, n))
    for q, a in old.items():
        B.same(f"the base model's {q} is unchanged", np.array(getattr(sa, q)), a)
    b2 = make()
    B.method(b2, "run", keep_H=keep, reuse_seed=reuse, block=block, overlapping=over)
    B.ensure("runs are reproducible by seed", all(list(b2.bs_results[i]["index"]) == list(b.bs_results[i]["index"])
                                                  for i in b.bs_results))


contract_block.opts = _MANY
contract_reach.opts = {"prove": False, "cases": 0.1}
contract_run.opts = {"prove": False, "cases": 0.5}
CONTRACTS = ["contract_rows", "contract_block", "contract_reach", "contract_run"]
ASSUMES = ["numpy's choice and integers draw within their documented ranges",
           "block mode: at least 2 rows"]

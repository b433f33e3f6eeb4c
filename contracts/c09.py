"""C09: a batch keeps its models in seed order, trains each with the batch's settings and points to the lowest loss.

Bounded: whole batches on the real code, sequential, with a process pool that runs its tasks in this process in any order, and
with real processes; each model is compared with a single model trained from the same seed and settings."""
BS = "esat.model.batch_sa:BatchSA"
SA = "esat.model.sa:SA"


def pools(order):
    """stand-ins for a manager and a pool: tasks run in this process, in any order"""
    import queue

    class Manager:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def Queue(self, *a):
            return queue.Queue()

        def list(self, *a):
            return list(*a)

        def dict(self, *a):
            return dict(*a)

        def shutdown(self):
            pass

    class Task:
        def __init__(self, f, a, kw=None, cb=None):
            self.f, self.a, self.kw, self.cb, self.v, self.done = f, a, kw or {}, cb, None, False

        def wait(self, *a):
            if not self.done:
                self.v, self.done = self.f(*self.a, **self.kw), True
                if self.cb:
                    self.cb(self.v)

        def get(self, *a):
            self.wait()
            return self.v

        def ready(self):
            return self.done

        successful = ready

    class Pool:
        def __init__(self, *a, **kw):
            self.tasks = []

        def _all(self, f, args):
            ts = [Task(f, a) for a in args]
            for i in order(len(ts)):
                ts[i].wait()
            return ts

        def starmap(self, f, it, *a, **kw):
            return [t.v for t in self._all(f, [tuple(x) for x in it])]

        def map(self, f, it, *a, **kw):
            return [t.v for t in self._all(f, [(x,) for x in it])]

        imap = map

        def imap_unordered(self, f, it, *a, **kw):
            ts = [Task(f, (x,)) for x in it]
            return [ts[i].get() for i in order(len(ts))]

        def apply_async(self, f, args=(), kwds=None, callback=None, **kw):
            t = Task(f, tuple(args), kwds, callback)
            self.tasks.append(t)
            return t

        def starmap_async(self, f, it, *a, **kw):
            t = Task(self.starmap, (f, list(it)), cb=kw.get("callback"))
            self.tasks.append(t)
            return t

        def close(self):
            pass

        terminate = close

        def join(self):
            for i in order(len(self.tasks)):
                self.tasks[i].wait()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.join()
    return Manager, Pool


def quiet(B):
    """the log handlers of this process are put back after the case (workers replace them)"""
    import logging
    B.patch("logging:root.handlers", list(logging.getLogger().handlers))
    B.patch("logging:root.level", logging.getLogger().level)


def setup(B):
    import numpy as np
    m, n, k = B.dim("m", lo=6, chi=11), B.dim("n", lo=4, chi=6), B.int("k", 1, None, 1, 3)
    r = np.random.default_rng(B.int("seed0", 0, None, 0, 10 ** 6))
    V = r.uniform(0, 1, (m, k)) @ r.uniform(0, 1, (k, n)) + r.uniform(0, 0.1, (m, n))
    U = r.uniform(0.02, 0.3, (m, n))
    q = B.int("models", 1, None, 1, 5)

    def start(name, shape):
        c = B.choice(name, ["none", "one", "stack"])
        if c == "none":
            return None
        return r.uniform(0.1, 2, shape if c == "one" else (q,) + shape)
    H, W = start("H", (k, n)), start("W", (m, k))
    cfg = dict(method=B.choice("method", ["ls-nmf", "ws-nmf"]), seed=B.int("seed", 0, None, 0, 10 ** 6),
               init_method=B.choice("init", ["column_mean", "kmeans"]), init_norm=B.bool("norm"),
               max_iter=B.int("max_iter", 1, None, 1, 30), converge_delta=B.choice("delta", [1e-6, 0.05, 50.0]),
               converge_n=B.int("converge_n", 1, None, 2, 6), best_robust=B.bool("robust"), hold_h=B.bool("hold"),
               delay_h=B.choice("delay", [-1, 0, 3]))
    return np, V, U, k, q, H, W, cfg


def expected(B, np, V, U, k, q, H, W, cfg):
    g = np.random.default_rng(cfg["seed"])
    out = []
    for i in range(q):
        s = g.integers(low=0, high=1e5)
        x = B.call(SA, V=V.copy(), U=U.copy(), factors=k, method=cfg["method"], seed=s, verbose=False)
        pick = lambda a: None if a is None else (a[i] if a.ndim == 3 else a).copy()
        B.method(x, "initialize", H=pick(H), W=pick(W), init_method=cfg["init_method"], init_norm=cfg["init_norm"])
        B.method(x, "train", max_iter=cfg["max_iter"], converge_delta=cfg["converge_delta"], converge_n=cfg["converge_n"],
                 hold_h=cfg["hold_h"], delay_h=cfg["delay_h"])
        out.append(x)
    return out


def judge(B, np, b, ok, ref, q, cfg):
    B.ensure("the batch is trained", ok[0] is True)
    B.ensure("exactly the requested number of models", len(b.results) == q and all(x is not None for x in b.results))
    for i, (x, y) in enumerate(zip(b.results, ref)):
        B.ensure("models are in the order of their seeds", int(x.seed) == int(y.seed))
        B.ensure("every model is the one its seed and the settings give", np.allclose(x.H, y.H, rtol=1e-6) and
                 np.allclose(x.W, y.W, rtol=1e-6) and x.converged == y.converged and x.converge_steps == y.converge_steps and
                 np.isclose(x.Qtrue, y.Qtrue) and np.isclose(x.Qrobust, y.Qrobust))
    Q = [x.Qrobust if cfg["best_robust"] else x.Qtrue for x in b.results]
    B.ensure("the best model is a model of the batch", 0 <= b.best_model < q)
    B.ensure("the best model has the lowest loss of the configured kind", Q[b.best_model] == min(Q))


def contract_batch(B):
    np, V, U, k, q, H, W, cfg = setup(B)
    quiet(B)
    g = np.random.default_rng(B.int("order", 0, None, 0, 10 ** 6))
    Manager, Pool = pools(lambda n: [int(i) for i in g.permutation(n)])
    import multiprocessing as mp
    B.patch("multiprocessing:Manager", Manager)
    B.patch("multiprocessing:Pool", Pool)
    V0, U0 = V.copy(), U.copy()
    HW = [None if a is None else a.copy() for a in (H, W)]
    ref = expected(B, np, V, U, k, q, H, W, cfg)
    for parallel in (False, True):
        b = B.call(BS, V, U, k, models=q, H=H, W=W, parallel=parallel, cores=2, verbose=False, **cfg)
        ok = B.method(b, "train")
        judge(B, np, b, ok, ref, q, cfg)
    B.ensure("data and uncertainties are not modified", np.array_equal(V, V0) and np.array_equal(U, U0))
    B.ensure("given factors are not modified", all(a is None or np.array_equal(a, c) for a, c in zip((H, W), HW)))


def contract_processes(B):
    """real processes and queues"""
    np, V, U, k, q, H, W, cfg = setup(B)
    quiet(B)
    ref = expected(B, np, V, U, k, q, H, W, cfg)
    seen = []
    b = B.call(BS, V, U, k, models=q, H=H, W=W, parallel=B.bool("parallel"), cores=2, verbose=B.bool("verbose"), **cfg)
    judge(B, np, b, B.method(b, "train"), ref, q, cfg)


contract_batch.opts = {"prove": False, "cases": 1.5}
contract_processes.opts = {"prove": False, "cases": 0.15}
CONTRACTS = ["contract_batch", "contract_processes"]
ASSUMES = ["process pools return what their tasks return (real pools are sampled)"]


def contract_select(B):
    """batches of one to three models, sequential and pooled: every loss, every outcome of the training"""
    V, U = B.arr("V", (B.dim("m", lo=2), B.dim("n", lo=2)), lo=0), None
    m, n = B.shape(V)
    U = B.arr("U", (m, n), lo=0, strict=True)
    q = B.choice("models", [1, 2, 3])
    Qt, Qr = B.fun("Qt", 1), B.fun("Qr", 1)
    made, inits, trains = [], [], []

    def init(self, V=None, U=None, factors=None, method=None, seed=None, **kw):
        made.append((self, V, U, factors, method, seed))
        B.setattr(self, "seed", seed)

    def initialize(self, H=None, W=None, init_method=None, init_norm=None, **kw):
        inits.append((self, H, W, init_method, init_norm))

    def train(self, max_iter=None, converge_delta=None, converge_n=None, model_i=None, update_step=None, hold_h=None,
              delay_h=-1, progress_callback=None, **kw):
        i = len(trains)
        trains.append((self, max_iter, converge_delta, converge_n, hold_h, delay_h))
        B.setattr(self, "Qtrue", Qt(i))
        B.setattr(self, "Qrobust", Qr(i))
        B.setattr(self, "converged", True)
        B.setattr(self, "converge_steps", 1)
        return 0
    B.stub(SA + ".__init__", init)
    B.stub(SA + ".initialize", initialize)
    B.stub(SA + ".train", train)
    B.stub("esat.utils:memory_estimate", lambda *a, **kw: B.pydict([("max_cores", 4), ("estimate", 1), ("available_memory_bytes", 1)]))
    B.lib_override("esat_rust", "clear_screen", B.builtin(lambda *a: None, "clear_screen"))
    B.stub("esat.model.batch_sa:logging_listener", lambda *a: B.opaque("listener"))

    def starmap(f, it, *a):
        return B.pylist([B.apply(f, *[B.item(t, x) for x in range(B.length(t))]) for t in [B.item(it, y) for y in range(B.length(it))]])
    B.lib_override("multiprocessing", "Pool", B.builtin(lambda *a, **kw: B.ns({
        "starmap": B.builtin(starmap, "starmap"), "close": B.builtin(lambda: None), "join": B.builtin(lambda: None)}), "Pool"))
    kind = B.choice("start", ["none", "one", "stack"])
    H = None if kind == "none" else B.arr("H", ((q,) if kind == "stack" else ()) + (B.int("k", lo=1), n), lo=0)
    W = None if kind == "none" else B.arr("W", ((q,) if kind == "stack" else ()) + (m, B.int("k", lo=1)), lo=0)
    robust, hold = B.bool("robust"), B.bool("hold")
    k, seed, it, cn, dl = (B.int(x, lo=1) for x in ("k", "seed", "max_iter", "converge_n", "delay"))
    parallel = B.case(B.bool("parallel"))
    cd = B.real("delta", lo=0)
    b = B.call(BS, V, U, k, models=q, seed=seed, max_iter=it, converge_delta=cd, converge_n=cn, best_robust=robust,
               parallel=parallel, cores=1, hold_h=hold, delay_h=dl, verbose=False, H=H, W=W)
    ok = B.method(b, "train")
    B.ensure("the batch is trained", B.eq(B.item(ok, 0), True))
    res = B.get(b, "results")
    B.ensure("exactly the requested number of models", B.eq(B.length(res), q))
    B.ensure("all of them initialised and trained once", len(made) == len(inits) == len(trains) == q)
    best = B.get(b, "best_model")
    Q = lambda i: B.If(robust, Qr(i), Qt(i))
    for i in range(q):
        o, v, u, f, me, s = made[i]
        B.ensure("models are kept in order", B.item(res, i) is o and inits[i][0] is o and trains[i][0] is o)
        B.ensure("every model has the data of the batch", v is V and u is U)
        B.ensure("the factor count of the batch", B.eq(f, k))
        for nm, a, c in (("profiles", H, inits[i][1]), ("contributions", W, inits[i][2])):
            if a is None:
                B.ensure(f"models start without {nm} when none are given", c is None)
            else:
                sh = B.shape(a)[-2:]
                B.forall(f"models start from their own {nm}", sh, lambda x, y: B.eq(B.cell(c, (x, y)), a[x, y] if kind == "one" else a[i, x, y]))
        t = trains[i]
        B.ensure("the settings of the batch", B.And(B.eq(t[1], it), B.eq(t[2], cd), B.eq(t[3], cn), B.eq(t[4], hold), B.eq(t[5], dl)))
        B.ensure("the best model is a model of the batch", B.And(best >= 0, best < q))
        B.ensure("no model has a lower loss than the best", B.Or(*[B.And(B.eq(best, j), B.le(Q(j), Q(i))) for j in range(q)]))


contract_select.opts = {"concrete": False}
CONTRACTS.append("contract_select")

"""Concrete backend of the contracts: the same contract text evaluated at run time against the real code (no z3)."""
import copy
import importlib
import io
import contextlib
import itertools
import json
import logging
import math
import os
import random
import sys
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


class Rejected(Exception):
    pass


class Missing(Exception):
    """the code under contract no longer has the name or signature the contract refers to"""


class Fail(Exception):
    def __init__(self, name, detail):
        self.name, self.detail = name, detail
        super().__init__(f"{name}: {detail}")


def setup_import():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # the directory eval/ is installed under the name esat_eval
    e = types.ModuleType("esat_eval")
    e.__path__ = [os.path.join(REPO, "eval")]
    sys.modules["esat_eval"] = e
    try:
        # progress bars of notebooks need packages a test environment does not have
        import tqdm as _t, tqdm.notebook as _n
        _n.tqdm, _n.tnrange, _n.trange = _t.tqdm, _t.trange, _t.trange
    except ImportError:
        pass
    try:
        import esat_rust          # noqa
    except ImportError:
        # eval/, batch and error modules import names from the optional compiled module at import time
        m = types.ModuleType("esat_rust")
        m.clear_screen = lambda *a, **k: None
        sys.modules["esat_rust"] = m
        for n in ("esat.model.batch_sa", "esat.error.bs_disp", "esat.error.error", "esat_eval.simulator",
                  "esat_eval.factor_comparison", "esat_eval.perturbation"):
            try:
                importlib.import_module(n)
            except Exception:
                pass
        # training code must keep seeing that the optional module is absent
        del sys.modules["esat_rust"]
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")


def modname(m):
    return "esat_" + m if m.startswith("eval.") else m


class Conc:
    symbolic = False

    def __init__(self, seed, over=None, tier="quick"):
        import numpy as np
        self.np = np
        self.r = random.Random(seed)
        self.over = over or {}
        self.vals = {}
        self.patches = []
        self.tol = 1e-6
        self.ensured = []
        self.tier = tier
        self.scratch = None

    # ---------------------------------------------------------------- inputs
    def _rec(self, name, v):
        self.vals[name] = v
        return v

    def dim(self, name, lo=1, hi=None, chi=6):
        if name in self.over:
            v = int(self.over[name])
            if v < lo or (hi is not None and v > hi) or v > 64:
                raise Rejected()
            return self._rec(name, v)
        return self._rec(name, self.r.randint(lo, min(hi, chi) if hi is not None else max(chi, lo)))

    def int(self, name, lo=None, hi=None, clo=None, chi=None):
        if name in self.over:
            return self._rec(name, int(self.over[name]))
        a = clo if clo is not None else (lo if lo is not None else -3)
        b = chi if chi is not None else (hi if hi is not None else a + 8)
        return self._rec(name, self.r.randint(a, b))

    def index(self, name, bound):
        v = self.int(name, 0, None, 0, int(bound) - 1)
        if not 0 <= v < bound:
            raise Rejected()
        return v

    def real(self, name, lo=None, hi=None, strict=False, clo=None, chi=None):
        if name in self.over:
            return self._rec(name, float(self.over[name]))
        a = clo if clo is not None else (lo if lo is not None else -4.0)
        b = chi if chi is not None else (hi if hi is not None else a + 8.0)
        v = self.dy(a, b)
        if strict and lo is not None and v <= lo:
            v = lo + (b - a) / 64
        return self._rec(name, v)

    def dy(self, a, b):
        """dyadic number in [a,b]: exact in single precision when the range is moderate"""
        q = self.r.randint(0, 64) / 64.0
        return a + (b - a) * q

    def bool(self, name):
        if name in self.over:
            return self._rec(name, bool(self.over[name]))
        return self._rec(name, self.r.random() < 0.5)

    flag = bool

    def choice(self, name, options):
        if name in self.over:
            i = int(self.over[name])
            if not (0 <= i < len(options)):
                raise Rejected()
        else:
            i = self.r.randrange(len(options))
        self._rec(name, i)
        return options[i]

    def arr(self, name, shape, lo=None, hi=None, strict=False, kind="real", gen=None, elem=None, dtype=None, scale=None):
        np = self.np
        shape = tuple(int(d) for d in shape)
        if name in self.over:
            o = self.over[name]
            if not isinstance(o, dict) or tuple(o["shape"]) != shape:
                raise Rejected()
            cells = [0 if c is None else c for c in o["cells"]]
            if kind == "real" and any(abs(c) > 1e12 or (c != 0 and abs(c) < 1e-12) for c in cells):
                raise Rejected()
            a = np.array(cells, dtype={"real": float, "int": int, "bool": bool}[kind]).reshape(shape)
        else:
            mode = self.r.random()
            cells = []
            tot = int(np.prod(shape)) if shape else 1
            if gen is not None:
                cells = [gen(self.r, *ix) for ix in itertools.product(*[range(d) for d in shape])]
            else:
                for _ in range(tot):
                    if kind == "bool":
                        cells.append(self.r.random() < 0.5)
                    elif kind == "int":
                        a_ = lo if lo is not None else -3
                        b_ = hi - 1 if hi is not None else a_ + 8
                        cells.append(self.r.randint(a_, max(a_, b_)))
                    else:
                        a_ = lo if lo is not None else -4.0
                        b_ = hi if hi is not None else a_ + 8.0
                        v = self.dy(a_, b_)
                        if mode < 0.3 and self.r.random() < 0.15:      # extremes
                            v = self.r.choice([a_, b_, (a_ + b_) / 2])
                        if hi is None and self.r.random() < 0.05:
                            v = v * 16
                        if strict and lo is not None and v <= lo:
                            v = lo + (b_ - a_) / 64 * (1 + self.r.randint(0, 5))
                        cells.append(v)
            a = np.array(cells, dtype={"real": float, "int": int, "bool": bool}[kind]).reshape(shape)
            if scale is not None and scale != 1.0:
                a = a * scale
        if dtype is not None:
            a = a.astype(dtype)
        if elem is not None:
            for ix in itertools.product(*[range(d) for d in shape]):
                if not elem(a[ix], *ix):
                    raise Rejected()
        self._rec(name, {"shape": list(shape), "cells": [x.item() for x in a.ravel()]})
        return a

    def scale(self, name, lo=-20, hi=20):
        """power of two by which seeded arrays are scaled (1 in the proofs, where the arrays are arbitrary)"""
        if self.over:
            return 1.0
        return 2.0 ** self.r.choice([0, 0, lo, hi, self.r.randint(lo, hi)])

    def list(self, name, n, elem):
        return [elem(i) for i in range(int(n))]

    def pylist(self, items):
        return list(items)

    def pydict(self, items):
        return dict(items)

    def family(self, n, key, value):
        return {key(i): value(i) for i in range(n)}

    def fstr(self, *parts):
        return "".join(str(p) for p in parts)

    def entries(self, d):
        return list(d.items())

    def pytuple(self, items):
        return tuple(items)

    def _cls(self, key):
        mod, qual = key.split(":")
        try:
            m = importlib.import_module(modname(mod))
        except ModuleNotFoundError as e:
            raise Missing(str(e))
        o = m
        for p in qual.split("."):
            n = self.mangle(p, o.__name__ if isinstance(o, type) else None)
            if not hasattr(o, n):
                raise Missing(f"{key} does not exist")
            o = getattr(o, n)
        return o

    @staticmethod
    def mangle(name, cls):
        if cls and name.startswith("__") and not name.endswith("__"):
            return "_" + cls.lstrip("_") + name
        return name

    def obj(self, key, attrs):
        c = self._cls(key)
        o = c.__new__(c)
        for k, v in attrs.items():
            setattr(o, self.mangle(k, c.__name__), v)
        return o

    def ns(self, attrs, name="ns"):
        return types.SimpleNamespace(**attrs)

    def opaque(self, tag="?"):
        return None

    # ---------------------------------------------------------------- code under contract
    def _quiet(self, f, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                return f(*a, **k)
            except TypeError as e:
                if e.__traceback__.tb_next is None and "argument" in str(e):
                    raise Missing(f"signature: {e}")
                raise

    def fn(self, key):
        return self._cls(key)

    target = fn

    def call(self, key, *args, **kw):
        return self._quiet(self._cls(key), *args, **kw)

    def apply(self, f, *args, **kw):
        return self._quiet(f, *args, **kw)

    def method(self, obj, name, *args, **kw):
        n = self.mangle(name, type(obj).__name__)
        if not hasattr(obj, n):
            raise Missing(f"{type(obj).__name__}.{name} does not exist")
        return self._quiet(getattr(obj, n), *args, **kw)

    def try_call(self, key, *args, **kw):
        try:
            return self.call(key, *args, **kw), None
        except Missing:
            raise
        except Exception as e:
            return None, type(e).__name__

    def try_method(self, obj, name, *args, **kw):
        try:
            return self.method(obj, name, *args, **kw), None
        except Missing:
            raise
        except Exception as e:
            return None, type(e).__name__

    def get(self, obj, name):
        if isinstance(obj, dict):
            return obj[name]
        n = self.mangle(name, type(obj).__name__)
        if not hasattr(obj, n):
            raise Missing(f"{type(obj).__name__} has no attribute {name}")
        return getattr(obj, n)

    def has(self, obj, name):
        return hasattr(obj, self.mangle(name, type(obj).__name__))

    def set(self, obj, name, v):
        setattr(obj, self.mangle(name, type(obj).__name__), v)

    def setattr(self, obj, name, v):
        setattr(obj, name, v)

    def setitem(self, o, ix, v):
        o[ix] = v

    def item(self, o, ix):
        return o[ix]

    cell = item

    def length(self, v):
        return len(v)

    def shape(self, a):
        return a.shape

    def ndim(self, a):
        return a.ndim

    def snap(self, v):
        v = copy.deepcopy(v)
        if isinstance(v, self.np.ndarray) and v.dtype.kind == "f":
            v = v.astype(float)
        return v

    def stub(self, key, fn):
        pass

    def loop(self, *a, **k):
        pass

    def lib_override(self, *a):
        pass

    def patch(self, target, v):
        """temporarily replace module attribute 'mod:attr' (undone after the case)"""
        mod, qual = target.split(":")
        o = importlib.import_module(modname(mod))
        ps = qual.split(".")
        for p in ps[:-1]:
            o = getattr(o, p)
        self.patches.append((o, ps[-1], o.__dict__.get(ps[-1], None)))
        setattr(o, ps[-1], v)

    def undo(self):
        for o, n, v in reversed(self.patches):
            setattr(o, n, v)
        self.patches = []
        if self.scratch:
            import shutil
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    def tmpdir(self):
        import tempfile
        if not self.scratch:
            self.scratch = tempfile.mkdtemp(prefix="verif_case_")
        return self.scratch

    def builtin(self, f, name="f"):
        return f

    def ghost(self, k, v):
        pass

    def lam(self, shape, fn, kind="real"):
        np = self.np
        a = np.zeros(tuple(int(d) for d in shape), dtype={"real": float, "int": int, "bool": bool}[kind])
        for ix in itertools.product(*[range(d) for d in a.shape]):
            a[ix] = fn(*ix)
        return a

    # ---------------------------------------------------------------- logic
    def assume(self, c):
        if not c:
            raise Rejected()

    def assume_forall(self, shape, f):
        for ix in itertools.product(*[range(int(d)) for d in shape]):
            if not f(*ix):
                raise Rejected()

    def axiom(self, nb, f):
        pass

    def case(self, c):
        return bool(c)

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def boolean(self, a):
        return bool(a)

    def If(self, c, a, b):
        return a if c else b

    def eq(self, a, b, tol=None, atol=None):
        if a is None or b is None:
            return a is b
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        t = tol if tol is not None else self.tol
        return abs(a - b) <= t * max(1e-300, abs(a), abs(b)) + (atol if atol is not None else 1e-9)

    def le(self, a, b, tol=None):
        a, b = float(a), float(b)
        t = tol if tol is not None else self.tol
        return a <= b + t * max(abs(a), abs(b)) + 1e-9

    def div(self, a, b):
        return float(self.np.float64(a) / self.np.float64(b))

    def lt(self, a, b):
        return float(a) < float(b)

    def SUM(self, n, f):
        return math.fsum(float(f(i)) for i in range(int(n)))

    def ISUM(self, n, f):
        return sum(int(f(i)) for i in range(int(n)))

    def COUNT(self, n, f):
        return sum(1 for i in range(int(n)) if f(i))

    def ANY(self, n, f):
        return any(f(i) for i in range(int(n)))

    def ALL(self, n, f):
        return all(f(i) for i in range(int(n)))

    def MAX(self, n, f):
        return max(float(f(i)) for i in range(int(n)))

    def MIN(self, n, f):
        return min(float(f(i)) for i in range(int(n)))

    def ARGMAX(self, n, f):
        v = [float(f(i)) for i in range(int(n))]
        return v.index(max(v))

    def ARGMIN(self, n, f):
        v = [float(f(i)) for i in range(int(n))]
        return v.index(min(v))

    def corr(self, n, f, g):
        n = int(n)
        mf = self.SUM(n, f) / n
        mg = self.SUM(n, g) / n
        cov = self.SUM(n, lambda i: (f(i) - mf) * (g(i) - mg))
        vf = self.SUM(n, lambda i: (f(i) - mf) ** 2)
        vg = self.SUM(n, lambda i: (g(i) - mg) ** 2)
        d = math.sqrt(vf) * math.sqrt(vg)
        return cov / d if d else float("nan")

    def _mat(self, n, f):
        return self.np.array([[float(f(i, j)) for j in range(int(n))] for i in range(int(n))]).reshape(int(n), int(n))

    def det(self, n, f):
        return float(self.np.linalg.det(self._mat(n, f)))

    def inv(self, n, f):
        a = self.np.linalg.inv(self._mat(n, f))
        return lambda i, j: a[i, j]

    def pinv(self, n, f):
        a = self.np.linalg.pinv(self._mat(n, f))
        return lambda i, j: a[i, j]

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float("nan")

    def power(self, x, p):
        return float(x) ** float(p)

    def round(self, x, n):
        return float(self.np.round(x, n))

    def abs(self, x):
        return abs(x)

    def isnan(self, x):
        return bool(x != x)

    def min2(self, a, b):
        return min(a, b)

    def max2(self, a, b):
        return max(a, b)

    def real_of(self, x):
        return float(x)

    def int_of(self, x):
        return int(x)

    def is_array(self, v):
        return isinstance(v, self.np.ndarray)

    # ---------------------------------------------------------------- obligations
    def ensure(self, name, c):
        self.ensured.append(name)
        if not c:
            raise Fail(name, "is false")

    def forall(self, name, shape, f):
        self.ensured.append(name)
        for ix in itertools.product(*[range(int(d)) for d in shape]):
            if not f(*ix):
                raise Fail(name, f"is false at {ix}")

    def same(self, name, a, b):
        np = self.np
        self.ensured.append(name)
        if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
            raise Fail(name, f"not arrays: {type(a).__name__}, {type(b).__name__}")
        if a.shape != b.shape:
            raise Fail(name, f"shapes {a.shape} and {b.shape}")
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
            af, bf = a.astype(float), b.astype(float)
            ok = (af == bf) | (np.isnan(af) & np.isnan(bf)) | (np.abs(af - bf) <= self.tol * np.maximum(np.abs(af), np.abs(bf)))
        else:
            ok = a == b
        if not np.all(ok):
            ix = tuple(int(q) for q in np.argwhere(~ok)[0])
            raise Fail(name, f"differs at {ix}: {a[ix]} vs {b[ix]}")

    def has_shape(self, name, a, shape):
        self.ensured.append(name)
        if not isinstance(a, self.np.ndarray) or tuple(a.shape) != tuple(int(d) for d in shape):
            raise Fail(name, f"shape {getattr(a, 'shape', None)} instead of {tuple(shape)}")

    def end(self):
        raise Rejected()


def run_case(fn, seed, over=None, tier="quick"):
    """returns ('ok'|'rejected'|'fail', B, Fail or exception text)"""
    B = Conc(seed, over, tier)
    try:
        fn(B)
        return "ok", B, None
    except Rejected:
        return "rejected", B, None
    except Fail as e:
        return "fail", B, (e.name, e.detail)
    except Missing as e:
        return "error", B, ("the contract refers to names the code no longer has", str(e))
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{t.filename}:{t.lineno}" for t in tb][-4:]
        return "fail", B, (f"no exception is raised ({type(e).__name__})", f"{type(e).__name__}: {str(e)[:300]} at {where}")
    finally:
        B.undo()


def main(argv):
    """conc.py <contract module> <json job on stdin>: run seeded cases and replays; prints a JSON report."""
    import time
    real_out = sys.stdout
    job = json.load(sys.stdin)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    with contextlib.redirect_stdout(io.StringIO()):
        setup_import()
        mod = importlib.import_module("contracts." + job["module"])
    res = {}
    t_end = time.time() + job.get("budget", 60)
    for name in job["contracts"]:
        fn = getattr(mod, name)
        opts = getattr(fn, "opts", {})
        n = job.get("cases", 100)
        n = int(n * opts.get("cases", 1.0)) or 1
        out = {"ok": 0, "rejected": 0, "failures": [], "errors": [], "ensured": []}
        ens = set()
        out["cases"], seen = [], set()
        for q, over in enumerate(job.get("replays", {}).get(name, [])):
            st, B, f = run_case(fn, f"replay{q}", over)
            out["replay_status"] = out.get("replay_status", []) + [[st, f]]
            if st == "fail":
                out["failures"].append({"source": "countermodel", "seed": f"replay{q}", "inputs": B.vals, "over": over,
                                        "obligation": f[0], "detail": f[1]})
        if opts.get("concrete", True):
            per = time.time() + max(2.0, (t_end - time.time()) / max(1, len(job["contracts"])) * 2)
            for q in range(n):
                if time.time() > min(t_end, per) and q >= 3:
                    break
                seed = f"{job.get('seed', 1)}/{name}/{q}"
                st, B, f = run_case(fn, seed, tier=job.get("tier", "quick"))
                ens |= set(B.ensured)
                if st in ("ok", "rejected"):
                    out[st] += 1
                    if st == "ok":
                        txt = json.dumps(B.vals, default=str)
                        seen.add(hash(txt))
                        if len(out["cases"]) < 2:
                            out["cases"].append({"seed": seed, "inputs": txt[:700]})
                elif st == "error":
                    out["errors"].append(f)
                    if len(out["errors"]) > 3:
                        break
                else:
                    out["failures"].append({"source": "seeded input", "seed": seed, "inputs": B.vals,
                                            "obligation": f[0], "detail": f[1]})
                    if len(out["failures"]) >= job.get("max_failures", 4):
                        break
        out["ensured"] = sorted(ens)
        out["distinct"] = len(seen)
        res[name] = out
    json.dump(res, real_out, default=str)
    real_out.flush()


if __name__ == "__main__":
    main(sys.argv)

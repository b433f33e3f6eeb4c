"""Symbolic backend of the contracts (verification-condition generation)."""
import time
import traceback
import z3
from . import terms as T
from . import values as Vv
from .terms import Untranslatable, num, to_bool, to_real, conj, disj, int_of, lit
from .values import Arr, Obj, PList, PDict, SList, Opaque, text, Bound, Class, Func, PyExc, Builtin
from .interp import Session, Interp, PathEnd, ReturnSig, BreakSig, ContinueSig, mangle
from .loops import LoopSpec, eager_univ
from .prover import STATS


class Rejected(Exception):
    """precondition not met by this input (concrete backend)"""


class Sym:
    symbolic = True

    def __init__(self, s, ip, over=None):
        self.s, self.ip, self.lib = s, ip, ip.lib
        self.inputs = {}
        self.ensured = []

    # ---------------------------------------------------------------- inputs
    def dim(self, name, lo=1, hi=None, chi=6):
        c = z3.Int(name)
        self.inputs[name] = ("int", c)
        self.s.assume(c >= lo)
        if hi is not None:
            self.s.assume(c <= hi)
        return c

    def int(self, name, lo=None, hi=None, clo=None, chi=None):
        c = z3.Int(name)
        self.inputs[name] = ("int", c)
        if lo is not None:
            self.s.assume(c >= lo)
        if hi is not None:
            self.s.assume(c <= hi)
        return c

    def index(self, name, bound):
        """an arbitrary position in an axis of the given length"""
        x = self.int(name, lo=0)
        self.assume(x < bound)
        return x

    def real(self, name, lo=None, hi=None, strict=False, clo=None, chi=None):
        c = z3.Real(name)
        self.inputs[name] = ("real", c)
        if lo is not None:
            self.s.assume(c > num(lo) if strict else c >= num(lo))
        if hi is not None:
            self.s.assume(c <= num(hi))
        return c

    def bool(self, name):
        c = z3.Bool(name)
        self.inputs[name] = ("bool", c)
        return c

    def flag(self, name):
        """a boolean that is decided now (both cases explored)"""
        c = self.bool(name)
        return self.s.decide(c)

    def choice(self, name, options):
        c = z3.Int(name)
        self.inputs[name] = ("int", c)
        self.s.assume(z3.And(c >= 0, c < len(options)))
        for q in range(len(options) - 1):
            if self.s.decide(c == q):
                return options[q]
        return options[-1]

    def arr(self, name, shape, lo=None, hi=None, strict=False, kind="real", gen=None, elem=None, dtype=None, scale=None):
        def ax(x, *ix):
            cs = []
            if lo is not None:
                cs.append(x > num(lo) if strict else x >= num(lo))
            if hi is not None:
                cs.append(x < num(hi) if hi is not None and kind == "int" else x <= num(hi))
            if elem is not None:
                cs.append(num(elem(x, *ix)))
            return conj(cs)
        a = self.s.sym_arr(name, tuple(shape), kind, ax if (lo is not None or hi is not None or elem) else None,
                           exact=True)
        self.inputs[name] = ("arr", a, tuple(shape), kind)
        return a

    def scale(self, name, lo=-20, hi=20):
        return 1

    def list(self, name, n, elem):
        """list of n elements elem(i) (i symbolic)"""
        l = lit(n) if T.is_z3(n) or isinstance(n, int) else None
        if l is not None:
            return PList([elem(z3.IntVal(i)) for i in range(l)])
        return PList([], SList(n, elem))

    def pylist(self, items):
        return PList(list(items))

    def pydict(self, items):
        return PDict(dict(items))

    def family(self, n, key, value):
        """dict with n entries key(i): value(i), of any number"""
        return PDict({}, [(n, key, value)])

    def fstr(self, *parts):
        """the formatted string of the parts"""
        if all(isinstance(p, (str, int)) for p in parts):
            return "".join(str(p) for p in parts)
        return text(*[p if isinstance(p, str) else str(p) if isinstance(p, int) else ("fmt", p, "") for p in parts])

    def entries(self, d):
        """(key, value) pairs of a dict with finitely many known entries"""
        out = list(d.items.items())
        for n, kf, vf in d.fams:
            if lit(n) != 1:
                raise Untranslatable("entries of a symbolic dict")
            out.append((kf(z3.IntVal(0)), vf(z3.IntVal(0))))
        return out

    def pytuple(self, items):
        return tuple(items)

    def obj(self, key, attrs):
        mod, qual = key.split(":")
        c = self.ip.module_globals(mod)[qual]
        return Obj(c, {mangle(k, qual): v for k, v in attrs.items()}, qual)

    def ns(self, attrs, name="ns"):
        """plain namespace object"""
        return Obj("ns", dict(attrs), name)

    def opaque(self, tag="?"):
        return Opaque(tag)

    def enum(self, name):
        return Opaque("enum", (name,))

    # ---------------------------------------------------------------- code under contract
    def fn(self, key):
        mod, qual = key.split(":")
        parts = qual.split(".")
        o = self.ip.module_globals(mod)[parts[0]]
        if hasattr(o, "resolve"):
            o = o.resolve(self.ip)
        for p in parts[1:]:
            o = o.members[mangle(p, parts[0])]
        return o

    def target(self, key):
        f = self.fn(key)
        if isinstance(f, (Func, Class)):
            self.s.used_funcs.add(key)
        return f

    def call(self, key, *args, **kw):
        f = self.target(key)
        return self.ip.call(f, list(args), kw)

    def apply(self, f, *args, **kw):
        return self.ip.call(f, list(args), kw)

    def method(self, obj, name, *args, **kw):
        f = self.ip.getattr(obj, mangle(name, obj.cls.qual) if isinstance(obj.cls, Class) else name)
        if isinstance(f, Bound):
            self.s.used_funcs.add(f"{f.fn.module}:{f.fn.qual}")
        return self.ip.call(f, list(args), kw)

    def try_call(self, key, *args, **kw):
        try:
            return self.call(key, *args, **kw), None
        except PyExc as e:
            return None, e.ecls

    def try_method(self, obj, name, *args, **kw):
        try:
            return self.method(obj, name, *args, **kw), None
        except PyExc as e:
            return None, e.ecls

    def get(self, obj, name):
        if isinstance(obj, PDict):
            return self.lib.dict_get(obj, name)
        return self.ip.getattr(obj, mangle(name, obj.cls.qual) if isinstance(obj.cls, Class) else name)

    def has(self, obj, name):
        return (mangle(name, obj.cls.qual) if isinstance(obj.cls, Class) else name) in obj.attrs

    def set(self, obj, name, v):
        obj.attrs[mangle(name, obj.cls.qual) if isinstance(obj.cls, Class) else name] = v

    def setattr(self, obj, name, v):
        """assignment seen by loop summaries (ghost state of stubs)"""
        self.s.set_attr(obj, name, v)

    def setitem(self, o, ix, v):
        self.lib.setitem(o, ix, v)

    def item(self, o, ix):
        return self.lib.getitem(o, ix)

    def cell(self, o, ix):
        """o[ix] without an index obligation (the contract bounds ix)"""
        if isinstance(o, PList):
            return self.lib.raw_index(o, int_of(ix))
        if isinstance(o, Arr):
            return o.get(*[int_of(i) for i in (ix if isinstance(ix, tuple) else (ix,))])
        return self.lib.getitem(o, ix)

    def length(self, v):
        return self.lib.length(v)

    def shape(self, a):
        return a.shape

    def ndim(self, a):
        return len(a.shape)

    def snap(self, v):
        return Vv.freeze(v)

    def stub(self, key, fn):
        """callee contract: calls of key are replaced by fn (listed as assumed for this contract)"""
        self.s.stubs[key] = fn

    def loop(self, key, kind, ordinal, inv, types=None, at_start=None, after=None):
        """loop contract: invariant for the ordinal-th for/while loop of key"""
        self.s.loop_specs.setdefault(key, {})[(kind, ordinal)] = LoopSpec(inv, types, after, at_start)

    def lib_override(self, mod, name, v):
        self.s.ghost.setdefault("mods", {})[(mod, name)] = v

    def patch(self, target, v):
        pass

    def builtin(self, f, name="f"):
        return Builtin(f, name)

    def ghost(self, k, v):
        self.s.ghost[k] = v

    def sym(self, name, sort="real"):
        return self.s.sym(name, {"real": T.R, "int": T.I, "bool": T.Bo}[sort])

    def sym_arr(self, name, shape, kind="real", elem=None):
        return self.s.sym_arr(name, shape, kind, elem)

    def fun(self, name, nargs, sort="real", args=None):
        so = {"real": T.R, "int": T.I, "bool": T.Bo}
        f = z3.Function(name, *[so[a] for a in (args or ["int"] * nargs)], so[sort])
        conv = {"real": to_real, "int": int_of, "bool": lambda x: to_bool(num(x))}
        return lambda *a: f(*[conv[args[q] if args else "int"](x) for q, x in enumerate(a)])

    def lam(self, shape, fn, kind="real"):
        """array given by a formula"""
        return Arr(tuple(shape), lambda *ix: fn(*ix), kind)

    # ---------------------------------------------------------------- logic
    def assume(self, c):
        self.s.assume(num(c) if not isinstance(c, bool) else z3.BoolVal(c))

    def assume_forall(self, shape, f):
        """universal hypothesis, instantiated by the prover at index terms"""
        eager_univ(self.s, shape, f)

    def axiom(self, nb, f):
        self.s.facts.add_univ(nb, f)

    def case(self, c):
        return self.s.decide(c)

    def And(self, *cs):
        return conj([num(c) for c in cs])

    def Or(self, *cs):
        return disj([num(c) for c in cs])

    def Not(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def Implies(self, a, b):
        return z3.Implies(num(a), num(b))

    def iff(self, a, b):
        return to_bool(num(a)) == to_bool(num(b))

    def boolean(self, a):
        return to_bool(num(a))

    def If(self, c, a, b):
        return T.ite(c if isinstance(c, bool) else num(c), a, b)

    def eq(self, a, b, tol=None, atol=None):
        a, b = self.scalar(a), self.scalar(b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return z3.BoolVal(a is b or (isinstance(a, str) and a == b))
        x, y = T.same_sort(a, b)
        return x == y

    def scalar(self, a):
        if isinstance(a, Arr) and (a.ndim == 0 or all(lit(d) == 1 for d in a.shape)):
            return a.get(*[z3.IntVal(0)] * a.ndim)
        return a

    def le(self, a, b, tol=None):
        return to_real(self.scalar(a)) <= to_real(self.scalar(b))

    def div(self, a, b):
        return to_real(self.scalar(a)) / to_real(self.scalar(b))

    def lt(self, a, b):
        return to_real(self.scalar(a)) < to_real(self.scalar(b))

    def within(self, n, f):
        """evaluate f(i) under 0 <= i < n (index obligations met inside see the range)"""
        def g(i):
            n0 = len(self.s.pc)
            self.s.pc.append(z3.And(int_of(i) >= 0, int_of(i) < int_of(n)))
            try:
                return f(i)
            finally:
                del self.s.pc[n0:]
        return g

    def SUM(self, n, f):
        return T.SUM(n, self.within(n, f))

    def ISUM(self, n, f):
        return T.ISUM(n, self.within(n, f))

    def COUNT(self, n, f):
        f = self.within(n, f)
        return T.ICOUNT(n, lambda i: to_bool(num(f(i))))

    def ANY(self, n, f):
        f = self.within(n, f)
        return T.ANY(n, lambda i: to_bool(num(f(i))))

    def ALL(self, n, f):
        f = self.within(n, f)
        return T.ALL(n, lambda i: to_bool(num(f(i))))

    def MAX(self, n, f):
        f = self.within(n, f)
        return T.MAX(n, lambda i: to_real(f(i)))

    def MIN(self, n, f):
        f = self.within(n, f)
        return T.MIN(n, lambda i: to_real(f(i)))

    def ARGMAX(self, n, f):
        f = self.within(n, f)
        return T.ARGMAX(n, lambda i: to_real(f(i)))

    def ARGMIN(self, n, f):
        f = self.within(n, f)
        return T.ARGMIN(n, lambda i: to_real(f(i)))

    def corr(self, n, f, g):
        from .nplib import corr
        return corr(n, f, g)

    def det(self, n, f):
        return T.functional("DET", 2, T.R, T.R)(T.lam_of(2, f, T.R)[0], int_of(n), int_of(n))

    def _invlike(self, kind, n, f):
        lam = T.lam_of(2, f, T.R)[0]
        F = T.functional(kind, 2, T.R, T.R, (T.I, T.I))
        return lambda i, j: F(lam, int_of(n), int_of(n), int_of(i), int_of(j))

    def inv(self, n, f):
        return self._invlike("INV", n, f)

    def pinv(self, n, f):
        return self._invlike("PINV", n, f)

    def sqrt(self, x):
        return T.sqrt(x)

    def power(self, x, p):
        return self.lib.scal("Pow", self.scalar(x), self.scalar(p))

    def round(self, x, n):
        return self.lib.np.round_(x, n)

    def abs(self, x):
        return T.absv(x)

    def isnan(self, x):
        return self.lib.np.isnan(x)

    def min2(self, a, b):
        return T.ite(num(a) <= num(b), a, b)

    def max2(self, a, b):
        return T.ite(num(a) >= num(b), a, b)

    def real_of(self, x):
        return to_real(x)

    def int_of(self, x):
        return int_of(x)

    def is_array(self, v):
        return isinstance(v, Arr)

    # ---------------------------------------------------------------- obligations
    def ensure(self, name, c):
        self.ensured.append(name)
        w = self.s.where
        self.s.where = "postcondition"
        n0 = len(self.s.pc)
        self.s.oblige(name, num(c) if not isinstance(c, bool) else z3.BoolVal(c))
        del self.s.pc[n0:]
        self.s.where = w

    def forall(self, name, shape, f):
        ix = [T.fresh_int("x") for _ in shape]
        rng = conj([z3.And(i >= 0, i < int_of(d)) for i, d in zip(ix, shape)])
        self.ensured.append(name)
        n0 = len(self.s.pc)
        self.s.pc.append(rng)
        try:
            body = f(*ix)
            if not self.s.quiet:
                w = self.s.where
                self.s.where = "postcondition"
                self.s.oblige(name, num(body) if not isinstance(body, bool) else z3.BoolVal(body))
                self.s.where = w
        finally:
            del self.s.pc[n0:]

    def same(self, name, a, b):
        """arrays equal (shape and every cell)"""
        if not isinstance(a, Arr) or not isinstance(b, Arr) or a.ndim != b.ndim:
            self.ensure(name, False)
            return
        for x, y in zip(a.shape, b.shape):
            self.ensure(name + " (shape)", int_of(x) == int_of(y))
        fa, fb = a.snap(), b.snap()
        self.forall(name, a.shape, lambda *ix: T.same_sort(fa(*ix), fb(*ix))[0] == T.same_sort(fa(*ix), fb(*ix))[1])

    def has_shape(self, name, a, shape):
        if not isinstance(a, Arr) or a.ndim != len(shape):
            self.ensure(name, False)
            return
        self.ensure(name, conj([int_of(x) == int_of(y) for x, y in zip(a.shape, shape)]))

    def end(self):
        raise PathEnd()


def run_contract(fn, timeout=8000, budget=600, max_paths=4000, prefixes=None, fan=None):
    """explore all paths below the given decision prefixes; returns dict(report).  With fan, stops as soon as that many
    unexplored prefixes are waiting and returns them as rep["work"]."""
    t0 = time.time()
    work = [[]] if prefixes is None else list(prefixes)
    obls, errors = [], []
    ensured, funcs, assumed, inlined = set(), set(), set(), set()
    npaths = 0
    live = 0
    inputs = {}
    while work:
        if fan is not None and len(work) >= fan:
            break
        prefix = work.pop() if fan is None else work.pop(0)
        npaths += 1
        if npaths > max_paths or time.time() - t0 > budget:
            errors.append(("path budget exhausted", "driver", ""))
            work = []
            break
        s = Session(prefix, timeout)
        ip = Interp(s)
        B = Sym(s, ip)
        try:
            fn(B)
            live += 1
        except PathEnd:
            live += 1
        except PyExc as e:
            s.oblige(f"no exception is raised ({e.ecls} {' '.join(str(a) for a in e.eargs)[:80]})", z3.BoolVal(False))
        except Untranslatable as e:
            errors.append((str(e), s.where, ""))
        except (ReturnSig, BreakSig, ContinueSig):
            errors.append(("control flow outside a function", s.where, ""))
        except RecursionError as e:
            errors.append(("recursion limit", s.where, ""))
        except z3.Z3Exception as e:
            errors.append((f"z3: {e}", s.where, traceback.format_exc()[-1500:]))
        except (AttributeError, TypeError, KeyError, AssertionError, IndexError, ValueError) as e:
            errors.append((f"engine: {type(e).__name__}: {e}", s.where, traceback.format_exc()[-1500:]))
        obls.extend(s.obls)
        ensured |= set(B.ensured)
        funcs |= s.used_funcs
        inlined |= s.inlined
        assumed |= s.assumed
        inputs.update(B.inputs)
        work.extend(s.ctxs[0].pending)
        for o in s.obls:
            o.inputs = dict(B.inputs)
        # vacuity: the path condition at the end must not be contradictory
        s.final_pc = list(s.pc)
    return {"obls": obls, "errors": errors, "ensured": ensured, "funcs": funcs, "assumed": assumed,
            "inlined": inlined, "paths": npaths, "live": live, "inputs": inputs, "time": time.time() - t0,
            "work": work}


def distinct(obls):
    done, out = set(), []
    for o in obls:
        key = (o.name, o.goal.get_id(), tuple(h.get_id() for h in o.hyps))
        if key not in done:
            done.add(key)
            out.append(o)
    return out


def discharge_one(o, timeout, deadline, errors, scale=1):
    t1 = time.time()
    o.prover.timeout = timeout
    o.prover.deadline = deadline
    o.prover.scale = scale
    if o.prover.nuniv != o.nuniv or scale > 1:
        o.prover.nuniv = o.nuniv
        o.prover.cache = {}
    try:
        st, m = o.prover.prove(o.hyps, o.goal, 0, 2)
    except (z3.Z3Exception, Untranslatable, AssertionError, RecursionError, AttributeError, IndexError, TypeError) as e:
        st, m = "unknown", None
        errors.append((f"prover: {type(e).__name__}: {e}", o.where, traceback.format_exc()[-1500:]))
    o.status, o.model, o.time = st, m, (getattr(o, "time", 0) or 0) + time.time() - t1


def discharge(rep, timeout=8000, budget=600, per=40, retry=90):
    t0 = time.time()
    out = distinct(rep["obls"])
    for o in out:
        discharge_one(o, timeout, min(t0 + budget, time.time() + per), rep["errors"])
    # a second, slower look at a few of those left open: a busy machine must not decide a proof
    names = set()
    for o in [o for o in out if o.status != "proved"]:
        left = t0 + budget - time.time()
        if left < 20 or len(names) >= 4:
            break
        if o.name in names:
            continue
        st, m = o.status, o.model
        discharge_one(o, timeout * 3, time.time() + min(left, retry), rep["errors"], scale=4)
        if o.status != "proved":
            names.add(o.name)
            if o.status == "unknown" and st == "refuted":
                o.status, o.model = st, m
    return out


def vacuity(rep):
    """some path end must be consistent: False must not follow from the hypotheses of the obligations"""
    tested = 0
    seen = set()
    for o in rep["obls"]:
        k = tuple(h.get_id() for h in o.hyps)
        if k in seen or not o.hyps:
            continue
        seen.add(k)
        st = o.prover.quick_unsat(o.prover.expand(o.hyps, 3, 1), 1500)
        tested += 1
        if not st:
            return True
        if tested > 12:
            break
    return not rep["obls"] or not any(o.hyps for o in rep["obls"])


def model_inputs(o):
    """values for the contract's inputs from a counter-model (best effort; replayed on the real code)"""
    m = o.model
    if m is None:
        return None
    vals = {}

    def ev(t):
        v = m.eval(t, model_completion=True)
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(10).as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None
    try:
        for name, d in o.inputs.items():
            if d[0] in ("int", "real", "bool"):
                vals[name] = ev(d[1])
        import itertools
        for name, d in o.inputs.items():
            if d[0] == "arr":
                sh = [x if isinstance(x, int) else ev(x) for x in d[2]]
                if any(x is None or x < 0 or x > 12 for x in sh):
                    return None
                vals[name] = {"shape": sh, "cells": [ev(num(d[1].get(*[z3.IntVal(q) for q in ix])))
                                                     for ix in itertools.product(*[range(x) for x in sh])]}
        for k, v in vals.items():
            if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 10 ** 6:
                return None
        return vals
    except Exception:
        return None

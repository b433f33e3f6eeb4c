"""numpy model."""
import z3
from . import terms as T
from .terms import (Untranslatable, to_bool, to_real, to_int, num, ite, conj, disj, SUM, ISUM, int_of, lit)
from .values import *


class NP:
    def __init__(self, lib):
        self.lib = lib
        self.s = lib.s

    # ------------------------------------------------------------------ construction
    def shape_of(self, sh):
        sh = self.lib.unbox(sh)
        if is_scalar(sh):
            return (self.dim(sh),)
        items = self.lib.seq_items(sh) if isinstance(sh, (tuple, PList)) else None
        if items is None:
            raise Untranslatable("array shape")
        return tuple(self.dim(x) for x in items)

    def dim(self, x):
        x = self.lib.unbox(x)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if T.is_z3(x) and z3.is_int(x):
            l = lit(x)
            return l if l is not None else x
        raise PyExc("TypeError", ("shape must be integers",))

    def dkind(self, dt, default="real"):
        if dt is None:
            return default
        if isinstance(dt, DType):
            return dt.kind
        n = getattr(dt, "name", None) or (dt if isinstance(dt, str) else None)
        if n in ("int", "int32", "int64"):
            return "int"
        if n in ("bool", "bool_"):
            return "bool"
        if n in ("float", "float32", "float64", "f", "d"):
            return "real"
        raise Untranslatable(f"dtype {dt!r}")

    def full(self, shape, v, dtype=None, **kw):
        sh = self.shape_of(shape)
        k = self.dkind(dtype, None)
        v = self.lib.unbox(v)
        if not is_scalar(v):
            raise Untranslatable("np.full value")
        from .lib import kind_of, conv
        k = k or kind_of(v)
        v = conv(self.lib.cell(v), k)
        return Arr(sh, lambda *ix: v, k)

    def zeros(self, shape, dtype=None, **kw):
        return self.full(shape, {"real": 0.0, "int": 0, "bool": False}[self.dkind(dtype)], dtype or DType("real", "float64"))

    def ones(self, shape, dtype=None, **kw):
        return self.full(shape, {"real": 1.0, "int": 1, "bool": True}[self.dkind(dtype)], dtype or DType("real", "float64"))

    def like(self, a, v, dtype=None):
        a = self.lib.as_arr(a)
        k = self.dkind(dtype, a.kind)
        return self.full(a.shape, v, DType(k, k))

    def array(self, v, dtype=None, copy=True, **kw):
        from .lib import It, kind_of, conv
        v = self.lib.unbox(v)
        if isinstance(v, Arr):
            r = v.freeze()
        elif isinstance(v, MaskSel):
            raise Untranslatable("array of a masked selection")
        elif is_scalar(v):
            r = Arr((), lambda: self.lib.cell(v), kind_of(v))
        elif isinstance(v, (PList, SList, tuple, It, SRange)):
            r = self.stack(v)
        elif isinstance(v, Opaque):
            raise Untranslatable("array of an unknown value")
        else:
            raise Untranslatable(f"np.array of {type(v).__name__}")
        if dtype is not None:
            r = self.astype(r, dtype)
        return r

    def stack(self, v):
        """1 + rank of the elements"""
        from .lib import kind_of, conv, join_kind
        k, a, f = self.lib.iteration(v)
        if k == "concrete":
            items = [self.lib.unbox(x) for x in a]
            if not items:
                return Arr((0,), lambda i: z3.RealVal(0), "real")
            if all(is_scalar(x) for x in items):
                kd = join_kind(*[kind_of(x) for x in items])
                items = [conv(self.lib.cell(x), kd) for x in items]

                def fn(i):
                    li = lit(i)
                    if li is not None and 0 <= li < len(items):
                        return items[li]
                    r = items[-1]
                    for q in range(len(items) - 2, -1, -1):
                        r = ite(i == q, items[q], r)
                    return r
                return Arr((len(items),), fn, kd)
            if any(isinstance(x, (str, Opaque)) for x in items):
                raise Untranslatable("array of strings")
            arrs = [self.array(x) for x in items]
            sh = arrs[0].shape
            for x in arrs[1:]:
                if len(x.shape) != len(sh):
                    raise PyExc("ValueError", ("inhomogeneous shape",))
                for p, q in zip(sh, x.shape):
                    self.lib.require_dim(p, q, "array of rows")
            snaps = [x.snap() for x in arrs]
            kd = join_kind(*[x.kind for x in arrs])

            def fn2(i, *r):
                li = lit(i)
                if li is not None and 0 <= li < len(snaps):
                    return conv(snaps[li](*r), kd)
                t = conv(snaps[-1](*r), kd)
                for q in range(len(snaps) - 2, -1, -1):
                    t = ite(i == q, conv(snaps[q](*r), kd), t)
                return t
            return Arr((len(arrs),) + sh, fn2, kd)
        n = a
        p = T.fresh_int("p")
        e = self.lib.unbox(f(p))
        if isinstance(e, Poison):
            raise Untranslatable(e.why)
        if is_scalar(e):
            kd = kind_of(e)
            return Arr((n,), lambda i: conv(num(self.lib.unbox(f(int_of(i)))), kd), kd)
        if isinstance(e, (PList, tuple, SList)):
            e = self.array(e)
            g = f

            def f(i, g=g):
                return self.array(g(i))
        if isinstance(e, Arr):
            if any(T.is_z3(d) and T.mentions(d, p) for d in e.shape):
                raise Untranslatable("ragged array")
            # a single symbolic element, instantiated by substitution (keeps terms identical)
            ps = [T.fresh_int("q") for _ in e.shape]
            body = num(e.get(*ps))
            return Arr((n,) + e.shape,
                       lambda i, *r: z3.substitute(body, (p, int_of(i)), *[(x, int_of(y)) for x, y in zip(ps, r)]),
                       e.kind)
        raise Untranslatable(f"array of {type(e).__name__}")

    def astype(self, a, dt, copy=True, **kw):
        k = self.dkind(dt, a.kind)
        f = a.snap()
        if k == a.kind:
            return Arr(a.shape, f, k)
        if k == "real":
            return Arr(a.shape, lambda *ix: to_real(f(*ix)), k)
        if k == "int" and a.kind == "bool":
            return Arr(a.shape, lambda *ix: to_int(f(*ix)), k)
        if k == "int":
            return Arr(a.shape, lambda *ix: self.lib.t_int(f(*ix)), k)
        return Arr(a.shape, lambda *ix: to_bool(f(*ix)), k)

    def arange(self, *a, **kw):
        if any(isinstance(x, float) or (T.is_z3(x) and z3.is_real(x)) for x in a):
            raise Untranslatable("arange of reals")
        r = self.lib.b_range(*a)
        return Arr((r.length(),), lambda i: r.item(int_of(i)), "int")

    def linspace(self, a, b, num_=50, **kw):
        n = kw.get("num", num_)
        a, b = to_real(a), to_real(b)
        d = to_real(n) - 1
        return Arr((n,), lambda i: a + z3.ToReal(int_of(i)) * (b - a) / d, "real")

    # ------------------------------------------------------------------ algebra
    def matmul(self, a, b):
        a, b = self.lib.as_arr(a), self.lib.as_arr(b)
        if a.ndim == 0 or b.ndim == 0:
            raise PyExc("ValueError", ("matmul scalar",))
        if a.ndim > 2 or b.ndim > 2:
            raise Untranslatable("matmul of 3-D arrays")
        k = a.shape[-1]
        self.lib.require_dim(k, b.shape[0], "matrix product")
        if lit(k) is None and lit(b.shape[0]) is not None:
            k = b.shape[0]
        fa, fb = a.snap(), b.snap()
        integral = a.kind in ("int", "bool") and b.kind in ("int", "bool")
        S = (lambda n, f: ISUM(n, f)) if integral else SUM
        cv = to_int if integral else to_real
        kd = "int" if integral else "real"
        if a.ndim == 2 and b.ndim == 2:
            return Arr((a.shape[0], b.shape[1]), lambda i, j: S(k, lambda q: cv(fa(i, q)) * cv(fb(q, j))), kd)
        if a.ndim == 1 and b.ndim == 2:
            return Arr((b.shape[1],), lambda j: S(k, lambda q: cv(fa(q)) * cv(fb(q, j))), kd)
        if a.ndim == 2 and b.ndim == 1:
            return Arr((a.shape[0],), lambda i: S(k, lambda q: cv(fa(i, q)) * cv(fb(q))), kd)
        return S(k, lambda q: cv(fa(q)) * cv(fb(q)))

    def dot(self, a, b):
        if is_scalar(a) or is_scalar(b):
            return self.lib.binop("Mult", a, b)
        return self.matmul(a, b)

    def outer(self, a, b):
        a, b = self.ravel(a), self.ravel(b)
        fa, fb = a.snap(), b.snap()
        return Arr((a.shape[0], b.shape[0]), lambda i, j: to_real(fa(i)) * to_real(fb(j)), "real")

    def diagflat(self, v):
        v = self.ravel(v)
        n, f = v.shape[0], v.snap()
        return Arr((n, n), lambda i, j: ite(i == j, to_real(f(i)), z3.RealVal(0)), "real")

    def diag(self, v):
        v = self.lib.as_arr(v)
        if v.ndim == 1:
            return self.diagflat(v)
        self.lib.require_dim(v.shape[0], v.shape[1], "diag")
        f = v.snap()
        return Arr((v.shape[0],), lambda i: f(i, i), v.kind)

    def transpose(self, a):
        return self.lib.as_arr(a).T

    def ravel(self, a):
        a = self.lib.as_arr(a)
        if a.ndim == 1:
            return a.freeze()
        if a.ndim == 0:
            f = a.snap()
            return Arr((1,), lambda i: f(), a.kind)
        return self.reshape(a, (-1,))

    def size(self, a):
        a = self.lib.as_arr(a)
        t = 1
        for d in a.shape:
            if t == 1 and not T.is_z3(t):
                t = d
            elif lit(d) == 1:
                pass
            else:
                t = int_of(t) * int_of(d)
        return t

    def reshape(self, a, *sh, **kw):
        a = self.lib.as_arr(a)
        if len(sh) == 1 and isinstance(sh[0], (tuple, PList)):
            sh = tuple(self.lib.seq_items(sh[0]))
        sh = [self.lib.unbox(x) for x in sh]
        f = a.snap()
        if a.ndim == 1:
            n = a.shape[0]
            if len(sh) == 1:
                return Arr((n,), base=a, kind=a.kind, imap=lambda i: (i,), inv=lambda i: (True, (i,)))
            if len(sh) == 2:
                x, y = sh
                if lit(y) == 1:
                    if lit(x) != -1:
                        self.lib.require_dim(x, n, "reshape")
                    return Arr((n, 1), base=a, kind=a.kind, imap=lambda i, j: (i,),
                               inv=lambda i: (True, (i, z3.IntVal(0))))
                if lit(x) == 1:
                    if lit(y) != -1:
                        self.lib.require_dim(y, n, "reshape")
                    return Arr((1, n), base=a, kind=a.kind, imap=lambda i, j: (j,),
                               inv=lambda j: (True, (z3.IntVal(0), j)))
        if a.ndim == 2 and len(sh) == 1:
            for ax in (0, 1):
                if lit(a.shape[ax]) == 1:
                    n = a.shape[1 - ax]
                    if lit(sh[0]) != -1:
                        self.lib.require_dim(sh[0], n, "reshape")
                    if ax == 0:
                        return Arr((n,), lambda i: f(z3.IntVal(0), i), a.kind)
                    return Arr((n,), lambda i: f(i, z3.IntVal(0)), a.kind)
            m, n = int_of(a.shape[0]), int_of(a.shape[1])
            tot = m * n
            return Arr((tot,), lambda i: f(i / n, i % n), a.kind)
        if len(sh) == a.ndim and all(self.lib.same_dim(x, y) for x, y in zip(sh, a.shape)):
            return a.freeze()
        raise Untranslatable("reshape")

    def squeeze(self, a, axis=None):
        a = self.lib.as_arr(a)
        for ax in range(a.ndim):
            if lit(a.shape[ax]) == 1:
                return self.squeeze(row_view(a, z3.IntVal(0), ax))
        return a

    # ------------------------------------------------------------------ reductions
    def reduce(self, a, axis, S):
        """S(n, body) over one axis or all"""
        a = self.lib.as_arr(a)
        f = a.snap()
        axis = lit(axis) if axis is not None else None
        if axis is None:
            if a.ndim == 1:
                return S(a.shape[0], lambda i: f(i))
            if a.ndim == 2:
                return S(a.shape[0], lambda i: S(a.shape[1], lambda j: f(i, j)))
            if a.ndim == 3:
                return S(a.shape[0], lambda i: S(a.shape[1], lambda j: S(a.shape[2], lambda k: f(i, j, k))))
            if a.ndim == 0:
                return f()
            raise Untranslatable("reduction")
        if axis < 0:
            axis += a.ndim
        if axis >= a.ndim:
            raise PyExc("ValueError", ("axis",))
        sh = a.shape[:axis] + a.shape[axis + 1:]

        def fn(*ix):
            return S(a.shape[axis], lambda q: f(*(ix[:axis] + (q,) + ix[axis:])))
        if not sh:
            return fn()
        ps = [T.fresh_int("p") for _ in sh]
        from .lib import kind_of
        return Arr(sh, fn, kind_of(num(fn(*ps))))

    def keepdims(self, r, a, axis, kd):
        if not kd:
            return r
        a = self.lib.as_arr(a)
        if axis is None:
            return Arr(tuple(1 for _ in a.shape), lambda *ix: num(r), "real")
        axis = lit(axis) % a.ndim
        if not isinstance(r, Arr):
            return Arr((1,), lambda i: num(r), "real")
        f = r.snap()
        return Arr(a.shape[:axis] + (1,) + a.shape[axis + 1:], lambda *ix: f(*(ix[:axis] + ix[axis + 1:])), r.kind)

    def sum(self, a, axis=None, keepdims=False, **kw):
        a = self.lib.unbox(a)
        if isinstance(a, MaskSel):
            return self.mask_sum(a)
        if is_scalar(a):
            return a
        a = self.lib.as_arr(a)
        if a.kind == "real":
            r = self.reduce(a, axis, lambda n, f: SUM(n, lambda i: to_real(f(i))))
        elif a.kind == "bool":
            def S(n, f):
                p = T.fresh_int("p")
                if z3.is_bool(num(f(p))):
                    return T.ICOUNT(n, lambda i: to_bool(f(i)))
                return ISUM(n, lambda i: to_int(f(i)))
            r = self.reduce(a, axis, S)
        else:
            r = self.reduce(a, axis, lambda n, f: ISUM(n, lambda i: to_int(f(i))))
        return self.keepdims(r, a, axis, keepdims)

    def mask_sum(self, m):
        a = Arr(m.shape, lambda *ix: ite(to_bool(m.mask(*ix)), to_real(m.val(*ix)), z3.RealVal(0)), "real")
        if m.kind == "bool":
            return self.lib.nd_count(m.shape, lambda *ix: conj([to_bool(m.mask(*ix)), to_bool(m.val(*ix))]))
        return self.sum(a)

    def count_real(self, a, axis):
        a = self.lib.as_arr(a)
        if axis is None:
            return to_real(self.size(a))
        return to_real(a.shape[lit(axis) if lit(axis) >= 0 else lit(axis) + a.ndim])

    def mean(self, a, axis=None, keepdims=False, **kw):
        a = self.lib.unbox(a)
        if isinstance(a, MaskSel):
            return self.mask_sum(a) / to_real(self.lib.mask_count(a))
        if is_scalar(a):
            return to_real(a)
        a = self.lib.as_arr(a)
        if a.kind != "real":
            a = self.astype(a, DType("real", "float64"))
        n = self.count_real(a, axis)
        s = self.sum(a, axis)
        return self.keepdims(self.lib.binop("Div", s, n), a, axis, keepdims)

    def var(self, a, axis=None, ddof=0, **kw):
        a = self.lib.as_arr(a)
        mu = self.mean(a, axis, keepdims=True) if axis is not None else self.mean(a)
        d = self.lib.binop("Sub", a, mu)
        return self.lib.binop("Div", self.sum(self.lib.binop("Mult", d, d), axis),
                              self.lib.binop("Sub", self.count_real(a, axis), ddof))

    def std(self, a, axis=None, ddof=0, **kw):
        return self.sqrt(self.var(a, axis, ddof))

    def reduce_all(self, kind, a, axis=None):
        a = self.lib.unbox(a)
        if is_scalar(a):
            return a
        if isinstance(a, MaskSel):
            raise Untranslatable("min/max of masked selection")
        a = self.lib.as_arr(a)
        f = T.MAX if kind == "MAX" else T.MIN
        if a.kind == "bool":
            a = self.astype(a, DType("int", "int64"))
        if a.kind == "int":
            # order reductions are over the reals; convert back is exact
            r = self.reduce(a, axis, lambda n, g: f(n, lambda i: to_real(g(i))))
            if isinstance(r, Arr):
                sn = r.snap()
                return Arr(r.shape, lambda *ix: z3.ToInt(sn(*ix)), "int")
            return z3.ToInt(r)
        return self.reduce(a, axis, lambda n, g: f(n, lambda i: to_real(g(i))))

    def argred(self, kind, a, axis=None):
        a = self.lib.as_arr(a)
        f = T.ARGMAX if kind == "MAX" else T.ARGMIN
        if axis is None and a.ndim > 1:
            a = self.ravel(a)
        return self.reduce(a, axis, lambda n, g: f(n, lambda i: to_real(g(i))))

    def anyall(self, a, which, axis=None):
        a = self.lib.unbox(a)
        if is_scalar(a):
            return to_bool(a) if T.is_z3(a) else bool(a)
        if isinstance(a, MaskSel):
            m = a
            a = Arr(m.shape, lambda *ix: conj([to_bool(m.mask(*ix)), to_bool(m.val(*ix))]) if which == "any" else
                    disj([z3.Not(to_bool(m.mask(*ix))), to_bool(m.val(*ix))]), "bool")
        a = self.lib.as_arr(a)
        g = T.ANY if which == "any" else T.ALL
        return self.reduce(a, axis, lambda n, f: g(n, lambda i: to_bool(f(i))))

    def cumsum(self, a, axis=None):
        a = self.lib.as_arr(a)
        if a.ndim != 1:
            raise Untranslatable("cumsum")
        f = a.snap()
        return Arr(a.shape, lambda i: SUM(z3.simplify(int_of(i) + 1), lambda q: to_real(f(q))), "real")

    # ------------------------------------------------------------------ elementwise
    def e1(self, f):
        return lambda x, *a, **k: self.lib.lift(f, x)

    def sqrt(self, x, **kw):
        def f(v):
            if not T.is_z3(v):
                import math
                if v >= 0:
                    r = math.isqrt(int(v)) if v == int(v) else None
                    if r is not None and r * r == v:
                        return float(r)
            return T.sqrt(v)
        return self.lib.lift(f, x)

    def fun1(self, name, x):
        f = T.ufun(name, T.R, T.R)
        return self.lib.lift(lambda v: f(to_real(v)), x)

    def isnan(self, x):
        def f(v):
            if not T.is_z3(v):
                return z3.BoolVal(v != v)
            v = to_real(v)
            if z3.is_rational_value(v):
                return z3.BoolVal(False)
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                return z3.If(v.arg(0), f(v.arg(1)), f(v.arg(2)))
            return T.ISNAN(v)
        return self.lib.lift(f, x)

    def round_(self, x, n=0, **kw):
        n = kw.get("decimals", kw.get("ndigits", n))
        n = lit(n) if T.is_z3(n) else n

        def f(v):
            if not T.is_z3(v):
                if isinstance(v, Opaque):
                    return Opaque("round", (v,))
                r = round(v, n) if n else round(v)
                return r
            if z3.is_int(v) and n >= 0:
                return v
            return T.ROUND(to_real(v), z3.IntVal(n))
        return self.lib.lift(f, x)

    def floor_int(self, x):
        x = self.lib.unbox(x)
        if not T.is_z3(x):
            import math
            return math.floor(x)
        return x if z3.is_int(x) else z3.ToInt(x)

    def ceil_int(self, x):
        x = self.lib.unbox(x)
        if not T.is_z3(x):
            import math
            return math.ceil(x)
        return x if z3.is_int(x) else -z3.ToInt(-x)

    def where(self, c, *ab):
        if not ab:
            raise Untranslatable("np.where with one argument")
        from .lib import kind_of, join_kind, conv
        a, b = ab
        kd = join_kind(kind_of(self.lib.unbox(a)), kind_of(self.lib.unbox(b)))
        return self.lib.lift(lambda x, y, z: ite(to_bool(x), conv(self.lib.cell(y), kd), conv(self.lib.cell(z), kd)),
                             c, a, b, kind=kd)

    def minmax2(self, which, a, b):
        return self.lib.lift(lambda x, y: ite(self.lib.rel("LtE" if which == "min" else "GtE", x, y), x, y), a, b)

    def clip(self, a, lo=None, hi=None, **kw):
        lo = kw.get("a_min", lo)
        hi = kw.get("a_max", hi)
        if lo is not None:
            a = self.minmax2("max", a, lo)
        if hi is not None:
            a = self.minmax2("min", a, hi)
        return a

    def concat(self, seq, axis=0):
        items = self.lib.seq_items(seq) if isinstance(seq, (tuple, PList)) else None
        if items is None:
            raise Untranslatable("concatenate of a symbolic list")
        arrs = [self.lib.as_arr(x) for x in items]
        axis = lit(axis)
        r = arrs[0]
        from .lib import join_kind, conv
        for b in arrs[1:]:
            if r.ndim != b.ndim:
                raise PyExc("ValueError", ("dimensions",))
            for d in range(r.ndim):
                if d != axis:
                    self.lib.require_dim(r.shape[d], b.shape[d], "concatenate")
            fa, fb, n0 = r.snap(), b.snap(), int_of(r.shape[axis])
            kd = join_kind(r.kind, b.kind)

            def fn(*ix, fa=fa, fb=fb, n0=n0, kd=kd):
                return ite(z3.simplify(int_of(ix[axis]) < n0), conv(fa(*ix), kd),
                           conv(fb(*(ix[:axis] + (z3.simplify(int_of(ix[axis]) - n0),) + ix[axis + 1:])), kd))
            n = z3.simplify(n0 + int_of(b.shape[axis]))
            n = lit(n) if lit(n) is not None else n
            r = Arr(r.shape[:axis] + (n,) + r.shape[axis + 1:], fn, kd)
        return r.freeze()

    def hstack(self, seq):
        items = self.lib.seq_items(seq)
        if items is None:
            raise Untranslatable("hstack")
        a = [self.lib.as_arr(x) for x in items]
        return self.concat(PList(a), 0 if a[0].ndim == 1 else 1)

    def vstack(self, seq):
        items = self.lib.seq_items(seq) if isinstance(seq, (tuple, PList)) else None
        if items is None:
            raise Untranslatable("vstack")
        a = [self.lib.as_arr(x) for x in items]
        a = [self.lib.insert_axis(x, 0) if x.ndim == 1 else x for x in a]
        return self.concat(PList(a), 0)

    def np_stack(self, seq, axis=0):
        r = self.stack(seq)
        if lit(axis) in (0, None):
            return r
        if lit(axis) in (1, -1) and r.ndim == 2:
            return r.T
        raise Untranslatable("np.stack axis")

    def corrcoef(self, x, y=None, **kw):
        if y is None:
            x = self.lib.as_arr(x)
            self.lib.require_dim(x.shape[0], 2, "corrcoef")
            x, y = row_view(x, z3.IntVal(0)), row_view(x, z3.IntVal(1))
        x, y = self.lib.as_arr(x), self.lib.as_arr(y)
        if x.ndim == 2 and (lit(x.shape[0]) == 1):
            x = row_view(x, z3.IntVal(0))
        if y.ndim == 2 and (lit(y.shape[0]) == 1):
            y = row_view(y, z3.IntVal(0))
        if x.ndim != 1 or y.ndim != 1:
            raise Untranslatable("corrcoef of matrices")
        self.lib.require_dim(x.shape[0], y.shape[0], "corrcoef")
        c = corr(x.shape[0], x.snap(), y.snap())
        return Arr((2, 2), lambda i, j: ite(z3.simplify(int_of(i) == int_of(j)), z3.RealVal(1), c), "real")

    # ------------------------------------------------------------------ linear algebra
    def linalg(self, name):
        def square(a):
            a = self.lib.as_arr(a)
            self.lib.require_dim(a.shape[0], a.shape[1], "square matrix")
            return a

        def lam2(a):
            f = a.snap()
            lam, _ = T.lam_of(2, lambda i, j: to_real(f(i, j)))
            return lam

        def det(a):
            a = square(a)
            return T.functional("DET", 2, T.R, T.R)(lam2(a), int_of(a.shape[0]), int_of(a.shape[0]))

        def inv_like(kind):
            def f(a):
                a = square(a)
                lam = lam2(a)
                F = T.functional(kind, 2, T.R, T.R, (T.I, T.I))
                n = int_of(a.shape[0])
                return Arr(a.shape, lambda i, j: F(lam, n, n, int_of(i), int_of(j)), "real")
            return f

        def solve(a, b):
            ai = inv_like("INV")(a)
            return self.matmul(ai, b)

        def norm(a, ord=None, axis=None):
            if ord is not None:
                raise Untranslatable("norm order")
            a = self.lib.as_arr(a)
            return self.sqrt(self.sum(self.lib.binop("Mult", a, a), axis))
        t = {"det": det, "inv": inv_like("INV"), "pinv": inv_like("PINV"), "solve": solve, "norm": norm}
        if name in t:
            return Builtin(t[name], "linalg." + name)
        if name == "LinAlgError":
            return Builtin(lambda *a: PyExc("LinAlgError", a), "LinAlgError")
        raise Untranslatable(f"linalg.{name}")

    # ------------------------------------------------------------------ random
    def random(self, name):
        if name == "default_rng":
            return Builtin(self.default_rng, "default_rng")
        raise Untranslatable(f"np.random.{name} (global random state)")

    def default_rng(self, seed=None):
        if seed is None:
            sd = self.s.sym("entropy", T.I)
        elif isinstance(seed, Obj) and seed.cls == "Rng":
            return seed
        else:
            seed = self.lib.unbox(seed)
            if isinstance(seed, Opaque):
                sd = self.s.sym("seed", T.I)
            elif isinstance(seed, float) or (T.is_z3(seed) and z3.is_real(seed)):
                raise PyExc("TypeError", ("seed must be an integer",))
            elif not is_scalar(seed):
                raise Untranslatable("rng seed")
            else:
                sd = to_int(seed)
        return Obj("Rng", {"seed": sd, "cnt": z3.IntVal(0)})

    def rng_attr(self, o, name):
        def draw(kind, size, params=(), post=None, sort=T.R, axiom=None):
            cnt = o.attrs["cnt"]
            self.s.set_attr(o, "cnt", z3.simplify(cnt + 1))
            size = self.lib.unbox(size) if size is not None else None
            sh = () if size is None else self.shape_of(size)
            ps = [to_real(p) for p in params]
            f = T.ufun("RNG_" + kind + str(len(sh)), T.I, T.I, *([T.R] * len(ps)), *([T.I] * (2 * len(sh))), sort)
            if axiom is not None:
                nps = len(ps)
                self.s.facts.elem[f.name()] = [lambda *a: axiom(f(*a), *a[2:2 + nps])]
            sd = o.attrs["seed"]
            dims = [int_of(d) for d in sh]

            def fn(*ix):
                return f(sd, cnt, *ps, *dims, *[int_of(i) for i in ix])
            if not sh:
                return fn()
            return Arr(sh, fn, "int" if sort == T.I else "real")

        def normal(loc=0.0, scale=1.0, size=None):
            if not is_scalar(loc) or not is_scalar(scale):
                loc, scale = self.lib.unbox(loc), self.lib.unbox(scale)
            if isinstance(loc, Arr) or isinstance(scale, Arr):
                # documented: loc + scale * standard normal, elementwise
                sh = size
                if sh is None:
                    shp = self.lib.broadcast([x.shape for x in (loc, scale) if isinstance(x, Arr)])
                    sh = tuple(shp)
                z = draw("normal", sh, (0.0, 1.0))
                return self.lib.binop("Add", self.lib.binop("Mult", z, scale), loc)
            return draw("normal", size, (loc, scale))

        def integers(low, high=None, size=None, dtype=None, endpoint=False):
            if high is None:
                low, high = 0, low
            low, high = self.lib.unbox(low), self.lib.unbox(high)
            for x in (low, high):
                if isinstance(x, float) or (T.is_z3(x) and z3.is_real(x)):
                    low, high = to_real(low), to_real(high)
            hi = self.lib.binop("Add", high, 1) if endpoint else high
            c = to_real(low) < to_real(hi)
            if not self.s.entails(c):
                if not self.s.decide(c):
                    raise PyExc("ValueError", ("low >= high",))
            return draw("integers", size, (low, hi), sort=T.I,
                        axiom=lambda v, lo, h: z3.And(z3.ToReal(v) >= lo, z3.ToReal(v) < h))

        def uniform(low=0.0, high=1.0, size=None):
            return draw("uniform", size, (low, high),
                        axiom=lambda v, lo, h: z3.Implies(lo <= h, z3.And(v >= lo, v <= h)))

        def lognormal(mean=0.0, sigma=1.0, size=None):
            if not is_scalar(mean) or not is_scalar(sigma):
                mean, sigma = self.lib.unbox(mean), self.lib.unbox(sigma)
            return draw("lognormal", size, (mean, sigma), axiom=lambda v, mu, sg: v > 0)

        def random_(size=None, dtype=None):
            return draw("random", size, (), axiom=lambda v: z3.And(v >= 0, v < 1))

        def choice(a, size=None, replace=True, p=None, axis=0, shuffle=True):
            a = self.lib.unbox(a)
            n = a if is_scalar(a) else self.lib.length(a)
            tag = "choice" + ("" if replace in (True,) else "_norepl") + ("" if p is None else "_p")
            idx = draw(tag, size, (n,), sort=T.I, axiom=lambda v, m: z3.And(v >= 0, z3.ToReal(v) < m))
            if is_scalar(a):
                return idx
            if is_scalar(idx):
                return self.lib.raw_index(a, idx) if isinstance(a, PList) else self.lib.getitem(a, idx)
            if not isinstance(a, Arr):
                a = self.array(a)
            f, g = a.snap(), idx.snap()
            return Arr(idx.shape, lambda *ix: f(g(*ix)), a.kind)

        def permutation(n):
            raise Untranslatable("rng.permutation")
        t = {"normal": normal, "standard_normal": lambda size=None, **k: normal(0.0, 1.0, size), "integers": integers,
             "uniform": uniform, "random": random_, "lognormal": lognormal, "choice": choice, "permutation": permutation}
        if name in t:
            return Builtin(t[name], "rng." + name)
        raise Untranslatable(f"rng.{name}")

    # ------------------------------------------------------------------ module
    def module_attr(self, name):
        L = self.lib
        if name in ("linalg", "random"):
            return Mod("numpy." + name)
        if name == "pi":
            return 3.141592653589793
        if name in ("inf", "Inf"):
            return float("inf")
        if name in ("nan", "NaN"):
            return float("nan")
        if name == "newaxis":
            return None
        if name == "ndarray":
            from .lib import NDARRAY
            return NDARRAY
        if name in ("float64", "float32", "float16", "int64", "int32", "bool_"):
            k = "real" if name.startswith("float") else ("int" if name.startswith("int") else "bool")
            return Builtin({"real": L.t_float, "int": L.t_int, "bool": L.t_bool}[k], name)
        if name in ("generic", "floating", "integer", "number"):
            from .lib import TypeV
            return TypeV(name)
        if name == "errstate":
            return Builtin(lambda *a, **k: Opaque("errstate"), "errstate")
        if name in ("seterr", "savetxt", "set_printoptions", "save"):
            return Builtin(lambda *a, **k: None, name)

        def bin2(op):
            return lambda a, b, *x, **k: L.binop(op, self.coerce(a), self.coerce(b))
        t = {
            "array": self.array, "asarray": lambda v, dtype=None, **k: v if isinstance(v, Arr) and dtype is None else
            self.array(v, dtype), "zeros": self.zeros, "ones": self.ones, "full": self.full, "empty": self.zeros,
            "zeros_like": lambda a, dtype=None, **k: self.like(a, 0, dtype),
            "ones_like": lambda a, dtype=None, **k: self.like(a, 1, dtype),
            "full_like": lambda a, v, dtype=None, **k: self.like(a, v, dtype),
            "empty_like": lambda a, dtype=None, **k: self.like(a, 0, dtype),
            "arange": self.arange, "linspace": self.linspace, "matmul": self.matmul, "dot": self.dot,
            "outer": self.outer, "diagflat": self.diagflat, "diag": self.diag, "transpose": self.transpose,
            "ravel": self.ravel, "reshape": self.reshape, "squeeze": self.squeeze, "size": self.size,
            "multiply": bin2("Mult"), "divide": bin2("Div"), "true_divide": bin2("Div"), "subtract": bin2("Sub"),
            "add": bin2("Add"), "power": bin2("Pow"), "square": lambda a, **k: L.binop("Mult", self.coerce(a), self.coerce(a)),
            "mod": bin2("Mod"), "floor_divide": bin2("FloorDiv"), "negative": lambda a: L.unop("USub", self.coerce(a)),
            "greater": lambda a, b: L.compare("Gt", self.coerce(a), self.coerce(b)),
            "less": lambda a, b: L.compare("Lt", self.coerce(a), self.coerce(b)),
            "equal": lambda a, b: L.compare("Eq", self.coerce(a), self.coerce(b)),
            "logical_not": lambda a: L.unop("Invert", a),
            "logical_and": lambda a, b: L.lift(lambda x, y: z3.And(to_bool(x), to_bool(y)), a, b),
            "logical_or": lambda a, b: L.lift(lambda x, y: z3.Or(to_bool(x), to_bool(y)), a, b),
            "sum": self.sum, "nansum": self.sum, "mean": self.mean, "average": self.mean, "std": self.std, "var": self.var,
            "prod": lambda a: self.reduce(a, None, lambda n, f: T.red("PROD", n, lambda i: to_real(f(i)))),
            "min": lambda a, axis=None, **k: self.reduce_all("MIN", a, axis),
            "max": lambda a, axis=None, **k: self.reduce_all("MAX", a, axis),
            "amin": lambda a, axis=None, **k: self.reduce_all("MIN", a, axis),
            "amax": lambda a, axis=None, **k: self.reduce_all("MAX", a, axis),
            "nanmin": lambda a, axis=None, **k: self.reduce_all("MIN", a, axis),
            "nanmax": lambda a, axis=None, **k: self.reduce_all("MAX", a, axis),
            "argmin": lambda a, axis=None: self.argred("MIN", a, axis),
            "argmax": lambda a, axis=None: self.argred("MAX", a, axis),
            "nanargmax": lambda a, axis=None: self.argred("MAX", a, axis),
            "nanargmin": lambda a, axis=None: self.argred("MIN", a, axis),
            "any": lambda a, axis=None, **k: self.anyall(a, "any", axis),
            "all": lambda a, axis=None, **k: self.anyall(a, "all", axis),
            "cumsum": self.cumsum, "count_nonzero": lambda a: self.count_nonzero(a),
            "sqrt": self.sqrt, "abs": lambda x, **k: L.lift(lambda v: T.absv(v) if T.is_z3(v) else abs(v), x),
            "absolute": lambda x, **k: L.lift(lambda v: T.absv(v) if T.is_z3(v) else abs(v), x),
            "fabs": lambda x, **k: L.lift(lambda v: T.absv(to_real(v)), x),
            "exp": lambda x: self.fun1("EXP", x), "log": lambda x: self.fun1("LOG", x),
            "log10": lambda x: self.fun1("LOG10", x), "log2": lambda x: self.fun1("LOG2", x),
            "sin": lambda x: self.fun1("SIN", x), "cos": lambda x: self.fun1("COS", x),
            "isnan": self.isnan, "isfinite": lambda x: L.lift(lambda v: z3.Not(self.isnan(v)), x),
            "isinf": lambda x: L.lift(lambda v: z3.BoolVal(False), x),
            "round": self.round_, "around": self.round_,
            "floor": lambda x: L.lift(lambda v: to_real(self.floor_int(v)), x),
            "ceil": lambda x: L.lift(lambda v: to_real(self.ceil_int(v)), x),
            "where": self.where, "minimum": lambda a, b: self.minmax2("min", a, b),
            "maximum": lambda a, b: self.minmax2("max", a, b), "clip": self.clip,
            "concatenate": self.concat, "hstack": self.hstack, "vstack": self.vstack, "stack": self.np_stack,
            "column_stack": lambda x: self.np_stack(x, 1),
            "corrcoef": self.corrcoef, "copy": lambda a, **k: L.as_arr(a).freeze(),
            "isclose": self.isclose, "allclose": lambda a, b, **k: self.anyall(self.isclose(a, b, **k), "all"),
            "array_equal": self.array_equal, "percentile": self.percentile, "quantile": self.quantile,
            "median": lambda a, axis=None: self.quantile(a, 0.5, axis), "shape": lambda a: L.as_arr(a).shape,
            "tile": self.tile, "expand_dims": lambda a, axis: L.insert_axis(L.as_arr(a), lit(axis) % (L.as_arr(a).ndim + 1)),
            "append": lambda a, b, axis=None: self.concat(PList([L.as_arr(a), L.insert_axis(L.as_arr(b), 0) if
                                                                 L.as_arr(b).ndim == 0 else L.as_arr(b)]), 0),
            "unique": self.unique, "nan_to_num": self.nan_to_num, "ndim": lambda a: L.as_arr(a).ndim,
            "eye": lambda n, **k: self.diagflat(self.ones(n)), "identity": lambda n: self.diagflat(self.ones(n)),
            "einsum": self.einsum,
        }
        if name in t:
            return Builtin(t[name], "np." + name)
        raise Untranslatable(f"numpy.{name}")

    def coerce(self, a):
        a = self.lib.unbox(a)
        if isinstance(a, (PList, tuple)):
            return self.array(a)
        if a is None:
            raise PyExc("TypeError", ("None operand",))
        return a

    def einsum(self, spec, *ops):
        """explicit-output contractions of up to two 1/2-D operands"""
        if not isinstance(spec, str) or "->" not in spec:
            raise Untranslatable("einsum")
        ins, out = spec.replace(" ", "").split("->")
        ins = ins.split(",")
        arrs = [self.lib.as_arr(o) for o in ops]
        dims, order = {}, []
        for lab, a in zip(ins, arrs):
            if len(lab) != a.ndim:
                raise PyExc("ValueError")
            for c, d in zip(lab, a.shape):
                if c in dims:
                    self.lib.require_dim(dims[c], d, "einsum")
                else:
                    dims[c] = d
                    order.append(c)
        red = [c for c in order if c not in out]
        snaps = [a.snap() for a in arrs]

        def fn(*ix):
            env = dict(zip(out, ix))

            def go(rest):
                if not rest:
                    t = None
                    for lab, f in zip(ins, snaps):
                        v = to_real(f(*[env[c] for c in lab]))
                        t = v if t is None else t * v
                    return t

                def body(q):
                    env[rest[0]] = q
                    return go(rest[1:])
                return SUM(dims[rest[0]], body)
            return go(red)
        if not out:
            return fn()
        return Arr(tuple(dims[c] for c in out), fn, "real")

    def unique(self, a, **kw):
        raise Untranslatable("np.unique")

    def nan_to_num(self, a, **kw):
        nan = kw.get("nan", 0.0)
        return self.lib.lift(lambda v: ite(self.isnan(v), to_real(nan), to_real(v)), a)

    def count_nonzero(self, a):
        a = self.lib.unbox(a)
        if isinstance(a, MaskSel):
            return self.lib.nd_count(a.shape, lambda *ix: conj([to_bool(a.mask(*ix)), to_bool(a.val(*ix))]))
        a = self.lib.as_arr(a)
        f = a.snap()
        return self.lib.nd_count(a.shape, lambda *ix: to_bool(f(*ix)))

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **kw):
        return self.lib.lift(lambda x, y: T.absv(to_real(x) - to_real(y)) <= to_real(atol) +
                             to_real(rtol) * T.absv(to_real(y)), a, b)

    def array_equal(self, a, b):
        a, b = self.lib.as_arr(a), self.lib.as_arr(b)
        if a.ndim != b.ndim:
            return False
        if not all(self.lib.same_dim(x, y) for x, y in zip(a.shape, b.shape)):
            raise Untranslatable("array_equal of unequal shapes")
        return self.anyall(self.lib.compare("Eq", a, b), "all")

    def percentile(self, a, q, axis=None, **kw):
        if isinstance(q, (PList, tuple)):
            items = self.lib.seq_items(q)
            return self.stack(PList([self.quantile(a, self.lib.binop("Div", x, 100), axis) for x in items]))
        return self.quantile(a, self.lib.binop("Div", q, 100), axis)

    def quantile(self, a, q, axis=None, **kw):
        a = self.lib.as_arr(a)
        qq = to_real(q)
        if axis is None and a.ndim > 1:
            a = self.ravel(a)

        def S(n, f):
            lam, _ = T.lam_of(1, lambda i: to_real(f(i)))
            return T.functional("PCTL", 1, T.R, T.R, (T.R,))(lam, int_of(n), qq)
        return self.reduce(a, axis, S)

    def tile(self, a, reps):
        a = self.lib.as_arr(a)
        reps = self.shape_of(reps)
        if a.ndim == 1 and len(reps) == 2 and lit(reps[1]) == 1:
            f = a.snap()
            return Arr((reps[0], a.shape[0]), lambda i, j: f(j), a.kind)
        raise Untranslatable("np.tile")

    def arr_attr(self, a, name):
        L = self.lib
        if name == "shape":
            return tuple(a.shape)
        if name == "T":
            return a.T
        if name == "ndim":
            return a.ndim
        if name == "size":
            return self.size(a)
        if name == "dtype":
            return DType(a.kind, a.kind)
        if name == "values":
            raise PyExc("AttributeError", (name,))

        def red(f):
            return lambda axis=None, **k: f(a, axis, **k)

        def copy_(*x, **k):
            return a.freeze()

        def fill(v):
            c = L.cell(v)
            self.s.write_arr(a, lambda *ix: True, lambda *ix: c)

        def item(*ix):
            if ix:
                return L.arr_get(a, ix)
            return a.get(*[z3.IntVal(0)] * a.ndim)

        def tolist():
            if a.ndim == 1:
                sn = a.snap()
                return PList([], SList(a.shape[0], lambda i: sn(int_of(i)))) if lit(a.shape[0]) is None else \
                    PList([sn(z3.IntVal(i)) for i in range(lit(a.shape[0]))])
            raise Untranslatable("tolist of a matrix")
        t = {"astype": lambda dt, **k: self.astype(a, dt), "copy": copy_, "flatten": lambda *x, **k: self.ravel(a),
             "ravel": lambda *x, **k: self.ravel(a), "reshape": lambda *x, **k: self.reshape(a, *x),
             "sum": red(self.sum), "mean": red(self.mean), "std": red(self.std), "var": red(self.var),
             "min": red(lambda x, ax, **k: self.reduce_all("MIN", x, ax)),
             "max": red(lambda x, ax, **k: self.reduce_all("MAX", x, ax)),
             "argmin": red(lambda x, ax: self.argred("MIN", x, ax)),
             "argmax": red(lambda x, ax: self.argred("MAX", x, ax)),
             "any": red(lambda x, ax: self.anyall(x, "any", ax)), "all": red(lambda x, ax: self.anyall(x, "all", ax)),
             "dot": lambda b: self.dot(a, b), "transpose": lambda *x: a.T, "tolist": tolist, "fill": fill,
             "item": item, "squeeze": lambda *x: self.squeeze(a), "round": lambda n=0, **k: self.round_(a, n, **k),
             "clip": lambda *x, **k: self.clip(a, *x, **k), "cumsum": lambda *x: self.cumsum(a),
             "diagonal": lambda: self.diag(a)}
        if name in t:
            return Builtin(t[name], "ndarray." + name)
        raise PyExc("AttributeError", (name,))

    def mask_attr(self, m, name):
        t = {"sum": lambda *a: self.mask_sum(m), "mean": lambda *a: self.mean(m),
             "any": lambda: self.anyall(m, "any"), "all": lambda: self.anyall(m, "all")}
        if name in t:
            return Builtin(t[name], name)
        if name == "size":
            return self.lib.mask_count(m)
        if name == "shape":
            return (self.lib.mask_count(m),)
        raise Untranslatable(f"{name} of a masked selection")

    def scalar_attr(self, v, name):
        t = {"astype": lambda dt, **k: {"real": self.lib.t_float, "int": self.lib.t_int, "bool": self.lib.t_bool}[
            self.dkind(dt)](v), "item": lambda: v, "mean": lambda *a: v, "sum": lambda *a: v, "max": lambda *a: v,
             "min": lambda *a: v, "copy": lambda: v, "tolist": lambda: v, "is_integer": None,
             "round": lambda n=0: self.round_(v, n)}
        if t.get(name):
            return Builtin(t[name], name)
        if name == "shape":
            return ()
        if name == "dtype":
            from .lib import kind_of
            return DType(kind_of(v), kind_of(v))
        if name == "ndim":
            return 0
        raise PyExc("AttributeError", (name,))


def corr(n, f, g):
    """Pearson correlation by definition"""
    nn = to_real(n)
    mf = SUM(n, lambda i: to_real(f(i))) / nn
    mg = SUM(n, lambda i: to_real(g(i))) / nn
    cov = SUM(n, lambda i: (to_real(f(i)) - mf) * (to_real(g(i)) - mg))
    vf = SUM(n, lambda i: (to_real(f(i)) - mf) * (to_real(f(i)) - mf))
    vg = SUM(n, lambda i: (to_real(g(i)) - mg) * (to_real(g(i)) - mg))
    return cov / (T.sqrt(vf) * T.sqrt(vg))

"""Model of the Python builtins and of the numpy (and a little pandas / stdlib) used by the verified code.

Real-number semantics: float arrays are arrays of mathematical reals (rounding is not modelled; stated as an assumption
in the evidence).  NaN is modelled only as a predicate ISNAN on cells.
"""
import z3
from . import terms as T
from .terms import (Untranslatable, to_bool, to_real, to_int, num, ite, conj, disj, SUM, ISUM, int_of, lit)
from .values import *

INF = float("inf")
NAN = z3.Const("NaN", T.R)


class It:
    """A lazily described iterable."""

    def __init__(self, n=None, fn=None, items=None):
        self.n, self.fn, self.items = n, fn, items


class TypeV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"type {self.name}"


NDARRAY = TypeV("ndarray")
PYTYPES = {n: TypeV(n) for n in ("int", "float", "str", "bool", "list", "dict", "tuple", "set", "NoneType", "object",
                                 "slice", "type")}
EXCS = ["Exception", "ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError", "AttributeError",
        "ModuleNotFoundError", "ImportError", "FileNotFoundError", "NotImplementedError", "ZeroDivisionError",
        "AssertionError", "OSError", "StopIteration", "LookupError", "ArithmeticError", "BaseException", "NameError",
        "KeyboardInterrupt", "FileExistsError"]


def isarr(v):
    return isinstance(v, Arr)


def kind_of(v):
    if isinstance(v, (Arr, MaskSel)):
        return v.kind
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "real"
    if T.is_z3(v):
        return "bool" if z3.is_bool(v) else ("int" if z3.is_int(v) else "real")
    raise Untranslatable(f"no numeric kind: {type(v).__name__}")


def join_kind(*ks):
    return "real" if "real" in ks else ("int" if "int" in ks else "bool")


def conv(x, kind):
    return {"real": to_real, "int": to_int, "bool": to_bool}[kind](x)


def py(x):
    """z3 literal -> python number where exact"""
    return x


class Lib:
    def __init__(self, interp):
        self.ip = interp
        self.s = interp.s
        self._bi = None
        from . import nplib
        self.np = nplib.NP(self)

    # ================================================================= shapes
    def same_dim(self, a, b):
        la, lb = lit(a), lit(b)
        if la is not None and lb is not None:
            return la == lb
        a, b = int_of(a), int_of(b)
        if a.eq(b):
            return True
        d = z3.simplify(a - b)
        if z3.is_int_value(d):
            return d.as_long() == 0
        return self.s.entails(a == b)

    def require_dim(self, a, b, what):
        if self.same_dim(a, b):
            return
        self.s.oblige(f"shapes agree: {what}", int_of(a) == int_of(b))

    def broadcast(self, shapes, what="elementwise operation"):
        nd = max(len(s) for s in shapes)
        out = []
        for d in range(nd):
            cur = None
            for s in shapes:
                k = d - (nd - len(s))
                if k < 0:
                    continue
                x = s[k]
                if lit(x) == 1:
                    if cur is None:
                        cur = x
                    continue
                if cur is None or lit(cur) == 1:
                    cur = x
                else:
                    self.require_dim(cur, x, what)
            out.append(cur)
        return tuple(out)

    def bix(self, shape, out, ix):
        """index of an operand of shape `shape` for output index ix"""
        off = len(out) - len(shape)
        return tuple(z3.IntVal(0) if lit(shape[k]) == 1 and lit(out[off + k]) != 1 else ix[off + k]
                     for k in range(len(shape)))

    def as_arr(self, v, what=""):
        if isinstance(v, Arr):
            return v
        if isinstance(v, (PList, SList, tuple, It)):
            return self.np.array(v)
        if is_scalar(v):
            return Arr((), lambda: num(v), kind_of(v))
        raise Untranslatable(f"array expected, got {type(v).__name__}")

    def lift(self, f, *vals, kind=None, what="elementwise operation"):
        """elementwise f with broadcasting; result kind from f's result"""
        if any(isinstance(v, MaskSel) for v in vals):
            return self.lift_mask(f, vals)
        if any(isinstance(v, (PList, SList)) for v in vals):
            vals = tuple(self.as_arr(v) if isinstance(v, (PList, SList)) else v for v in vals)
        if not any(isinstance(v, Arr) for v in vals):
            return f(*vals)
        shapes = [v.shape for v in vals if isinstance(v, Arr)]
        out = self.broadcast(shapes, what)
        snaps = [(v.snap(), v.shape) if isinstance(v, Arr) else None for v in vals]
        vs = list(vals)

        def fn(*ix):
            return f(*[sn[0](*self.bix(sn[1], out, ix)) if sn else v for sn, v in zip(snaps, vs)])
        if kind is None:
            ps = [T.fresh_int("p") for _ in out]
            kind = kind_of(num(fn(*ps)))
        if not out:
            return num(fn())
        return Arr(out, fn, kind)

    def lift_mask(self, f, vals):
        ms = [v for v in vals if isinstance(v, MaskSel)]
        m0 = ms[0]
        for m in ms[1:]:
            self.same_mask(m0, m)
        if any(isinstance(v, Arr) for v in vals):
            raise Untranslatable("array combined with a masked selection")
        vs = list(vals)

        def fn(*ix):
            return f(*[v.val(*ix) if isinstance(v, MaskSel) else v for v in vs])
        ps = [T.fresh_int("p") for _ in m0.shape]
        return MaskSel(m0.shape, m0.mask, fn, kind_of(num(fn(*ps))))

    def same_mask(self, a, b):
        if a.mask is b.mask:
            return
        for x, y in zip(a.shape, b.shape):
            self.require_dim(x, y, "boolean index")
        ps = [T.fresh_int("p") for _ in a.shape]
        rng = [z3.And(p >= 0, p < int_of(d)) for p, d in zip(ps, a.shape)]
        self.s.oblige("boolean selections select the same cells",
                      z3.Implies(conj(rng), to_bool(a.mask(*ps)) == to_bool(b.mask(*ps))))

    # ================================================================= scalar operators
    def scal(self, op, a, b):
        """binary operator on scalars (python or z3)"""
        if not T.is_z3(a) and not T.is_z3(b):
            return self.pyop(op, a, b)
        for x in (a, b):
            if isinstance(x, float) and (x in (INF, -INF)):
                raise Untranslatable("arithmetic with infinity")
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return NAN
        if op in ("Add", "Sub", "Mult"):
            if kind_of(a) == "bool":
                a = to_int(a)
            if kind_of(b) == "bool":
                b = to_int(b)
            x, y = T.same_sort(a, b)
            # keep terms small
            if op == "Add":
                if is_zero(x):
                    return y
                if is_zero(y):
                    return x
                return x + y
            if op == "Sub":
                if is_zero(y):
                    return x
                return x - y
            if is_one(x):
                return y
            if is_one(y):
                return x
            return x * y
        if op == "Div":
            x, y = to_real(a), to_real(b)
            if is_one(y):
                return x
            return x / y
        if op == "FloorDiv":
            if kind_of(a) in ("int", "bool") and kind_of(b) in ("int", "bool"):
                a, b = to_int(a), to_int(b)
                if lit(b) is None or lit(b) <= 0:
                    self.s.oblige("floor division by a positive number", b > 0)
                return a / b
            return z3.ToReal(z3.ToInt(to_real(a) / to_real(b)))
        if op == "Mod":
            if kind_of(a) in ("int", "bool") and kind_of(b) in ("int", "bool"):
                a, b = to_int(a), to_int(b)
                if lit(b) is None or lit(b) <= 0:
                    self.s.oblige("modulo by a positive number", b > 0)
                return a % b
            raise Untranslatable("real modulo")
        if op == "Pow":
            return self.power(a, b)
        if op in ("BitAnd", "BitOr", "BitXor") and kind_of(a) == "bool" and kind_of(b) == "bool":
            a, b = to_bool(a), to_bool(b)
            return {"BitAnd": z3.And, "BitOr": z3.Or, "BitXor": z3.Xor}[op](a, b)
        raise Untranslatable(f"operator {op}")

    def power(self, a, b):
        if not T.is_z3(b):
            if isinstance(b, float) and b == int(b) and 0 <= b <= 6:
                b = int(b)
                a = to_real(a)
            if isinstance(b, int) and 0 <= b <= 6:
                r = z3.IntVal(1) if kind_of(a) == "int" else z3.RealVal(1)
                if b == 0:
                    return r
                r = num(a)
                for _ in range(b - 1):
                    r = r * num(a)
                return r
            if isinstance(b, (int, float)) and -4 <= b < 0 and b == int(b):
                return z3.RealVal(1) / to_real(self.power(to_real(a), int(-b)))
            if b == 0.5:
                return T.sqrt(to_real(a))
        return T.POW(to_real(a), to_real(b))

    def pyop(self, op, a, b):
        import operator as o
        f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv, "Mod": o.mod,
             "Pow": o.pow, "BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor, "LShift": o.lshift,
             "RShift": o.rshift}.get(op)
        if f is None:
            raise Untranslatable(f"operator {op}")
        try:
            return f(a, b)
        except ZeroDivisionError:
            raise PyExc("ZeroDivisionError")
        except TypeError as e:
            raise PyExc("TypeError", (str(e),))

    def binop(self, op, a, b):
        a, b = self.unbox(a), self.unbox(b)
        if is_scalar(a) and is_scalar(b):
            return self.scal(op, a, b)
        if isinstance(a, (Arr, MaskSel)) or isinstance(b, (Arr, MaskSel)):
            for x in (a, b):
                if isinstance(x, (Obj, Opaque)) or x is None or isinstance(x, str):
                    raise Untranslatable(f"array {op} {type(x).__name__}")
            if op == "MatMult":
                return self.np.matmul(a, b)
            return self.lift(lambda x, y: self.scal(op, x, y), a, b, what=op)
        if isinstance(a, (str,)) or isinstance(b, str) or isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, str) and isinstance(b, str) and op == "Add":
                return a + b
            if isinstance(a, str) and isinstance(b, int) and op == "Mult":
                return a * b
            if isinstance(a, Opaque) and a.tag == "str" and isinstance(b, (str, Opaque)) and op == "Add":
                return text(*a.parts, *((b,) if isinstance(b, str) else b.parts))
            if isinstance(b, Opaque) and b.tag == "str" and isinstance(a, str) and op == "Add":
                return text(a, *b.parts)
            if isinstance(a, str) and not isinstance(b, Opaque) and op == "Add":
                raise PyExc("TypeError", ("str + non-str",))
            if isinstance(a, str) and op == "Mod":
                return Opaque("str", (("call", a, b, None),))
            return Opaque("op", (op, a, b))
        if isinstance(a, PList) and op == "Add" and isinstance(b, PList):
            r = PList(a.items, a.prefix)
            self.list_extend(r, b)
            return r
        if isinstance(a, PList) and op == "Mult" and isinstance(b, (int, z3.ExprRef)):
            return self.repeat(a, b)
        if isinstance(b, PList) and op == "Mult" and isinstance(a, (int, z3.ExprRef)):
            return self.repeat(b, a)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == "Mult":
            return a * b
        if isinstance(a, PSet) and isinstance(b, PSet):
            return PSet(self.pyop(op, a.items, b.items))
        if a is None or b is None:
            raise PyExc("TypeError", ("NoneType operand",))
        raise Untranslatable(f"{type(a).__name__} {op} {type(b).__name__}")

    def repeat(self, l, n):
        ln = lit(n)
        if l.prefix is None and ln is not None and ln * len(l.items) <= 64:
            return PList(l.items * max(ln, 0))
        if l.prefix is None and len(l.items) == 1:
            v = l.items[0]
            return PList([], SList(int_of(n), lambda j: v))
        raise Untranslatable("list repetition")

    def unbox(self, v):
        if isinstance(v, Arr) and v.ndim == 0:
            return v.get()
        return v

    def unop(self, op, v):
        v = self.unbox(v)
        if op == "USub":
            if not T.is_z3(v) and isinstance(v, (int, float)):
                return -v
            return self.lift(lambda x: -num(x) if kind_of(x) != "bool" else -to_int(x), v)
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, (Arr, MaskSel)):
                if v.kind != "bool":
                    raise Untranslatable("~ on non-boolean array")
                return self.lift(lambda x: z3.Not(to_bool(x)), v)
            if isinstance(v, bool):
                return not v
            if T.is_z3(v) and z3.is_bool(v):
                return z3.Not(v)
            if isinstance(v, int):
                return ~v
        raise Untranslatable(f"unary {op} on {type(v).__name__}")

    def rel(self, op, a, b):
        """comparison of scalars"""
        if not T.is_z3(a) and not T.is_z3(b):
            import operator as o
            return {"Lt": o.lt, "LtE": o.le, "Gt": o.gt, "GtE": o.ge, "Eq": o.eq, "NotEq": o.ne}[op](a, b)
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(y, float) and y in (INF, -INF):
                # x is a finite real here
                pos = y > 0
                less = pos            # x < inf
                o_ = op
                if flip:
                    o_ = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(op, op)
                return {"Lt": less, "LtE": less, "Gt": not less, "GtE": not less, "Eq": False, "NotEq": True}[o_]
        if op in ("Eq", "NotEq") and kind_of(a) == "bool" and kind_of(b) == "bool":
            r = to_bool(a) == to_bool(b)
            return r if op == "Eq" else z3.Not(r)
        if kind_of(a) == "bool":
            a = to_int(a)
        if kind_of(b) == "bool":
            b = to_int(b)
        x, y = T.same_sort(a, b)
        return {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y,
                "Eq": lambda: x == y, "NotEq": lambda: x != y}[op]()

    def compare(self, op, a, b):
        a, b = self.unbox(a), self.unbox(b)
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if op == "Is" else (not r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if op == "In":
                return r
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if is_scalar(a) and is_scalar(b):
            return self.rel(op, a, b)
        if isinstance(a, (Arr, MaskSel)) or isinstance(b, (Arr, MaskSel)):
            if isinstance(a, (PList, tuple)):
                a = self.as_arr(a)
            if isinstance(b, (PList, tuple)):
                b = self.as_arr(b)
            if not all(isinstance(x, (Arr, MaskSel)) or is_scalar(x) for x in (a, b)):
                if op == "Eq":
                    return False
                raise Untranslatable("comparison of an array")
            return self.lift(lambda x, y: self.rel(op, x, y), a, b, kind="bool" if isinstance(a, Arr) or
                             isinstance(b, Arr) else None, what=op)
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b)
            if op == "Eq":
                return r
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(a, str) and isinstance(b, str):
            return self.rel(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Untranslatable("tuple ordering")
        if a is None or b is None:
            raise PyExc("TypeError", ("comparison with None",))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.s.sym("cmp", T.Bo)
        raise Untranslatable(f"{type(a).__name__} {op} {type(b).__name__}")

    def identical(self, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if isinstance(x, Opaque) and x.tag == "maybe":
                raise Untranslatable("identity of an unknown value")
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (bool,)) and T.is_z3(b) and z3.is_bool(b):
            return z3.simplify(b == a)
        if isinstance(b, (bool,)) and T.is_z3(a) and z3.is_bool(a):
            return z3.simplify(a == b)
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return a.name == b.name
        return a is b

    def equal(self, a, b):
        if a is b:
            return True
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if a is None or b is None:
            return False
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return a.name == b.name
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return a.name == b.name
        if isinstance(a, (TypeV, Builtin, Class)) or isinstance(b, (TypeV, Builtin, Class)):
            return getattr(a, "name", a) == getattr(b, "name", b)
        if isinstance(a, (tuple, PList)) and isinstance(b, type(a)):
            xs, ys = self.seq_items(a), self.seq_items(b)
            if xs is None or ys is None:
                raise Untranslatable("equality of symbolic lists")
            if len(xs) != len(ys):
                return False
            rs = [self.compare("Eq", x, y) for x, y in zip(xs, ys)]
            if all(isinstance(r, bool) for r in rs):
                return all(rs)
            return conj(rs)
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag == "str":
            return self.str_equal(a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and a.tag == "str" and isinstance(b, str):
                return self.str_match(a, b)
            if isinstance(b, Opaque) and b.tag == "str" and isinstance(a, str):
                return self.str_match(b, a)
            if isinstance(a, Opaque) and a.tag == "enum" and isinstance(b, str):
                return a.parts[0](b)
            if isinstance(b, Opaque) and b.tag == "enum" and isinstance(a, str):
                return b.parts[0](a)
            return self.s.sym("eq", T.Bo)
        if (isinstance(a, str) and (is_scalar(b) or isinstance(b, (PList, tuple, PDict)))) or \
                (isinstance(b, str) and (is_scalar(a) or isinstance(a, (PList, tuple, PDict)))):
            return False
        if type(a) is not type(b):
            return False
        raise Untranslatable(f"equality of {type(a).__name__}")

    def str_match(self, a, b):
        """formatted string a equals the literal b (integers formatted without a specification)"""
        import re
        rx, xs = "", []
        for p in a.parts:
            if isinstance(p, str):
                rx += re.escape(p)
            elif isinstance(p, tuple) and len(p) == 3 and p[0] == "fmt" and T.is_z3(p[1]) and z3.is_int(p[1]) and not p[2]:
                if rx.endswith(")"):
                    return self.s.sym("streq", T.Bo)
                rx += "(0|-?[1-9][0-9]*)"
                xs.append(p[1])
            else:
                return self.s.sym("streq", T.Bo)
        m = re.fullmatch(rx, b)
        if m is None:
            return False
        return conj([x == int(g) for x, g in zip(xs, m.groups())])

    def str_equal(self, a, b):
        """equality of formatted strings: decided where integers stand between literals that delimit them"""
        def plain(ps):
            prev = None
            for p in ps:
                if isinstance(p, str):
                    if (prev is not None and p[0].isdigit()) or p.endswith("-"):
                        return False
                    prev = None
                elif prev is not None or not (isinstance(p, tuple) and len(p) == 3 and p[0] == "fmt" and not p[2] and
                                              T.is_z3(p[1]) and z3.is_int(p[1])):
                    return False
                else:
                    prev = p
            return True
        if a.parts == b.parts and all(isinstance(p, str) or (isinstance(p, tuple) and p[0] == "fmt") for p in a.parts):
            return True
        if not plain(a.parts) or not plain(b.parts):
            return self.s.sym("streq", T.Bo)
        if len(a.parts) != len(b.parts):
            # a literal number in one may be a formatted one in the other
            return self.s.sym("streq", T.Bo)
        conds = []
        for x, y in zip(a.parts, b.parts):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return self.s.sym("streq", T.Bo) if any(c.isdigit() for c in x + y) else False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                conds.append(self.rel("Eq", x[1], y[1]))
            else:
                return self.s.sym("streq", T.Bo)
        if all(isinstance(c, bool) for c in conds):
            return all(conds)
        return conj(conds)

    def seq_items(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PList) and v.prefix is None:
            return list(v.items)
        if isinstance(v, PList) and lit(v.prefix.n) is not None and lit(v.prefix.n) <= 16:
            return [v.prefix.fn(z3.IntVal(i)) for i in range(lit(v.prefix.n))] + list(v.items)
        return None

    def contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, PDict):
            k = self.key(x)
            if not isinstance(k, (z3.ExprRef, Opaque)) and not c.fams:
                if not any(isinstance(q, (z3.ExprRef, Opaque)) for q in c.items):
                    return k in c.items
            conds = [self.compare("Eq", k, q) for q in c.items]
            for n, kf, vf in c.fams:
                if lit(n) == 1:
                    conds.append(self.compare("Eq", kf(z3.IntVal(0)), k))
                    continue
                conds.append(T.ANY(n, lambda i: num(self.compare("Eq", kf(i), k))))
            return disj([to_bool(q) if not isinstance(q, bool) else q for q in conds])
        if isinstance(c, PSet):
            return x in c.items if not T.is_z3(x) else disj([self.rel("Eq", x, q) for q in c.items])
        items = self.seq_items(c) if isinstance(c, (tuple, PList)) else None
        if items is not None:
            rs = [self.compare("Eq", x, q) for q in items]
            if any(r is True for r in rs):
                return True
            if all(isinstance(r, bool) for r in rs):
                return any(rs)
            return disj(rs)
        if isinstance(c, PList):
            pre = c.prefix
            rs = [T.ANY(pre.n, lambda i: num(self.compare("Eq", x, pre.fn(i))))] + \
                 [self.compare("Eq", x, q) for q in c.items]
            return disj(rs)
        if isinstance(c, SRange):
            x = to_int(x)
            if c.step == 1:
                return z3.And(x >= int_of(c.start), x < int_of(c.stop))
        if isinstance(c, It) and c.items is not None:
            return self.contains(PList(c.items), x)
        if isinstance(c, Opaque):
            return self.s.sym("in", T.Bo)
        if isinstance(c, Arr) and c.ndim == 1:
            return T.ANY(c.shape[0], lambda i: num(self.rel("Eq", c.get(i), x)))
        raise Untranslatable(f"membership in {type(c).__name__}")

    # ================================================================= sequences
    def key(self, k):
        k = self.unbox(k)
        if isinstance(k, (str, int, float, bool)) or k is None:
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if T.is_z3(k):
            v = lit(k) if z3.is_int(k) else None
            return v if v is not None else k
        if isinstance(k, Opaque):
            return k
        raise Untranslatable(f"dict key {type(k).__name__}")

    def length(self, v):
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, PList):
            if v.prefix is None:
                return len(v.items)
            return z3.simplify(int_of(v.prefix.n) + len(v.items))
        if isinstance(v, SList):
            return v.n
        if isinstance(v, PDict):
            n = len(v.items)
            for fn, _, _ in v.fams:
                n = int_of(fn) + n
            return n if isinstance(n, int) else z3.simplify(n)
        if isinstance(v, PSet):
            return len(v.items)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyExc("TypeError", ("len of scalar array",))
            return v.shape[0]
        if isinstance(v, MaskSel):
            return self.mask_count(v)
        if isinstance(v, SRange):
            return v.length()
        if isinstance(v, It):
            return len(v.items) if v.items is not None else v.n
        if v is None or is_scalar(v):
            raise PyExc("TypeError", ("no len()",))
        if isinstance(v, Opaque):
            n = self.s.sym("len", T.I)
            self.s.assume(n >= 0)
            return n
        raise Untranslatable(f"len of {type(v).__name__}")

    def mask_count(self, m):
        return self.nd_count(m.shape, m.mask)

    def nd_count(self, shape, f):
        if len(shape) == 1:
            return T.ICOUNT(shape[0], lambda i: to_bool(f(i)))
        if len(shape) == 2:
            return T.ISUM(shape[0], lambda i: T.ICOUNT(shape[1], lambda j: to_bool(f(i, j))))
        raise Untranslatable("count over 3-D")

    def list_extend(self, l, other):
        self.s.touch_list(l)
        items = self.seq_items(other) if isinstance(other, (tuple, PList)) else None
        if items is not None:
            l.items.extend(items)
            return
        kind, a, b = self.iteration(other)
        if kind == "concrete":
            l.items.extend(a)
            return
        # append a symbolic sequence
        if l.prefix is None and not l.items:
            l.prefix = SList(a, b)
            return
        n0 = int_of(self.length(l))
        oldp, olditems = l.prefix, list(l.items)
        from .loops import merge

        def fn(j):
            o = self.raw_index(PList(olditems, oldp), j)
            return merge(j < n0, o, b(z3.simplify(j - n0)))
        l.prefix = SList(z3.simplify(n0 + int_of(a)), fn)
        l.items = []

    def raw_index(self, l, j):
        """l[j] for 0 <= j < len (unchecked)"""
        from .loops import merge
        lj = lit(j)
        n0 = 0 if l.prefix is None else l.prefix.n
        ln0 = lit(n0)
        if lj is not None and ln0 is not None:
            if lj < ln0:
                return l.prefix.fn(z3.IntVal(lj))
            if lj - ln0 >= len(l.items):
                return Poison("index beyond the list")
            return l.items[lj - ln0]
        j = int_of(j)
        if not l.items:
            if l.prefix is None:
                return self.s.sym("no_element", T.R)
            return l.prefix.fn(j)
        v = l.items[-1]
        for q in range(len(l.items) - 2, -1, -1):
            v = merge(z3.simplify(j == int_of(n0) + q), l.items[q], v)
        if l.prefix is not None and ln0 != 0:
            if self.s.entails(j >= int_of(n0), quick=True):
                return v
            if self.s.entails(j < int_of(n0), quick=True):
                return l.prefix.fn(j)
            v = merge(z3.simplify(j < int_of(n0)), l.prefix.fn(j), v)
        return v

    def list_index(self, l, j):
        j = self.unbox(j)
        if isinstance(j, bool):
            j = int(j)
        if not isinstance(j, int) and not (T.is_z3(j) and z3.is_int(j)):
            raise PyExc("TypeError", ("list indices must be integers",))
        n = self.length(l)
        lj, ln = lit(j), lit(n)
        if lj is not None and ln is not None:
            if not (-ln <= lj < ln):
                raise PyExc("IndexError")
            return self.raw_index(l, lj % ln)
        nn = int_of(n)
        if lj is not None and lj < 0:
            self.check_index(nn >= -lj)
            return self.raw_index(l, z3.simplify(nn + lj))
        jj = int_of(j)
        self.check_index(z3.And(jj >= 0, jj < nn))
        return self.raw_index(l, jj)

    def check_index(self, c):
        c = z3.simplify(c)
        if z3.is_false(c):
            raise PyExc("IndexError")
        if z3.is_true(c):
            return
        if self.s.ghost.get("index_forks"):
            if not self.s.decide(c):
                raise PyExc("IndexError")
            return
        self.s.oblige("index within bounds", c)

    def unpack(self, v, n):
        v = self.unbox(v)
        if isinstance(v, (tuple, PList)):
            items = self.seq_items(v)
            if items is None:
                ln = self.length(v)
                self.s.oblige("unpacked length", int_of(ln) == n)
                return [self.raw_index(v, i) for i in range(n)]
            if len(items) != n:
                raise PyExc("ValueError", ("unpack",))
            return items
        if isinstance(v, Arr):
            self.require_dim(v.shape[0], n, "unpacking")
            return [self.arr_get(v, (z3.IntVal(i),)) for i in range(n)]
        if isinstance(v, Opaque):
            return [Opaque("item", (v, i)) for i in range(n)]
        raise Untranslatable(f"unpacking {type(v).__name__}")

    def concrete_items(self, v):
        kind, a, b = self.iteration(v)
        if kind == "concrete":
            return a
        if lit(a) is not None:
            return [b(z3.IntVal(i)) for i in range(lit(a))]
        raise Untranslatable("symbolic-length argument list")

    def iteration(self, it):
        it = self.unbox(it)
        if isinstance(it, It):
            if it.items is not None:
                return "concrete", list(it.items), None
            return "sym", it.n, it.fn
        if isinstance(it, SRange):
            n = it.length()
            if isinstance(n, int) and n <= 64:
                st = lit(it.start)
                if st is not None:
                    return "concrete", [st + q * it.step for q in range(n)], None
                return "concrete", [it.item(z3.IntVal(q)) for q in range(n)], None
            return "sym", n, lambda i: it.item(int_of(i))
        if isinstance(it, tuple):
            return "concrete", list(it), None
        if isinstance(it, str):
            return "concrete", list(it), None
        if isinstance(it, PList):
            if it.prefix is None:
                return "concrete", list(it.items), None
            snap = PList(it.items, it.prefix)
            return "sym", self.length(it), lambda i: self.raw_index(snap, i)
        if isinstance(it, SList):
            return "sym", it.n, it.fn
        if isinstance(it, PSet):
            return "concrete", sorted(it.items, key=repr), None
        if isinstance(it, PDict):
            return self.iteration(self.dict_iter(it, "keys"))
        if isinstance(it, Arr):
            n = it.shape[0]
            if it.ndim == 1:
                sn = it.snap()
                return "sym", n, lambda i: sn(int_of(i))
            return "sym", n, lambda i: row_view(it, int_of(i), 0)
        if it is None or is_scalar(it):
            raise PyExc("TypeError", ("not iterable",))
        if isinstance(it, Obj) and not isinstance(it.cls, Class):
            return self.iteration(self.obj_iter(it))
        raise Untranslatable(f"iteration over {type(it).__name__}")

    def dict_iter(self, d, what):
        items = [{"keys": k, "values": v, "items": (k, v)}[what] for k, v in d.items.items()]
        if not d.fams:
            return It(items=items)
        if len(d.fams) == 1 and not items:
            n, kf, vf = d.fams[0]
            return It(n=n, fn={"keys": kf, "values": vf, "items": lambda i: (kf(i), vf(i))}[what])
        pl = PList()
        if not items:
            n, kf, vf = d.fams[0]
            pl.prefix = SList(n, {"keys": kf, "values": vf, "items": lambda i: (kf(i), vf(i))}[what])
            rest = d.fams[1:]
        else:
            pl.items = items
            rest = d.fams
        for n, kf, vf in rest:
            self.list_extend(pl, It(n=n, fn={"keys": kf, "values": vf,
                                             "items": lambda i, kf=kf, vf=vf: (kf(i), vf(i))}[what]))
        k, a, b = self.iteration(pl)
        return It(items=a) if k == "concrete" else It(n=a, fn=b)

    def injective_key(self, k, i):
        for p in k.parts:
            if isinstance(p, tuple) and p[0] == "fmt" and T.is_z3(p[1]) and z3.is_int(p[1]):
                d = z3.simplify(p[1] - i)
                if not T.mentions(d, i):
                    return True
        return False

    # ================================================================= indexing
    def norm_index(self, j, n, check=True):
        """index term for axis length n"""
        j = self.unbox(j)
        if isinstance(j, float) or (T.is_z3(j) and z3.is_real(j)):
            raise PyExc("IndexError", ("non-integer index",))
        if T.is_z3(j) and z3.is_bool(j):
            raise Untranslatable("boolean scalar index")
        lj, ln = lit(j), lit(n)
        if lj is not None:
            if lj < 0:
                if ln is not None and -lj > ln:
                    raise PyExc("IndexError")
                if check and ln is None:
                    self.check_index(int_of(n) >= -lj)
                return z3.simplify(int_of(n) + lj)
            if ln is not None:
                if lj >= ln:
                    raise PyExc("IndexError")
            elif check:
                self.check_index(int_of(n) > lj)
            return z3.IntVal(lj)
        jj = int_of(j)
        if check:
            self.check_index(z3.And(jj >= 0, jj < int_of(n)))
        return jj

    def slice_bounds(self, sl, n):
        step = sl.step if sl.step is not None else 1
        step = lit(step) if not isinstance(step, int) else step
        nn = int_of(n)

        def clamp(v, default):
            if v is None:
                return default
            v = self.unbox(v)
            if kind_of(v) == "real":
                raise PyExc("TypeError", ("slice indices must be integers",))
            lv = lit(v)
            if lv is not None and lit(n) is not None:
                if lv < 0:
                    lv += lit(n)
                return z3.IntVal(max(0, min(lv, lit(n))))
            if lv is not None:
                if lv == 0:
                    return z3.IntVal(0)
                if lv > 0:
                    if self.s.entails(nn >= lv):
                        return z3.IntVal(lv)
                    return ite(nn < lv, nn, z3.IntVal(lv))
                if self.s.entails(nn + lv >= 0):
                    return z3.simplify(nn + lv)
                return ite(nn + lv < 0, z3.IntVal(0), nn + lv)
            v = int_of(v)
            if v.eq(nn) or self.s.entails(z3.And(v >= 0, v <= nn)):
                return v
            if self.s.entails(v >= 0):
                return ite(v > nn, nn, v)
            v2 = ite(v < 0, v + nn, v)
            return ite(v2 < 0, z3.IntVal(0), ite(v2 > nn, nn, v2))
        if step == 1:
            a = clamp(sl.start, z3.IntVal(0))
            b = clamp(sl.stop, nn)
            ln = z3.simplify(b - a)
            if lit(ln) is not None:
                ln = max(lit(ln), 0)
            elif not self.s.entails(ln >= 0):
                ln = ite(ln < 0, z3.IntVal(0), ln)
            return a, ln, 1
        if step == -1 and sl.start is None and sl.stop is None:
            return z3.simplify(nn - 1), n, -1
        raise Untranslatable("strided slice")

    def arr_get(self, a, ixs):
        """numpy basic/advanced indexing; ixs tuple"""
        ixs = list(ixs)
        if any(x is Ellipsis for x in ixs):
            k = ixs.index(Ellipsis)
            used = sum(1 for x in ixs if x is not None and x is not Ellipsis)
            ixs[k:k + 1] = [slice(None)] * (a.ndim - used)
        if len(ixs) == 1 and isinstance(ixs[0], Arr) and ixs[0].kind == "bool":
            m = ixs[0]
            if m.ndim == a.ndim:
                for x, y in zip(m.shape, a.shape):
                    self.require_dim(x, y, "boolean index")
                return MaskSel(a.shape, m.snap(), a.snap(), a.kind)
            if m.ndim == 1 and a.ndim == 2:
                return self.mask_rows(a, m)
            raise Untranslatable("boolean index of lower rank")
        if any(isinstance(x, (Arr, PList, SList, tuple)) for x in ixs):
            return self.fancy(a, ixs)
        cur, axis = a, 0
        for x in ixs:
            if x is None:
                cur = self.insert_axis(cur, axis)
                axis += 1
                continue
            if axis >= cur.ndim:
                raise PyExc("IndexError", ("too many indices",))
            if isinstance(x, slice):
                if x.start is None and x.stop is None and x.step is None:
                    axis += 1
                    continue
                st, ln, step = self.slice_bounds(x, cur.shape[axis])
                cur = slice_view(cur, axis, st, ln, step)
                axis += 1
            elif is_scalar(x) or isinstance(x, Arr):
                cur = row_view(cur, self.norm_index(x, cur.shape[axis]), axis)
            else:
                raise Untranslatable(f"array index {type(x).__name__}")
        if cur.ndim == 0:
            return cur.get()
        if cur is a:
            return Arr(a.shape, base=a, kind=a.kind, imap=lambda *ix: ix, inv=lambda *r: (True, r))
        return cur

    def mask_rows(self, a, m):
        """a[mask] selecting rows: SELECT-ordered rows"""
        self.require_dim(a.shape[0], m.shape[0], "boolean row index")
        sn, ms, n = a.snap(), m.snap(), a.shape[0]
        cnt = T.ICOUNT(n, lambda q: to_bool(ms(q)))
        lam, _ = T.lam_of(1, lambda q: to_bool(ms(q)))
        sel = T.functional("SELECT", 1, T.Bo, T.I, (T.I,))
        return Arr((cnt,) + a.shape[1:], lambda i, *r: sn(sel(lam, int_of(n), i), *r), a.kind)

    def insert_axis(self, a, axis):
        shape = a.shape[:axis] + (1,) + a.shape[axis:]
        return Arr(shape, base=a, kind=a.kind, imap=lambda *ix: ix[:axis] + ix[axis + 1:],
                   inv=lambda *r: (True, r[:axis] + (z3.IntVal(0),) + r[axis:]))

    def fancy(self, a, ixs):
        while len(ixs) < a.ndim:
            ixs.append(slice(None))
        adv = [k for k, x in enumerate(ixs) if isinstance(x, (Arr, PList, SList, tuple))]
        if len(adv) == 1:
            k = adv[0]
            ix = ixs[k] if isinstance(ixs[k], Arr) else self.np.array(ixs[k])
            if ix.kind == "bool":
                if ix.ndim == 1 and k == 0 and all(isinstance(x, slice) and x == slice(None) for x in ixs[1:]):
                    return self.mask_rows(a, ix)
                if ix.ndim == 1 and k == 1 and a.ndim == 2 and ixs[0] == slice(None):
                    r = self.mask_rows(a.T, ix)
                    return r.T
                raise Untranslatable("boolean index mixed with others")
            if ix.kind != "int" or ix.ndim != 1:
                raise Untranslatable("fancy index")
            p = T.fresh_int("p")
            e = num(ix.get(p))
            n = int_of(a.shape[k])
            self.s.oblige("fancy index within bounds",
                          z3.Implies(z3.And(p >= 0, p < int_of(ix.shape[0])), z3.And(e >= 0, e < n)))
            rest = [x if q != k else slice(None) for q, x in enumerate(ixs)]
            sn, isn = a.snap(), ix.snap()
            g = Arr(a.shape[:k] + (ix.shape[0],) + a.shape[k + 1:],
                    lambda *r: sn(*(r[:k] + (isn(r[k]),) + r[k + 1:])), a.kind)
            if all(isinstance(x, slice) and x == slice(None) for x in rest):
                return g
            return self.arr_get(g, tuple(rest))
        raise Untranslatable("multiple fancy indices")

    def getitem(self, o, ix):
        if isinstance(o, Poison):
            raise Untranslatable(o.why)
        if isinstance(o, Arr):
            return self.arr_get(o, ix if isinstance(ix, tuple) else (ix,))
        if isinstance(o, PList):
            if isinstance(ix, slice):
                items = self.seq_items(o)
                if items is not None and all(x is None or isinstance(x, int) for x in (ix.start, ix.stop, ix.step)):
                    return PList(items[ix])
                st, ln, step = self.slice_bounds(ix, self.length(o))
                snap = PList(o.items, o.prefix)
                if lit(ln) == 0:
                    return PList()
                return PList([], SList(ln, lambda i: self.raw_index(snap, z3.simplify(st + int_of(i) * step))))
            return self.list_index(o, ix)
        if isinstance(o, tuple):
            if isinstance(ix, slice):
                return o[ix]
            return self.list_index(PList(o), ix)
        if isinstance(o, str):
            if isinstance(ix, (int, slice)):
                try:
                    return o[ix]
                except IndexError:
                    raise PyExc("IndexError")
            raise Untranslatable("string index")
        if isinstance(o, PDict):
            return self.dict_get(o, ix)
        if isinstance(o, SRange):
            return o.item(self.norm_index(ix, o.length()))
        if isinstance(o, It):
            if o.items is not None:
                return self.list_index(PList(o.items), ix)
            return self.list_index(PList([], SList(o.n, o.fn)), ix)
        if isinstance(o, MaskSel):
            raise Untranslatable("indexing a masked selection")
        if isinstance(o, Opaque):
            return Opaque("item", (o, ix))
        if isinstance(o, Obj):
            if isinstance(o.cls, Class) and "__getitem__" in o.cls.members:
                return self.ip.call(Bound(o.cls.members["__getitem__"], o), [ix], {})
            return self.obj_getitem(o, ix)
        if o is None or is_scalar(o):
            raise PyExc("TypeError", ("not subscriptable",))
        if isinstance(o, (TypeV, Builtin)):
            return o
        raise Untranslatable(f"subscript of {type(o).__name__}")

    def obj_getitem(self, o, ix):
        raise Untranslatable(f"subscript of {o.cls}")

    def same_key(self, a, b):
        """are two dict keys equal on this path (forks when undetermined)"""
        if not T.is_z3(a) and not T.is_z3(b) and not isinstance(a, Opaque) and not isinstance(b, Opaque):
            return a == b
        if a is b or (T.is_z3(a) and T.is_z3(b) and a.eq(b)):
            return True
        e = self.compare("Eq", a, b)
        return e if isinstance(e, bool) else self.s.decide(to_bool(num(e)))

    def drop_key(self, d, k):
        """remove key k from a dict with symbolic keys: (found, value)"""
        for q in list(d.items):
            if self.same_key(q, k):
                v = d.items[q]
                d.items = {x: y for x, y in d.items.items() if x is not q}
                return True, v
        for f in list(d.fams):
            n, kf, vf = f
            if lit(n) == 1 and self.same_key(kf(z3.IntVal(0)), k):
                v = vf(z3.IntVal(0))
                d.fams = [g for g in d.fams if g is not f]
                return True, v
            if lit(n) != 1 and not self.s.entails(z3.Not(T.ANY(n, lambda i: num(self.compare("Eq", kf(i), k))))):
                raise Untranslatable("removal of a possibly existing key")
        return False, None

    def dict_get(self, d, ix, default=KeyError):
        k = self.key(ix)
        if not T.is_z3(k) and not isinstance(k, Opaque):
            if k in d.items and not any(T.is_z3(q) for q in d.items):
                v = d.items[k]
                if isinstance(v, Poison):
                    raise Untranslatable(v.why)
                return v
            if not d.fams and not any(T.is_z3(q) or isinstance(q, Opaque) for q in d.items):
                if default is KeyError:
                    raise PyExc("KeyError", (k,))
                return default
        # search families by matching index
        from .loops import merge
        for q, v in d.items.items():
            if T.is_z3(q) and T.is_z3(k) and q.sort() == k.sort() and self.s.entails(q == k):
                return v
            if isinstance(q, Opaque) and isinstance(k, Opaque) and q.tag == k.tag == "str":
                e = self.str_equal(q, k)
                if e is True or (T.is_z3(e) and self.s.entails(e)):
                    return v
        if T.is_z3(k) and z3.is_int(k) and d.items and not d.fams and all(isinstance(q, int) for q in d.items):
            self.check_key(disj([k == q for q in d.items]), default)
            vs = list(d.items.items())
            r = vs[-1][1]
            for q, v in reversed(vs[:-1]):
                r = merge(k == q, v, r)
            return r
        for n, kf, vf in d.fams:
            if lit(n) == 1 and isinstance(k, Opaque):
                q = kf(z3.IntVal(0))
                e = self.compare("Eq", q, k)
                if e is True or (T.is_z3(e) and self.s.entails(e)):
                    return vf(z3.IntVal(0))
                continue
            idx = self.solve_key(kf, k)
            if idx is not None:
                if not d.items or all(not T.is_z3(q) and type(q) is not type(k) for q in d.items):
                    if len(d.fams) == 1:
                        self.check_key(z3.And(idx >= 0, idx < int_of(n)), default)
                        return vf(idx)
                    if self.s.entails(z3.And(idx >= 0, idx < int_of(n))):
                        return vf(idx)
        raise Untranslatable("lookup with a symbolic key")

    def check_key(self, c, default):
        if default is KeyError:
            if self.s.ghost.get("index_forks"):
                if not self.s.decide(c):
                    raise PyExc("KeyError")
            else:
                self.s.oblige("key present", c)
        else:
            if not self.s.entails(c):
                raise Untranslatable(".get with an undetermined key")

    def solve_key(self, kf, k):
        i = T.fresh_int("i")
        kk = kf(i)
        if T.is_z3(kk) and z3.is_int(kk) and (T.is_z3(k) or isinstance(k, int)):
            d = z3.simplify(kk - i)
            if not T.mentions(d, i):
                return z3.simplify(int_of(k) - d)
        if isinstance(kk, Opaque) and isinstance(k, Opaque) and kk.tag == k.tag == "str" and \
                len(kk.parts) == len(k.parts):
            idx = None
            for a, b in zip(kk.parts, k.parts):
                if isinstance(a, str) or isinstance(b, str):
                    if not (isinstance(a, str) and isinstance(b, str) and a == b):
                        return None
                elif T.is_z3(a[1]) and z3.is_int(a[1]) and T.mentions(a[1], i):
                    d = z3.simplify(a[1] - i)
                    if T.mentions(d, i):
                        return None
                    idx = z3.simplify(int_of(b[1]) - d)
                elif not (is_scalar(a[1]) and is_scalar(b[1]) and num(a[1]).eq(num(b[1]))):
                    return None
            return idx
        return None

    def setitem(self, o, ix, v):
        if isinstance(o, Arr):
            return self.arr_set(o, ix if isinstance(ix, tuple) else (ix,), v)
        if isinstance(o, PDict):
            self.s.touch_dict(o)
            k = self.key(ix)
            if T.is_z3(k) or isinstance(k, Opaque):
                for q in list(o.items):
                    if self.same_key(q, k):
                        o.items[q] = v
                        return
                for x, (n, kf, vf) in enumerate(o.fams):
                    if lit(n) == 1:
                        if self.same_key(kf(z3.IntVal(0)), k):
                            o.fams = o.fams[:x] + [(n, kf, lambda j, v=v: v)] + o.fams[x + 1:]
                            return
                    elif not self.s.entails(z3.Not(T.ANY(n, lambda i: num(self.compare("Eq", kf(i), k))))):
                        raise Untranslatable("assignment to a possibly existing key")
                o.fams = o.fams + [(1, lambda j, k=k: k, lambda j, v=v: v)]
                return
            if o.fams:
                for n, kf, vf in o.fams:
                    kk = kf(T.fresh_int("i"))
                    if type(kk) is type(k) or (T.is_z3(kk) and isinstance(k, int)):
                        raise Untranslatable("assignment to a possibly existing key")
            o.items[k] = v
            return
        if isinstance(o, PList):
            self.s.touch_list(o)
            items = self.seq_items(o)
            if isinstance(ix, slice):
                raise Untranslatable("list slice assignment")
            j = lit(self.unbox(ix))
            if items is not None and j is not None:
                if not (-len(items) <= j < len(items)):
                    raise PyExc("IndexError")
                items[j] = v
                o.prefix, o.items = None, items
                return
            # symbolic position
            from .loops import merge
            n = int_of(self.length(o))
            jj = int_of(self.unbox(ix)) if j is None or j >= 0 else z3.simplify(n + j)
            self.check_index(z3.And(jj >= 0, jj < n))
            snap = PList(o.items, o.prefix)
            if is_scalar(v):
                v = num(v)
            base = o.prefix if not o.items else None
            o.prefix = SList(n, lambda q: merge(z3.simplify(int_of(q) == jj), v, self.raw_index(snap, q)))
            if base is not None:
                o.prefix.upd = (base, z3.simplify(jj), v)
            o.items = []
            return
        if isinstance(o, Opaque):
            return
        if isinstance(o, tuple) or is_scalar(o) or o is None or isinstance(o, str):
            raise PyExc("TypeError", ("no item assignment",))
        if isinstance(o, Obj):
            return self.obj_setitem(o, ix, v)
        raise Untranslatable(f"item assignment on {type(o).__name__}")

    def obj_setitem(self, o, ix, v):
        raise Untranslatable(f"item assignment on {o.cls}")

    def delitem(self, o, ix):
        if isinstance(o, PDict):
            self.s.touch_dict(o)
            k = self.key(ix)
            if o.fams or T.is_z3(k) or isinstance(k, Opaque) or any(T.is_z3(q) or isinstance(q, Opaque) for q in o.items):
                if not self.drop_key(o, k)[0]:
                    raise PyExc("KeyError", (k,))
                return
            if k not in o.items:
                raise PyExc("KeyError", (k,))
            del o.items[k]
            return
        if isinstance(o, PList):
            self.list_pop(o, ix)
            return
        raise Untranslatable("del item")

    def store_into(self, a, v):
        """a[...] = v in place (augmented assignment on arrays)"""
        if isinstance(v, Arr):
            if v.ndim > a.ndim:
                raise PyExc("ValueError", ("broadcast",))
            shp = self.broadcast([a.shape, v.shape])
            for x, y in zip(shp, a.shape):
                self.require_dim(x, y, "in-place operation")
            if a.kind == "int" and v.kind == "real":
                raise PyExc("TypeError", ("casting",))
            sn = v.snap()
            self.s.write_arr(a, lambda *ix: True, lambda *ix: sn(*self.bix(v.shape, a.shape, ix)))
        elif is_scalar(v):
            self.s.write_arr(a, lambda *ix: True, lambda *ix: v)
        else:
            raise Untranslatable("in-place operation")

    def arr_set(self, a, ixs, v):
        v = self.unbox(v)
        if len(ixs) == 1 and isinstance(ixs[0], Arr) and ixs[0].kind == "bool":
            m = ixs[0]
            if m.ndim == a.ndim:
                for x, y in zip(m.shape, a.shape):
                    self.require_dim(x, y, "boolean index")
                ms = m.snap()
                if isinstance(v, MaskSel):
                    self.same_mask(MaskSel(a.shape, ms, None), v)
                    vf = v.val
                    self.s.write_arr(a, ms, vf)
                elif is_scalar(v):
                    self.s.write_arr(a, ms, lambda *ix: self.cell(v))
                else:
                    raise Untranslatable("masked assignment of an array")
                return
            if m.ndim == 1 and a.ndim == 2 and is_scalar(v):
                ms = m.snap()
                self.require_dim(m.shape[0], a.shape[0], "boolean index")
                self.s.write_arr(a, lambda i, *r: ms(i), lambda *ix: self.cell(v))
                return
            raise Untranslatable("boolean assignment")
        if any(isinstance(x, (Arr, PList, SList)) and not (isinstance(x, Arr) and x.ndim == 0) for x in ixs):
            if len(ixs) == 2 and isinstance(ixs[0], Arr) and isinstance(ixs[1], Arr):
                raise Untranslatable("paired fancy assignment")
            # mask in one axis and full slices / scalars in the others
            if len(ixs) == 2 and isinstance(ixs[0], Arr) and ixs[0].kind == "bool" and ixs[0].ndim == 1 and \
                    is_scalar(ixs[1]) and is_scalar(v):
                ms = ixs[0].snap()
                j = self.norm_index(ixs[1], a.shape[1])
                self.s.write_arr(a, lambda i, q: conj([to_bool(ms(i)), q == j]), lambda *ix: self.cell(v))
                return
            raise Untranslatable("fancy assignment")
        if all(is_scalar(x) for x in ixs) and len(ixs) == a.ndim:
            idx = [self.norm_index(x, d) for x, d in zip(ixs, a.shape)]
            if isinstance(v, Arr) and all(lit(d) == 1 for d in v.shape):
                v = v.get(*[z3.IntVal(0)] * v.ndim)
            if not is_scalar(v):
                raise Untranslatable("cell assignment of a non-scalar")
            c = self.cell(v)
            self.s.write_arr(a, lambda *ix: conj([x == y for x, y in zip(ix, idx)]), lambda *ix: c)
            return
        view = self.arr_get(a, ixs)
        if not isinstance(view, Arr):
            raise Untranslatable("assignment target")
        if isinstance(v, (PList, SList, tuple)):
            v = self.as_arr(v)
        if is_scalar(v):
            c = self.cell(v)
            self.s.write_arr(view, lambda *ix: True, lambda *ix: c)
            return
        if isinstance(v, Arr):
            shp = self.broadcast([view.shape, v.shape], "assignment")
            sn = v.freeze().snap()
            vs = view.shape
            self.s.write_arr(view, lambda *ix: True, lambda *ix: sn(*self.bix(v.shape, vs, ix)))
            return
        raise Untranslatable("assignment of " + type(v).__name__)

    def cell(self, v):
        if isinstance(v, float) and v != v:
            return NAN
        return num(v)

    # ================================================================= lists
    def list_pop(self, l, ix=-1):
        self.s.touch_list(l)
        items = self.seq_items(l)
        j = lit(self.unbox(ix))
        if items is not None and j is not None:
            if not (-len(items) <= j < len(items)):
                raise PyExc("IndexError")
            v = items.pop(j)
            l.prefix, l.items = None, items
            return v
        n = int_of(self.length(l))
        if j == -1 and l.items:
            return l.items.pop()
        snap = PList(l.items, l.prefix)
        if j == -1:
            self.check_index(n > 0)
            v = self.raw_index(snap, z3.simplify(n - 1))
            l.prefix, l.items = SList(z3.simplify(n - 1), lambda q: self.raw_index(snap, q)), []
            return v
        if j == 0:
            self.check_index(n > 0)
            v = self.raw_index(snap, z3.IntVal(0))
            l.prefix, l.items = SList(z3.simplify(n - 1), lambda q: self.raw_index(snap, z3.simplify(int_of(q) + 1))), []
            return v
        jj = int_of(self.unbox(ix))
        self.check_index(z3.And(jj >= 0, jj < n))
        v = self.raw_index(snap, jj)
        from .loops import merge
        l.prefix = SList(z3.simplify(n - 1), lambda q: merge(int_of(q) < jj, self.raw_index(snap, q),
                                                             self.raw_index(snap, int_of(q) + 1)))
        l.items = []
        return v

    def list_attr(self, l, name):
        def append(v):
            self.s.touch_list(l)
            l.items.append(v)

        def insert(i, v):
            items = self.seq_items(l)
            if items is None:
                if lit(i) == 0:
                    self.s.touch_list(l)
                    snap = PList(l.items, l.prefix)
                    nl = PList([v])
                    self.list_extend(nl, snap)
                    l.prefix, l.items = nl.prefix, nl.items
                    return
                raise Untranslatable("insert into symbolic list")
            self.s.touch_list(l)
            items.insert(lit(i), v)
            l.prefix, l.items = None, items

        def index(v):
            items = self.seq_items(l)
            if items is None:
                n, f = self.length(l), PList(l.items, l.prefix)
                lam, _ = T.lam_of(1, lambda q: to_bool(num(self.compare("Eq", self.raw_index(f, q), v))))
                r = T.functional("FIRST", 1, T.Bo, T.I)(lam, int_of(n))
                self.s.oblige("list.index finds the element", z3.And(r < int_of(n), r >= 0))
                return r
            for i, x in enumerate(items):
                c = self.compare("Eq", x, v)
                if self.ip.s.decide(c):
                    return i
            raise PyExc("ValueError")

        def sort(reverse=False, key=None):
            items = self.seq_items(l)
            if items is not None and all(isinstance(x, (int, float, str)) for x in items):
                self.s.touch_list(l)
                items.sort(reverse=reverse)
                l.items, l.prefix = items, None
                return
            raise Untranslatable("sort")

        def copy_():
            return PList(l.items, l.prefix)

        def clear():
            self.s.touch_list(l)
            l.items, l.prefix = [], None

        def remove(v):
            i = index(v)
            self.list_pop(l, i)

        def reverse():
            self.s.touch_list(l)
            items = self.seq_items(l)
            if items is None:
                raise Untranslatable("reverse")
            l.items, l.prefix = items[::-1], None
        t = {"append": append, "extend": lambda o: self.list_extend(l, o), "insert": insert, "index": index,
             "pop": lambda ix=-1: self.list_pop(l, ix), "sort": sort, "copy": copy_, "clear": clear,
             "remove": remove, "reverse": reverse}
        if name in t:
            return Builtin(t[name], "list." + name)
        if name == "count":
            def count(v):
                k, a, b = self.iteration(l)
                if k == "concrete":
                    rs = [self.compare("Eq", x, v) for x in a]
                    if all(isinstance(r, bool) for r in rs):
                        return sum(rs)
                    t_ = z3.IntVal(0)
                    for r in rs:
                        t_ = t_ + to_int(r)
                    return t_
                return T.ICOUNT(a, lambda i: to_bool(num(self.compare("Eq", b(i), v))))
            return Builtin(count, "list.count")
        raise PyExc("AttributeError", (name,))

    # ================================================================= attributes
    def attr(self, o, name):
        if isinstance(o, Poison):
            raise Untranslatable(o.why)
        if isinstance(o, Arr):
            return self.np.arr_attr(o, name)
        if isinstance(o, MaskSel):
            return self.np.mask_attr(o, name)
        if isinstance(o, PList):
            return self.list_attr(o, name)
        if isinstance(o, PDict):
            return self.dict_attr(o, name)
        if isinstance(o, str):
            return self.str_attr(o, name)
        if isinstance(o, Opaque):
            if o.tag == "str" or o.tag == "enum":
                if name in ("lower", "upper", "strip", "split", "replace", "startswith", "endswith", "format", "join"):
                    return Builtin(lambda *a, **k: o if name in ("lower", "upper", "strip") and o.tag == "enum" else
                                   Opaque("strop", (o, name) + a), name)
            return Opaque("attr", (o, name))
        if isinstance(o, PSet):
            def add(v):
                o.items.add(self.key(v))
            if name == "add":
                if self.s.levels:
                    raise Untranslatable("set mutation in a loop")
                return Builtin(add, "set.add")
            if name in ("difference", "union", "intersection", "issubset", "issuperset", "symmetric_difference"):
                def setop(*os):
                    its = [self.t_set(x).items for x in os]
                    if any(T.is_z3(v) for q in its + [o.items] for v in q):
                        raise Untranslatable("set of symbolic values")
                    r = getattr(set(o.items), name)(*its)
                    return r if isinstance(r, bool) else PSet(r)
                return Builtin(setop, "set." + name)
            raise Untranslatable(f"set.{name}")
        if is_scalar(o):
            return self.np.scalar_attr(o, name)
        if isinstance(o, tuple):
            if name in ("index", "count"):
                return self.list_attr(PList(o), name)
            raise PyExc("AttributeError", (name,))
        if o is None:
            raise PyExc("AttributeError", (f"None.{name}",))
        if isinstance(o, TypeV):
            if name == "__name__":
                return o.name
            if o.name == "str" and name == "join":
                return Builtin(lambda s, it: self.str_attr(s, "join").fn(it), "join")
        if isinstance(o, Func):
            if name == "__name__":
                return o.node.name
        if isinstance(o, slice):
            return getattr(o, name)
        if isinstance(o, (Builtin, DType)):
            return Opaque("attr", (o, name))
        raise Untranslatable(f"attribute {name} of {type(o).__name__}")

    def obj_attr(self, o, name):
        """attributes of library objects (Obj with a string class)"""
        h = getattr(self, "oa_" + str(o.cls), None)
        if h is not None:
            return h(o, name)
        if str(o.cls) in self.s.ghost.get("obj_attr", {}):
            return self.s.ghost["obj_attr"][str(o.cls)](o, name)
        raise PyExc("AttributeError", (name,))

    def dict_attr(self, d, name):
        def update(*a, **kw):
            self.s.touch_dict(d)
            for x in a:
                if not isinstance(x, PDict):
                    raise Untranslatable("dict.update")
                for k, v in x.items.items():
                    self.setitem(d, k, v)
                d.fams = d.fams + list(x.fams)
            for k, v in kw.items():
                self.setitem(d, k, v)

        def pop(k, default=KeyError):
            kk = self.key(k)
            if d.fams or any(T.is_z3(q) or isinstance(q, Opaque) for q in [*d.items, kk]):
                self.s.touch_dict(d)
                ok, v = self.drop_key(d, kk)
                if ok:
                    return v
            elif kk in d.items:
                v = d.items[kk]
                self.delitem(d, kk)
                return v
            if default is KeyError:
                raise PyExc("KeyError")
            return default

        def setdefault(k, v=None):
            c = self.contains(d, k)
            if self.s.decide(c):
                return self.dict_get(d, k)
            self.setitem(d, k, v)
            return v
        t = {"keys": lambda: self.dict_iter(d, "keys"), "values": lambda: self.dict_iter(d, "values"),
             "items": lambda: self.dict_iter(d, "items"), "get": lambda k, v=None: self.dict_get(d, k, v),
             "update": update, "pop": pop, "copy": lambda: PDict(d.items, d.fams), "setdefault": setdefault}
        if name in t:
            return Builtin(t[name], "dict." + name)
        raise PyExc("AttributeError", (name,))

    def str_attr(self, s_, name):
        def join(it):
            k, a, b = self.iteration(it)
            if k == "concrete" and all(isinstance(x, str) for x in a):
                return s_.join(a)
            return Opaque("str", (("join", s_, it, None),))

        def fmt(*a, **k):
            return Opaque("str", (("call", s_, a, None),))
        if name == "join":
            return Builtin(join, "join")
        if name == "format":
            return Builtin(fmt, "format")
        f = getattr(s_, name, None)
        if f is None:
            raise PyExc("AttributeError", (name,))

        def call(*a, **k):
            a = [tuple(x) if isinstance(x, tuple) else x for x in a]
            if any(not isinstance(x, (str, int, tuple, type(None))) for x in a):
                raise Untranslatable(f"str.{name}")
            r = f(*a, **k)
            return PList(r) if isinstance(r, list) else r
        return Builtin(call, "str." + name)

    def call_opaque(self, f, args, kw):
        return Opaque("call", (f,) + tuple(args))

    def opaque_truth(self, v):
        if v.tag == "str":
            if any(isinstance(p, str) and p for p in v.parts):
                return True
        return self.s.sym("truth", T.Bo)

    def enter(self, cm):
        if isinstance(cm, Opaque):
            return cm
        if isinstance(cm, Obj):
            if isinstance(cm.cls, Class) and "__enter__" in cm.cls.members:
                return self.ip.call(Bound(cm.cls.members["__enter__"], cm), [], {})
            return cm
        raise Untranslatable("with statement")

    def exit(self, cm):
        if isinstance(cm, Obj) and isinstance(cm.cls, Class) and "__exit__" in cm.cls.members:
            self.ip.call(Bound(cm.cls.members["__exit__"], cm), [None, None, None], {})

    # ================================================================= builtins
    def builtin(self, name):
        if self._bi is None:
            self._bi = self.make_builtins()
        return self._bi.get(name)

    def make_builtins(self):
        b = {}

        def reg(n, f):
            b[n] = Builtin(f, n)
        reg("len", self.length)
        reg("range", self.b_range)
        reg("enumerate", self.b_enumerate)
        reg("zip", self.b_zip)
        reg("abs", lambda x: self.lift(lambda v: abs(v) if not T.is_z3(v) else T.absv(v), x))
        reg("min", lambda *a, **k: self.b_minmax("min", *a, **k))
        reg("max", lambda *a, **k: self.b_minmax("max", *a, **k))
        reg("sum", self.b_sum)
        reg("round", lambda x, n=0: self.np.round_(x, n))
        reg("print", lambda *a, **k: None)
        reg("reversed", self.b_reversed)
        reg("sorted", self.b_sorted)
        reg("isinstance", self.b_isinstance)
        reg("hasattr", self.b_hasattr)
        reg("getattr", self.b_getattr)
        reg("setattr", lambda o, n, v: self.ip.setattr(o, n, v))
        reg("any", lambda x: self.b_anyall(x, "any"))
        reg("all", lambda x: self.b_anyall(x, "all"))
        reg("callable", lambda x: isinstance(x, (Func, Bound, Builtin, Class)))
        reg("map", self.b_map)
        reg("filter", self.b_filter)
        reg("id", lambda x: Opaque("id"))
        reg("repr", lambda x: Opaque("str", (("repr", x, None, None),)))
        reg("open", lambda *a, **k: Opaque("file", a))
        reg("super", lambda *a: Opaque("super"))
        reg("vars", lambda o: PDict(o.attrs))
        reg("locals", lambda: PDict({}))
        reg("globals", lambda: PDict({}))
        reg("iter", lambda x: x)
        reg("next", self.b_next)
        reg("hash", lambda x: Opaque("hash"))
        for n in ("int", "float", "str", "bool", "list", "dict", "tuple", "set", "object", "slice"):
            b[n] = Builtin(getattr(self, "t_" + n), n)
        b["type"] = Builtin(self.b_type, "type")
        for e in EXCS:
            b[e] = Builtin(lambda *a, e=e: PyExc(e, a), e)
        b["__name__"] = "module"
        b["__file__"] = "file"
        b["Ellipsis"] = Ellipsis
        b["NotImplemented"] = Opaque("NotImplemented")
        b["staticmethod"] = Builtin(lambda f: f, "staticmethod")
        return b

    def b_next(self, x, default=StopIteration):
        k, a, fn = self.iteration(x)
        if k == "concrete":
            if not a:
                if default is StopIteration:
                    raise PyExc("StopIteration")
                return default
            return a[0]
        if self.s.decide(int_of(a) > 0):
            return fn(z3.IntVal(0))
        if default is StopIteration:
            raise PyExc("StopIteration")
        return default

    def b_range(self, *a):
        a = [self.unbox(x) for x in a]
        for x in a:
            if isinstance(x, float) or (T.is_z3(x) and z3.is_real(x)) or not is_scalar(x):
                raise PyExc("TypeError", ("range() integer expected",))
        step = 1
        if len(a) == 1:
            start, stop = 0, a[0]
        else:
            start, stop = a[0], a[1]
            if len(a) == 3:
                step = lit(a[2])
                if step is None:
                    raise Untranslatable("symbolic range step")
        return SRange(start, stop, step)

    def b_enumerate(self, it, start=0):
        k, a, f = self.iteration(it)
        if k == "concrete":
            return It(items=[(i + start, x) for i, x in enumerate(a)])
        return It(n=a, fn=lambda i: (i if lit(start) == 0 else z3.simplify(int_of(i) + int_of(start)), f(i)))

    def b_zip(self, *its):
        xs = [self.iteration(i) for i in its]
        if all(x[0] == "concrete" for x in xs):
            return It(items=list(zip(*[x[1] for x in xs])))
        ns = [len(x[1]) if x[0] == "concrete" else x[1] for x in xs]
        n = ns[0]
        for m in ns[1:]:
            if not self.same_dim(n, m):
                n = ite(int_of(n) <= int_of(m), int_of(n), int_of(m))
        fs = [(lambda i, l=PList(x[1]): self.raw_index(l, i)) if x[0] == "concrete" else x[2] for x in xs]
        if lit(n) is not None:
            return It(items=[tuple(f(z3.IntVal(i)) for f in fs) for i in range(lit(n))])
        return It(n=n, fn=lambda i: tuple(f(i) for f in fs))

    def b_reversed(self, it):
        k, a, f = self.iteration(it)
        if k == "concrete":
            return It(items=a[::-1])
        n = int_of(a)
        return It(n=a, fn=lambda i: f(z3.simplify(n - 1 - int_of(i))))

    def b_sorted(self, it, reverse=False, key=None):
        k, a, f = self.iteration(it)
        if k == "concrete" and key is None and all(isinstance(x, (int, float)) for x in a) or \
                k == "concrete" and key is None and all(isinstance(x, str) for x in a):
            return PList(sorted(a, reverse=reverse))
        if k == "concrete" and len(a) <= 1:
            return PList(a)
        raise Untranslatable("sorted")

    def b_minmax(self, which, *a, key=None, default=None, **kw):
        if key is not None:
            raise Untranslatable("min/max with key")
        if len(a) == 1:
            x = self.unbox(a[0])
            if isinstance(x, Arr):
                if x.ndim != 1:
                    raise Untranslatable("min/max of a matrix")
                return self.np.reduce_all(which.upper(), x)
            k, items, f = self.iteration(x)
            if k == "sym":
                return T.MAX(items, lambda i: num(f(i))) if which == "max" else T.MIN(items, lambda i: num(f(i)))
        else:
            items = [self.unbox(v) for v in a]
        if not items:
            if default is not None:
                return default
            raise PyExc("ValueError", ("empty",))
        r = items[0]
        for x in items[1:]:
            c = self.rel("Lt" if which == "min" else "Gt", x, r)
            r = ite(c, x, r) if not isinstance(c, bool) else (x if c else r)
        return r

    def b_sum(self, x, start=0):
        x = self.unbox(x)
        if isinstance(x, Arr) and x.ndim == 1:
            r = self.np.sum(x)
        elif isinstance(x, Arr):
            r = self.np.sum(x, axis=0)
        else:
            k, a, f = self.iteration(x)
            if k == "concrete":
                r = start
                for v in a:
                    r = self.binop("Add", r, v)
                return r
            p = T.fresh_int("p")
            kd = kind_of(f(p))
            r = T.ISUM(a, lambda i: to_int(f(i))) if kd in ("int", "bool") else SUM(a, lambda i: to_real(f(i)))
        if lit(start) == 0:
            return r
        return self.binop("Add", start, r)

    def b_anyall(self, x, which):
        x = self.unbox(x)
        if isinstance(x, Arr):
            return self.np.anyall(x, which)
        k, a, f = self.iteration(x)
        if k == "concrete":
            ts = [self.ip.truth_term(v) for v in a]
            if all(isinstance(t, bool) for t in ts):
                return any(ts) if which == "any" else all(ts)
            return disj(ts) if which == "any" else conj(ts)
        g = T.ANY if which == "any" else T.ALL
        return g(a, lambda i: to_bool(num(self.ip.truth_term(f(i)))))

    def b_map(self, f, *its):
        z = self.b_zip(*its)
        k, a, g = self.iteration(z)
        if k == "concrete":
            return It(items=[self.ip.call(f, list(x), {}) for x in a])
        return It(n=a, fn=lambda i: self.ip.call(f, list(g(i)), {}))

    def b_filter(self, f, it):
        k, a, g = self.iteration(it)
        if k == "concrete":
            out = []
            for x in a:
                if self.s.decide(self.ip.truth_term(x if f is None else self.ip.call(f, [x], {}))):
                    out.append(x)
            return It(items=out)
        raise Untranslatable("filter")

    def b_type(self, v):
        v = self.unbox(v)
        if isinstance(v, Arr):
            return NDARRAY
        if isinstance(v, Obj):
            return v.cls
        n = self.type_name(v)
        return PYTYPES.get(n) or TypeV(n)

    def type_name(self, v):
        if v is None:
            return "NoneType"
        if isinstance(v, bool) or (T.is_z3(v) and z3.is_bool(v)):
            return "bool"
        if isinstance(v, int) or (T.is_z3(v) and z3.is_int(v)):
            return "int"
        if isinstance(v, float) or (T.is_z3(v) and z3.is_real(v)):
            return "float"
        if isinstance(v, str) or (isinstance(v, Opaque) and v.tag in ("str", "enum", "strop")):
            return "str"
        if isinstance(v, (PList, SList)):
            return "list"
        if isinstance(v, PDict):
            return "dict"
        if isinstance(v, tuple):
            return "tuple"
        if isinstance(v, PSet):
            return "set"
        if isinstance(v, slice):
            return "slice"
        if isinstance(v, SRange):
            return "range"
        if isinstance(v, (Arr, MaskSel)):
            return "ndarray"
        if isinstance(v, Obj):
            return v.cls.qual if isinstance(v.cls, Class) else str(v.cls)
        if isinstance(v, Opaque):
            return "opaque:" + v.tag
        return type(v).__name__

    def b_isinstance(self, v, t):
        v = self.unbox(v)
        if isinstance(t, tuple):
            rs = [self.b_isinstance(v, x) for x in t]
            return any(rs)
        n = self.type_name(v)
        if isinstance(t, Class):
            return isinstance(v, Obj) and v.cls is t
        tn = getattr(t, "name", None)
        if isinstance(t, Opaque):
            tn = str(t.parts[-1]) if t.parts else None
        if tn is None:
            raise Untranslatable("isinstance")
        if n.startswith("opaque"):
            if tn in ("ndarray", "list", "dict", "tuple"):
                return False
            raise Untranslatable("isinstance of an unknown value")
        if tn == n or (tn == "int" and n == "bool"):
            return True
        if tn in ("floating", "float64", "float32") and n == "float":
            return False
        if tn == "Mapping":
            return n == "dict"
        return False

    def b_hasattr(self, o, n):
        if isinstance(o, Opaque):
            return self.s.sym("hasattr", T.Bo)
        try:
            self.ip.getattr(o, n)
            return True
        except PyExc:
            return False

    def b_getattr(self, o, n, *d):
        try:
            return self.ip.getattr(o, n)
        except PyExc:
            if d:
                return d[0]
            raise

    # types as functions
    def t_int(self, x=0, base=10):
        x = self.unbox(x)
        if isinstance(x, str):
            try:
                return int(x, base)
            except ValueError:
                raise PyExc("ValueError")
        if isinstance(x, (bool, int, float)):
            try:
                return int(x)
            except (ValueError, OverflowError) as e:
                raise PyExc(type(e).__name__)
        if T.is_z3(x):
            if z3.is_real(x):
                f = z3.simplify(x)
                if z3.is_app_of(f, z3.Z3_OP_TO_REAL):
                    return f.arg(0)
                if self.s.entails(x >= 0):
                    return z3.ToInt(x)
                return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            return to_int(x)
        if isinstance(x, Arr) and all(lit(d) == 1 for d in x.shape):
            return self.t_int(x.get(*[z3.IntVal(0)] * x.ndim))
        if x is None or isinstance(x, (PList, PDict)):
            raise PyExc("TypeError")
        if isinstance(x, Opaque):
            return self.s.sym("int", T.I)
        raise Untranslatable("int()")

    def t_float(self, x=0.0):
        x = self.unbox(x)
        if isinstance(x, str):
            try:
                return float(x)
            except ValueError:
                raise PyExc("ValueError")
        if isinstance(x, (bool, int, float)):
            return float(x)
        if T.is_z3(x):
            return to_real(x)
        if isinstance(x, Arr) and all(lit(d) == 1 for d in x.shape):
            return to_real(x.get(*[z3.IntVal(0)] * x.ndim))
        if x is None or isinstance(x, (PList, PDict)):
            raise PyExc("TypeError")
        if isinstance(x, Opaque):
            return self.s.sym("float", T.R)
        raise Untranslatable("float()")

    def t_str(self, x=""):
        x = self.unbox(x)
        if isinstance(x, (str, int, float, bool)) or x is None:
            return str(x)
        if isinstance(x, Opaque) and x.tag in ("str", "enum"):
            return x
        return Opaque("str", (("fmt", x, ""),))

    def t_bool(self, x=False):
        return self.ip.truth_term(x)

    def t_list(self, x=()):
        k, a, f = self.iteration(x)
        if k == "concrete":
            return PList(a)
        return PList([], SList(a, f))

    def t_tuple(self, x=()):
        k, a, f = self.iteration(x)
        if k == "concrete":
            return tuple(a)
        if lit(a) is not None:
            return tuple(f(z3.IntVal(i)) for i in range(lit(a)))
        raise Untranslatable("tuple of symbolic length")

    def t_dict(self, x=None, **kw):
        if x is None:
            return PDict(kw)
        if isinstance(x, PDict):
            return PDict(x.items, x.fams)
        k, a, f = self.iteration(x)
        if k == "concrete":
            d = PDict()
            for y in a:
                p, q = self.unpack(y, 2)
                d.items[self.key(p)] = q
            return d
        return PDict({}, [(a, lambda i: f(i)[0], lambda i: f(i)[1])])

    def t_set(self, x=()):
        k, a, f = self.iteration(x)
        if k == "concrete" and not any(T.is_z3(v) for v in a):
            return PSet([self.key(v) for v in a])
        if k == "concrete" and len(a) == 1:
            return PSet([self.key(a[0])])
        raise Untranslatable("set of symbolic values")

    def t_object(self):
        return Opaque("object")

    def t_slice(self, *a):
        return slice(*a)

    # ================================================================= modules
    def attr_of_module(self, mod, name):
        over = self.s.ghost.get("mods", {})
        if (mod, name) in over:
            return over[(mod, name)]
        if mod in ("numpy", "np"):
            return self.np.module_attr(name)
        if mod == "numpy.linalg":
            return self.np.linalg(name)
        if mod == "numpy.random":
            return self.np.random(name)
        if mod == "copy":
            return {"copy": Builtin(self.copy, "copy.copy"), "deepcopy": Builtin(self.deepcopy, "deepcopy")}[name]
        if mod == "math":
            return self.math(name)
        if mod in ("tqdm", "tqdm.auto", "tqdm.notebook"):
            if name in ("tqdm", "trange"):
                return Builtin(self.tqdm if name == "tqdm" else self.trange, name)
            if name in ("notebook", "auto"):
                return Mod("tqdm." + name)
            if name == "tnrange":
                return Builtin(self.trange, name)
        if mod == "os":
            if name == "path":
                return Mod("os.path")
            if name == "cpu_count":
                return Builtin(self.cpu_count, "cpu_count")
            return Opaque("os." + name)
        if mod == "os.path":
            if name == "join":
                def join(*a):
                    if all(isinstance(x, str) for x in a):
                        import os
                        return os.path.join(*a)
                    return Opaque("path", a)
                return Builtin(join, "join")
            return Builtin(lambda *a, **k: Opaque("os.path." + name, a), name)
        if mod == "logging":
            return Builtin(lambda *a, **k: Opaque("logging"), "logging." + name) if name == "getLogger" else \
                Opaque("logging." + name)
        if mod == "collections" and name == "OrderedDict":
            return Builtin(self.t_dict, "OrderedDict")
        if mod == "itertools":
            return self.itertools(name)
        if mod == "types" and name in ("SimpleNamespace",):
            raise Untranslatable("types.SimpleNamespace")
        if mod == "sys" and name == "float_info":
            return Opaque("float_info")
        if mod in ("time", "datetime", "pathlib", "typing", "json", "pickle", "plotly", "plotly.graph_objects",
                   "plotly.subplots", "matplotlib", "matplotlib.pyplot", "warnings", "types", "multiprocessing", "sys",
                   "random", "re", "string", "scipy", "scipy.stats", "scipy.cluster", "scipy.cluster.vq", "pandas",
                   "scipy.sparse", "scipy.sparse.csgraph", "scipy.optimize", "scipy.spatial", "scipy.linalg", "logging.handlers", "concurrent.futures", "shutil",
                   "statsmodels", "sklearn", "sklearn.impute", "sklearn.experimental", "plotly.io", "arch",
                   "arch.bootstrap", "functools", "esat_rust", "click", "numpy.lib", "psutil", "queue", "threading",
                   "seaborn", "dash", "ipywidgets", "IPython.display"):
            return Opaque(f"{mod}.{name}", ())
        raise Untranslatable(f"library {mod}.{name}")

    def itertools(self, name):
        import itertools

        def perms(x, r=None):
            items = self.concrete_items(x)
            return It(items=[tuple(p) for p in itertools.permutations(items, r)])

        def prod(*xs):
            return It(items=[tuple(p) for p in itertools.product(*[self.concrete_items(x) for x in xs])])

        def combos(x, r):
            return It(items=[tuple(p) for p in itertools.combinations(self.concrete_items(x), r)])
        t = {"permutations": perms, "product": prod, "combinations": combos}
        if name in t:
            return Builtin(t[name], name)
        raise Untranslatable(f"itertools.{name}")

    def cpu_count(self):
        c = z3.Const("cpu_count", T.I)
        self.s.assume(c >= 1)
        return c

    def math(self, name):
        import math
        if name in ("pi", "e", "inf"):
            return getattr(math, name)
        if name == "nan":
            return NAN
        t = {"floor": self.np.floor_int, "ceil": self.np.ceil_int,
             "sqrt": lambda x: math.sqrt(x) if not T.is_z3(x) else T.sqrt(x),
             "isnan": lambda x: self.np.isnan(x), "log": lambda x: self.np.fun1("LOG", x),
             "exp": lambda x: self.np.fun1("EXP", x), "fabs": lambda x: T.absv(to_real(x)),
             "isinf": lambda x: False, "isfinite": lambda x: z3.Not(self.np.isnan(x)) if T.is_z3(x) else math.isfinite(x),
             "pow": lambda a, b: self.scal("Pow", a, b)}
        if name in t:
            return Builtin(t[name], "math." + name)
        raise Untranslatable(f"math.{name}")

    def tqdm(self, it=None, **kw):
        if it is None:
            return Opaque("tqdm")
        k, a, f = self.iteration(it)
        r = It(items=a) if k == "concrete" else It(n=a, fn=f)
        return self.bar(r)

    def trange(self, *a, **kw):
        return self.bar(self.b_range(*a))

    def bar(self, it):
        return Obj("bar", {"it": it})

    def oa_Rng(self, o, name):
        return self.np.rng_attr(o, name)

    def oa_bar(self, o, name):
        return Builtin(lambda *a, **k: None, "bar." + name)

    def obj_iter(self, o):
        if o.cls == "bar":
            return o.attrs["it"]
        raise Untranslatable(f"iteration over {o.cls}")

    # ================================================================= copying
    def copy(self, v):
        v = self.unbox(v)
        if isinstance(v, Arr):
            return v.freeze()
        if isinstance(v, Obj):
            return Obj(v.cls, dict(v.attrs), v.name)
        if isinstance(v, PList):
            return PList(v.items, v.prefix)
        if isinstance(v, PDict):
            return PDict(v.items, v.fams)
        if isinstance(v, PSet):
            return PSet(v.items)
        return v

    def deepcopy(self, v, memo=None):
        memo = {} if memo is None else memo
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Obj):
            r = Obj(v.cls, {}, v.name)
            memo[id(v)] = r
            r.attrs = {k: self.deepcopy(x, memo) for k, x in v.attrs.items()}
            return r
        if isinstance(v, Arr):
            r = v.freeze()
        elif isinstance(v, PList):
            r = PList([self.deepcopy(x, memo) for x in v.items], v.prefix)
        elif isinstance(v, PDict):
            r = PDict([(k, self.deepcopy(x, memo)) for k, x in v.items.items()], v.fams)
        elif isinstance(v, tuple):
            r = tuple(self.deepcopy(x, memo) for x in v)
        else:
            return v
        memo[id(v)] = r
        return r


def is_zero(x):
    return (z3.is_int_value(x) and x.as_long() == 0) or (z3.is_rational_value(x) and x.as_fraction() == 0)


def is_one(x):
    return (z3.is_int_value(x) and x.as_long() == 1) or (z3.is_rational_value(x) and x.as_fraction() == 1)

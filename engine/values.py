"""Run-time values of the symbolic interpreter."""
import z3
from . import terms as T
from .terms import Untranslatable, I, R


_serial = [0]


def serial():
    _serial[0] += 1
    return _serial[0]


class Store:
    __slots__ = ("fn", "ndim", "kind", "serial", "shape")

    def __init__(self, fn, ndim=None, kind="real", shape=None):
        self.fn = fn
        self.ndim = ndim
        self.kind = kind
        self.shape = shape
        self.serial = serial()


class Arr:
    """A (possibly symbolic-shape) numpy array.  Root arrays own a Store; views map their indices into a base."""

    def __init__(self, shape, fn=None, kind="real", base=None, imap=None, inv=None, store=None):
        self.shape = tuple(shape)
        self.kind = kind
        self.base = base
        self.imap = imap
        self.inv = inv
        self.store = store if store is not None else (Store(fn, len(self.shape), kind, self.shape) if base is None else None)

    @property
    def ndim(self):
        return len(self.shape)

    def snap(self):
        """Pure function of the current contents."""
        if self.base is None:
            return self.store.fn
        f, m = self.base.snap(), self.imap
        return lambda *ix: f(*m(*ix))

    def get(self, *ix):
        return self.snap()(*ix)

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    def freeze(self):
        return Arr(self.shape, self.snap(), self.kind)

    # convenience for contracts ---------------------------------------------------
    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        ix = tuple(T.int_of(i) if not T.is_z3(i) else i for i in ix)
        if len(ix) == self.ndim:
            return self.get(*ix)
        f = self.snap()
        return Arr(self.shape[len(ix):], lambda *r: f(*ix, *r), self.kind)

    @property
    def T(self):
        return Arr(self.shape[::-1], base=self, kind=self.kind, imap=lambda *ix: ix[::-1],
                   inv=lambda *r: (True, r[::-1]))

    def __repr__(self):
        return f"Arr{self.shape}:{self.kind}"


def row_view(a, i, axis=0):
    """a with axis fixed to i."""
    shape = a.shape[:axis] + a.shape[axis + 1:]

    def imap(*ix):
        return ix[:axis] + (i,) + ix[axis:]

    def inv(*r):
        return (r[axis] == i), r[:axis] + r[axis + 1:]
    return Arr(shape, base=a, kind=a.kind, imap=imap, inv=inv)


def slice_view(a, axis, start, length, step=1):
    shape = a.shape[:axis] + (length,) + a.shape[axis + 1:]

    def imap(*ix):
        return ix[:axis] + (start + ix[axis] * step if step != 1 else start + ix[axis],) + ix[axis + 1:]

    def inv(*r):
        p = r[axis] - start
        if step == 1:
            return z3.And(p >= 0, p < T.int_of(length)), r[:axis] + (p,) + r[axis + 1:]
        if step == -1:
            q = start - r[axis]
            return z3.And(q >= 0, q < T.int_of(length)), r[:axis] + (q,) + r[axis + 1:]
        raise Untranslatable("strided slice write")
    return Arr(shape, base=a, kind=a.kind, imap=imap, inv=inv)


class MaskSel:
    """A[mask] read as a value: only elementwise operations and same-mask assignment / reductions are defined."""

    def __init__(self, shape, mask, val, kind="real"):
        self.shape, self.mask, self.val, self.kind = shape, mask, val, kind


class SList:
    """Immutable symbolic-length sequence: n and fn(i) -> value."""
    upd = None          # (sequence, position, value) when made by one item assignment

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def __repr__(self):
        return f"SList({self.n})"


class PList:
    """A Python list: optional symbolic prefix, then concrete items."""

    def __init__(self, items=(), prefix=None):
        self.items = list(items)
        self.prefix = prefix
        self.serial = serial()

    def __repr__(self):
        return f"PList({self.prefix}, {self.items})"


class PDict:
    """A Python dict: concrete entries (insertion ordered) and symbolic families (n, keyfn, valfn)."""

    def __init__(self, items=(), fams=()):
        self.items = dict(items)
        self.fams = list(fams)
        self.serial = serial()

    def __repr__(self):
        return f"PDict({self.items}, {len(self.fams)} fams)"


class PSet:
    def __init__(self, items=()):
        self.items = set(items)


class Obj:
    def __init__(self, cls, attrs=None, name=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.name = name
        self.serial = serial()

    def __repr__(self):
        return f"Obj({self.cls})"


class Opaque:
    """An unknown, side-effect free value (formatted strings, timestamps, file handles ...)."""

    def __init__(self, tag="?", parts=()):
        self.tag = tag
        self.parts = tuple(parts)

    def __repr__(self):
        return f"Opaque({self.tag})"


def text(*parts):
    """a string made of the parts, literal neighbours joined"""
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif not (isinstance(p, str) and not p):
            out.append(p)
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    return Opaque("str", tuple(out))


class Poison:
    def __init__(self, why):
        self.why = why


class Func:
    def __init__(self, node, module, env, qual, cls=None, static=False, defaults=None, kwdefaults=None):
        self.node, self.module, self.env, self.qual, self.cls, self.static = node, module, env, qual, cls, static
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or []

    def __repr__(self):
        return f"Func({self.qual})"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Class:
    def __init__(self, node, module, qual):
        self.node, self.module, self.qual = node, module, qual
        self.members = {}

    def __repr__(self):
        return f"Class({self.qual})"


class Builtin:
    def __init__(self, fn, name):
        self.fn, self.name = fn, name

    def __repr__(self):
        return f"Builtin({self.name})"


class Mod:
    """A library module (dotted)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Mod({self.name})"


class DType:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name


class PyExc(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, cls, args=()):
        self.ecls, self.eargs = cls, args
        super().__init__(f"{cls}: {args}")


class SRange:
    """range(start, stop, step) with symbolic bounds (step = +-1 or concrete)."""

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        s = self.step
        d = T.int_of(self.stop) - T.int_of(self.start) if s > 0 else T.int_of(self.start) - T.int_of(self.stop)
        if abs(s) != 1:
            d = (d + (abs(s) - 1)) / abs(s)      # z3 integer division, abs(s) > 0
        d = z3.simplify(d)
        l = T.lit(d)
        if l is not None:
            return max(l, 0)
        return d

    def item(self, i):
        return z3.simplify(T.int_of(self.start) + i * self.step)


def is_scalar(v):
    return isinstance(v, (bool, int, float)) or (T.is_z3(v) and not z3.is_array(v))


def subst(v, pairs):
    """Substitute z3 constants in a value (structure-preserving copy)."""
    if T.is_z3(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, Arr):
        f = v.snap()
        sh = tuple(subst(s, pairs) for s in v.shape)

        def fn(*ix):
            # protect the index arguments from the substitution
            ps = [T.fresh_int("p") for _ in ix]
            e = z3.substitute(T.num(f(*ps)), *pairs)
            return z3.substitute(e, *[(p, i) for p, i in zip(ps, [T.int_of(i) for i in ix])])
        return Arr(sh, fn, v.kind)
    if isinstance(v, MaskSel):
        raise Untranslatable("substitution in masked selection")
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, SList):
        f = v.fn

        def fn2(i):
            p = T.fresh_int("p")
            return subst(subst(f(p), pairs), [(p, T.int_of(i))])
        return SList(subst(v.n, pairs) if T.is_z3(v.n) else v.n, fn2)
    if isinstance(v, PList):
        return PList([subst(x, pairs) for x in v.items], None if v.prefix is None else subst(v.prefix, pairs))
    if isinstance(v, PDict):
        fams = []
        for (n, kf, vf) in v.fams:
            def mk(f):
                def g(i):
                    p = T.fresh_int("p")
                    return subst(subst(f(p), pairs), [(p, T.int_of(i))])
                return g
            fams.append((subst(n, pairs) if T.is_z3(n) else n, mk(kf), mk(vf)))
        return PDict([(k, subst(x, pairs)) for k, x in v.items.items()], fams)
    if isinstance(v, Obj):
        return Obj(v.cls, {k: subst(x, pairs) for k, x in v.attrs.items()}, v.name)
    if isinstance(v, Opaque):
        return Opaque(v.tag, tuple(subst(x, pairs) for x in v.parts))
    if isinstance(v, Bound):
        return Bound(v.fn, subst(v.self_, pairs))
    return v


def freeze(v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Arr):
        r = v.freeze()
    elif isinstance(v, tuple):
        r = tuple(freeze(x, memo) for x in v)
    elif isinstance(v, PList):
        r = PList([freeze(x, memo) for x in v.items], v.prefix)
    elif isinstance(v, PDict):
        r = PDict([(k, freeze(x, memo)) for k, x in v.items.items()], v.fams)
    elif isinstance(v, Obj):
        r = Obj(v.cls, {}, v.name)
        memo[id(v)] = r
        r.attrs = {k: freeze(x, memo) for k, x in v.attrs.items()}
    else:
        return v
    memo[id(v)] = r
    return r


def value_mentions(v, names):
    """does any z3 term inside v use a decl in names?"""
    if T.is_z3(v):
        return T.mentions_any(v, names)
    if isinstance(v, Arr):
        ps = [T.fresh_int("p") for _ in v.shape]
        return any(T.is_z3(s) and T.mentions_any(s, names) for s in v.shape) or T.mentions_any(T.num(v.get(*ps)), names)
    if isinstance(v, (tuple, list)):
        return any(value_mentions(x, names) for x in v)
    if isinstance(v, SList):
        p = T.fresh_int("p")
        return (T.is_z3(v.n) and T.mentions_any(v.n, names)) or value_mentions(v.fn(p), names)
    if isinstance(v, PList):
        return value_mentions(v.items, names) or (v.prefix is not None and value_mentions(v.prefix, names))
    if isinstance(v, PDict):
        p = T.fresh_int("p")
        return any(value_mentions(x, names) for x in v.items.values()) or \
            any((T.is_z3(n) and T.mentions_any(n, names)) or value_mentions(kf(p), names) or value_mentions(vf(p), names)
                for n, kf, vf in v.fams)
    if isinstance(v, Obj):
        return any(value_mentions(x, names) for x in v.attrs.values())
    if isinstance(v, Opaque):
        return value_mentions(v.parts, names)
    return False

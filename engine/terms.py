"""Terms: z3 expressions plus *functionals* (Sum, Max, Argmax, Inv, ...) over index lambdas.

A functional application is an uninterpreted z3 function applied to a z3 Lambda (the body as a function of the bound
index) and the range length.  The prover (prover.py) never hands the lambdas to a solver: it replaces each functional
application by a constant and adds the lemmas it can establish separately (extensionality, sign, monotonicity,
linearity, last-element unrolling, order axioms of max/min/argmax).
"""
import z3
from fractions import Fraction

I = z3.IntSort()
R = z3.RealSort()
Bo = z3.BoolSort()


class Untranslatable(Exception):
    """The code (or contract) uses something outside the verified subset."""


_fun_cache = {}
FUNCTIONALS = {}          # z3 decl name -> (kind, nbound)


def functional(kind, nb, dom, rng, extra=()):
    """Declares functional `kind` with nb bound Int indices, body sort dom, result sort rng, extra scalar args."""
    key = (kind, nb, str(dom), str(rng), tuple(str(e) for e in extra))
    if key not in _fun_cache:
        lam_sort = z3.ArraySort(*([I] * nb + [dom]))
        name = f"{kind}!{nb}!{dom}!{rng}" + ("!" + "!".join(str(e) for e in extra) if extra else "")
        f = z3.Function(name, lam_sort, *([I] * nb), *extra, rng)
        _fun_cache[key] = f
        FUNCTIONALS[name] = (kind, nb)
    return _fun_cache[key]


_ctr = [0]


def fresh(prefix, sort):
    _ctr[0] += 1
    return z3.Const(f"{prefix}!{_ctr[0]}", sort)


def fresh_int(p="i"):
    return fresh(p, I)


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def num(x):
    """Python number -> z3 numeral (floats by their shortest decimal)."""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Untranslatable(f"non-finite float constant {x}")
        from decimal import Decimal
        return z3.RealVal(str(Fraction(Decimal(repr(x)))))
    if is_z3(x):
        return x
    raise Untranslatable(f"not a number: {x!r}")


def to_real(x):
    x = num(x)
    if z3.is_bool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(x):
        if z3.is_int_value(x):
            return z3.RealVal(x.as_long())
        return z3.ToReal(x)
    return x


def to_int(x):
    x = num(x)
    if z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(x):
        return x
    raise Untranslatable("real used as int")


def to_bool(x):
    x = num(x)
    if z3.is_bool(x):
        return x
    return x != 0


def same_sort(a, b):
    a, b = num(a), num(b)
    if a.sort() == b.sort():
        return a, b
    if z3.is_bool(a) and z3.is_bool(b):
        return a, b
    if z3.is_real(a) or z3.is_real(b):
        return to_real(a), to_real(b)
    return to_int(a), to_int(b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if not is_z3(a) and not is_z3(b) and type(a) is type(b) and a == b:
        return a
    a, b = same_sort(a, b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def conj(cs):
    cs = [c for c in cs if not (c is True or (is_z3(c) and z3.is_true(c)))]
    if any(c is False or (is_z3(c) and z3.is_false(c)) for c in cs):
        return z3.BoolVal(False)
    if not cs:
        return z3.BoolVal(True)
    if len(cs) == 1:
        return num(cs[0])
    return z3.And(*cs)


def disj(cs):
    cs = [c for c in cs if not (c is False or (is_z3(c) and z3.is_false(c)))]
    if any(c is True or (is_z3(c) and z3.is_true(c)) for c in cs):
        return z3.BoolVal(True)
    if not cs:
        return z3.BoolVal(False)
    if len(cs) == 1:
        return num(cs[0])
    return z3.Or(*cs)


def mentions(e, v):
    """Does expression e contain the constant v (possibly below a binder)?"""
    vid = v.get_id()
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == vid:
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def mentions_any(e, names):
    """names: set of decl names."""
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() in names:
                return True
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return False


_B = [z3.Int("b0"), z3.Int("b1"), z3.Int("b2"), z3.Int("b3")]


def mk_lambda(ks, e):
    """Lambda with canonical bound names, so that alpha-equivalent lambdas are identical terms."""
    return z3.Lambda(_B[:len(ks)], z3.substitute(e, *[(k, b) for k, b in zip(ks, _B)]))


def lam_of(nb, body, sort=None):
    """body: function of nb z3 Ints -> value.  Returns (Lambda term, body sort)."""
    ks = [fresh_int("k") for _ in range(nb)]
    e = num(body(*ks))
    if sort is not None:
        e = to_real(e) if sort == R else e
    e = z3.simplify(e)
    return mk_lambda(ks, e), e.sort()


def app_body(lam, args):
    """Body of lambda instantiated at args (list of Int terms)."""
    n = lam.num_vars()
    assert n == len(args)
    # de Bruijn: variable 0 is the LAST bound
    return z3.substitute_vars(lam.body(), *reversed(args))


def int_of(n):
    return z3.IntVal(n) if isinstance(n, int) else n


def lit(n):
    """concrete int of n or None"""
    if isinstance(n, int):
        return n
    n = z3.simplify(n)
    return n.as_long() if z3.is_int_value(n) else None


EXPAND = 4


def SUM(n, body):
    ln = lit(n)
    if ln is not None and ln <= EXPAND:
        if ln <= 0:
            return z3.RealVal(0)
        t = to_real(body(z3.IntVal(0)))
        for q in range(1, ln):
            t = t + to_real(body(z3.IntVal(q)))
        return t
    k = fresh_int("k")
    e = z3.simplify(to_real(body(k)))
    return sum_expr(n, k, e)


def sum_expr(n, k, e):
    """Normalised sum of e over k<n."""
    e = in_range(n, k, e)
    if not mentions(e, k):
        return z3.ToReal(nneg(n)) * e if not z3.is_rational_value(e) or e.as_fraction() != 0 else z3.RealVal(0)
    out, ins = split_factors(e, k)
    for q, f in enumerate(ins):
        d = delta(f, k)
        if d is not None:
            t, val = d
            body = prod(ins[:q] + [val] + ins[q + 1:])
            body = z3.simplify(z3.substitute(body, (k, t)))
            hit = z3.simplify(z3.And(t >= 0, t < int_of(n)))
            return prod(out + [z3.simplify(z3.If(hit, body, z3.RealVal(0)))])
    inner = prod(ins)
    f = functional("SUM", 1, R, R)
    t = f(mk_lambda([k], inner), int_of(n))
    return prod(out + [t])


def in_range(n, k, e):
    """rewrites range tests of the bound index inside a reduction body (there 0 <= k < n holds)"""
    n = int_of(n)
    subs = [(k >= 0, z3.BoolVal(True)), (n <= k, z3.BoolVal(False)), (k < n, z3.BoolVal(True)),
            (k <= -1, z3.BoolVal(False)), (k < 0, z3.BoolVal(False))]
    ln = lit(n)
    if ln is not None:
        subs += [(k >= ln, z3.BoolVal(False)), (k <= ln - 1, z3.BoolVal(True))]
    r = z3.substitute(e, *subs)
    return e if r.eq(e) else z3.simplify(r)


def delta(f, k):
    """f = If(k == t [and ...], A, 0) with t free of k: returns (t, If(..., A, 0))"""
    if not z3.is_app_of(f, z3.Z3_OP_ITE):
        return None
    c, a, b = f.children()

    def zero(x):
        return z3.is_rational_value(x) and x.as_fraction() == 0
    if not zero(b):
        if zero(a) and z3.is_not(c):
            c, a = c.arg(0), b
        else:
            return None
    parts = c.children() if z3.is_and(c) else [c]
    for q, p in enumerate(parts):
        if z3.is_eq(p) and z3.is_int(p.arg(0)):
            for x, y in ((p.arg(0), p.arg(1)), (p.arg(1), p.arg(0))):
                if x.eq(k) and not mentions(y, k):
                    rest = parts[:q] + parts[q + 1:]
                    return y, (z3.If(z3.And(*rest), a, z3.RealVal(0)) if rest else a)
    return None


def nneg(n):
    """range lengths are always used as max(n,0); dims are assumed >= 0 by the prover."""
    return int_of(n)


def prod(fs):
    if not fs:
        return z3.RealVal(1)
    t = fs[0]
    for f in fs[1:]:
        t = t * f
    return t


def flatten_mul(e):
    if z3.is_mul(e):
        r = []
        for c in e.children():
            r.extend(flatten_mul(c))
        return r
    if z3.is_div(e):
        return flatten_mul(e.arg(0)) + [1 / d for d in _den(e.arg(1))]
    return [e]


def _den(e):
    if z3.is_mul(e):
        r = []
        for c in e.children():
            r.extend(_den(c))
        return r
    return [e]


def split_factors(e, k):
    fs = flatten_mul(e)
    out = [f for f in fs if not mentions(f, k)]
    ins = [f for f in fs if mentions(f, k)]
    return out, ins


def COUNT(n, body):
    return SUM(n, lambda k: ite(to_bool(body(k)), z3.RealVal(1), z3.RealVal(0)))


def ICOUNT(n, body):
    """integer-valued count"""
    f = functional("ICOUNT", 1, Bo, I)
    lam, _ = lam_of(1, lambda k: to_bool(body(k)))
    return f(lam, int_of(n))


def ISUM(n, body):
    f = functional("ISUM", 1, I, I)
    k = fresh_int("k")
    e = z3.simplify(to_int(body(k)))
    if not mentions(e, k):
        return int_of(n) * e
    return f(mk_lambda([k], e), int_of(n))


def red(kind, n, body, rng=None):
    """Generic 1-index reduction functional with congruence (and, for known kinds, axioms)."""
    lam, s = lam_of(1, body)
    if s == I and kind not in ("MAXI", "MINI"):
        lam, s = lam_of(1, lambda k: to_real(body(k)))
    f = functional(kind, 1, s, s if rng is None else rng)
    return f(lam, int_of(n))


def ANY(n, body):
    ln = lit(n)
    if ln is not None and ln <= EXPAND:
        return disj([to_bool(body(z3.IntVal(q))) for q in range(ln)])
    k = fresh_int("k")
    e = z3.simplify(to_bool(body(k)))
    if not mentions(e, k):
        return conj([e, int_of(n) > 0])
    f = functional("ANY", 1, Bo, Bo)
    return f(mk_lambda([k], e), int_of(n))


def ALL(n, body):
    return z3.Not(ANY(n, lambda k: z3.Not(to_bool(body(k)))))


def MAX(n, body):
    return red("MAX", n, body)


def MIN(n, body):
    return red("MIN", n, body)


def ARGMAX(n, body):
    """first index of the maximum"""
    return red("ARGMAX", n, body, I)


def ARGMIN(n, body):
    return red("ARGMIN", n, body, I)


# ---- uninterpreted / axiomatised scalar functions -------------------------------------------------
SQRT = z3.Function("SQRT", R, R)
ROUND = z3.Function("ROUND", R, I, R)
ISNAN = z3.Function("ISNAN", R, Bo)
POW = z3.Function("POW", R, R, R)
FLOOR = None


def sqrt(x):
    return SQRT(to_real(x))


def absv(x):
    x = num(x)
    if z3.is_int(x):
        return z3.If(x >= 0, x, -x)
    x = to_real(x)
    return z3.If(x >= 0, x, -x)


_scalar_funs = {}


def ufun(name, *sorts):
    key = (name, tuple(str(s) for s in sorts))
    if key not in _scalar_funs:
        _scalar_funs[key] = z3.Function(name, *sorts)
    return _scalar_funs[key]

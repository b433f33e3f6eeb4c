"""Loops: concrete unrolling, automatic summarisation of symbolic-length for-loops, invariant-cut loops."""
import ast
import z3
from . import terms as T
from .terms import Untranslatable, to_bool, to_real, ite, conj, disj
from .values import *
from .interp import (_MISSING, BreakSig, ContinueSig, ReturnSig, PyExc, PathEnd, Frame)


class LoopSpec:
    """inv(L) -> list of (name, Bool);  types: {location name: kind hint}; ghost(L, phase) hook."""

    def __init__(self, inv, types=None, after=None, at_start=None):
        self.inv, self.types, self.after, self.at_start = inv, types or {}, after, at_start


class LoopView:
    def __init__(self, interp, fr, i=None, n=None, entry=None):
        self.interp, self.fr, self.i, self.n, self.entry = interp, fr, i, n, entry

    def now(self, name):
        """the local an invariant calls `name`: itself, or what it is called in the current source"""
        return renamed(self.fr.func).get(name, name) if self.fr.func is not None else name

    def get(self, name):
        return self.interp.lookup(self.fr, self.now(name))

    def has(self, name):
        return self.now(name) in self.fr.env

    def old(self, name):
        return self.entry[self.now(name)]


def bindings(node):
    """local name -> text of the statements binding it, with local names masked"""
    out = {}
    args = node.args
    for q, a in enumerate(args.posonlyargs + args.args + args.kwonlyargs):
        out.setdefault(a.arg, []).append(f"argument {q}")
    stmts = [x for x in ast.walk(node) if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.With))]
    stmts.sort(key=lambda x: (x.lineno, x.col_offset))
    found = []
    for st in stmts:
        tg = st.targets if isinstance(st, ast.Assign) else [w.optional_vars for w in st.items if w.optional_vars] \
            if isinstance(st, ast.With) else [st.target]
        for t in tg:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.setdefault(x.id, [])
                    found.append((x.id, st))
    for nm, st in found:
        head = [st.iter] if isinstance(st, ast.For) else [i.context_expr for i in st.items] if isinstance(st, ast.With) \
            else [st.value] if st.value is not None else []
        txt = type(st).__name__ + " " + " ".join(
            ("<self>" if x.id == nm else "_" if x.id in out else x.id) if isinstance(x, ast.Name) else
            x.attr if isinstance(x, ast.Attribute) else repr(x.value) if isinstance(x, ast.Constant) else type(x).__name__
            for h in head for x in ast.walk(h))
        out[nm].append(txt)
    return out


_RENAMED = {}


def renamed(f):
    """invariants name the locals of the committed source (contracts/locals.json); where one of these is gone, the local of
    the current source whose bindings are most alike takes its place.  A wrong guess cannot make a proof succeed: the
    invariant is checked of whatever it is read from."""
    if f.node in _RENAMED:
        return _RENAMED[f.node]
    import difflib
    import json
    import os
    if "base" not in _RENAMED:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "locals.json")
        _RENAMED["base"] = json.load(open(p)) if os.path.exists(p) else {}
    base = _RENAMED["base"].get(f"{f.module}:{f.qual}", {})
    cur = bindings(f.node) if base else {}
    gone, new = [x for x in base if x not in cur], [x for x in cur if x not in base]
    score = sorted(((difflib.SequenceMatcher(None, "; ".join(base[a]), "; ".join(cur[b])).ratio() +
                     0.2 * difflib.SequenceMatcher(None, a, b).ratio(), a, b) for a in gone for b in new), reverse=True)
    out, used = {}, set()
    for q, a, b in score:
        if q >= 0.5 and a not in out and b not in used:
            out[a] = b
            used.add(b)
    _RENAMED[f.node] = out
    return out


def loop_ordinal(fr, st):
    f = fr.func
    k = 0
    if f is None:
        return -1
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.While)):
            if n is st:
                return k
            k += 1
    return -1


def find_spec(ip, fr, st):
    f = fr.func
    if f is None:
        return None
    key = f"{f.module}:{f.qual}"
    specs = ip.s.loop_specs.get(key)
    if not specs:
        return None
    kind = "for" if isinstance(st, ast.For) else "while"
    k = 0
    for n in _walk_in_order(f.node):
        if isinstance(n, (ast.For if kind == "for" else ast.While)):
            if n is st:
                sp = specs.get((kind, k))
                ren = renamed(f) if sp is not None else {}
                if any(x in ren for x in sp.types) if sp is not None else False:
                    sp = LoopSpec(sp.inv, {ren.get(x, x): t for x, t in sp.types.items()}, sp.after, sp.at_start)
                return sp
            k += 1
    return None


def _walk_in_order(node):
    for c in ast.iter_child_nodes(node):
        yield c
        yield from _walk_in_order(c)


def for_loop(ip, fr, st):
    it = ip.eval(fr, st.iter)
    kind, a, b = ip.lib.iteration(it)
    spec = find_spec(ip, fr, st)
    if kind == "concrete" and spec is None:
        for x in a:
            ip.assign(fr, st.target, x)
            try:
                ip.exec_block(fr, st.body)
            except BreakSig:
                return
            except ContinueSig:
                continue
        ip.exec_block(fr, st.orelse)
        return
    if kind == "concrete":
        items = list(a)
        n, item = len(items), (lambda i: ip.lib.list_index(PList(items), i))
    else:
        n, item = a, b
    if spec is not None:
        return cut_for(ip, fr, st, spec, n, item)
    if T.lit(n) is not None and T.lit(n) <= 6:
        for q in range(T.lit(n)):
            ip.assign(fr, st.target, item(z3.IntVal(q)))
            try:
                ip.exec_block(fr, st.body)
            except BreakSig:
                return
            except ContinueSig:
                continue
        ip.exec_block(fr, st.orelse)
        return
    summarise(ip, fr, st, n, item)


def while_loop(ip, fr, st):
    spec = find_spec(ip, fr, st)
    if spec is not None:
        return cut_while(ip, fr, st, spec)
    sym = 0
    for k in range(2000):
        c = ip.truth_term(ip.eval(fr, st.test))
        if not isinstance(c, bool):
            c2 = z3.simplify(to_bool(c))
            if not (z3.is_true(c2) or z3.is_false(c2)):
                sym += 1
                if sym > 4:
                    raise Untranslatable(f"while loop without invariant at line {st.lineno}")
        if not ip.s.decide(c):
            ip.exec_block(fr, st.orelse)
            return
        try:
            ip.exec_block(fr, st.body)
        except BreakSig:
            return
        except ContinueSig:
            pass
    raise Untranslatable(f"while loop does not terminate concretely at line {st.lineno}")


# ---------------------------------------------------------------------------------------------------------
def preexisting(key, serial0):
    if key[0] == "L":
        return key[3].serial <= serial0
    if key[0] == "A":
        return key[3].serial <= serial0
    return key[2].serial <= serial0


def key_name(key):
    if key[0] in ("L", "A"):
        return key[2]
    return key[0]


class Placeholder:
    def __init__(self, ip, key, old, i, kindhint=None):
        self.key, self.old = key, old
        s = ip.s
        self.names = set()
        nm = "ph_" + str(key_name(key)).replace("@", "")
        self.sort = None
        if key[0] == "arr":
            st = key[2]
            rng = {"real": T.R, "int": T.I, "bool": T.Bo}[st.kind]
            f = z3.Function(f"{nm}!{T.fresh_int('u')}", *([T.I] * st.ndim), rng)
            self.f = f
            self.names.add(f.name())
            self.value = lambda *ix: f(*[T.int_of(x) for x in ix])
            self.kind = "arr"
            return
        if key[0] == "list":
            pre, items = old
            n0 = (pre.n if pre is not None else 0)
            self.n0 = T.int_of(n0) + len(items)
            if kindhint == "listset":
                self.kind = "listset"
                self.prefix = SList(z3.simplify(self.n0), lambda j: Poison("element of a list assigned to in this loop"))
                self.value = (self.prefix, [])
                return
            self.kind = "list"

            def pois(j):
                return Poison("element of a list built in this loop")
            self.prefix = SList(z3.simplify(self.n0 + i), pois)
            self.value = (self.prefix, [])
            return
        if key[0] == "dict":
            self.kind = "dict"
            self.value = (dict(old[0]), list(old[1]))
            return
        # local variable or attribute
        v = old
        if v is None and kindhint in ("opt int", "opt real"):
            # None before the loop, a number after an assignment in it; not readable inside the loop
            self.kind, self.sort = "opt", T.I if kindhint == "opt int" else T.R
            self.c = T.fresh(nm, self.sort)
            self.names.add(self.c.decl().name())
            self.value = Poison(f"{key_name(key)}, which may be None, carried around the loop")
            return
        if v is _MISSING:
            self.kind = "temp"
            self.value = _MISSING
            return
        if isinstance(v, float) and v in (float("inf"), float("-inf")):
            self.kind = "scalar"
            self.sort = T.R
        elif isinstance(v, bool) or (T.is_z3(v) and z3.is_bool(v)):
            self.kind, self.sort = "scalar", T.Bo
        elif isinstance(v, int) or (T.is_z3(v) and z3.is_int(v)):
            self.kind, self.sort = "scalar", T.I
        elif isinstance(v, float) or (T.is_z3(v) and z3.is_real(v)):
            self.kind, self.sort = "scalar", T.R
        elif isinstance(v, Arr):
            self.kind = "arrvar"
            rng = {"real": T.R, "int": T.I, "bool": T.Bo}[v.kind]
            f = z3.Function(f"{nm}!{T.fresh_int('u')}", *([T.I] * v.ndim), rng)
            self.f = f
            self.names.add(f.name())
            self.value = Arr(v.shape, lambda *ix: f(*[T.int_of(x) for x in ix]), v.kind)
            return
        else:
            self.kind = "other"
            self.value = Poison(f"{key_name(key)} carried around the loop")
            return
        if kindhint == "real":
            self.sort = T.R
        c = T.fresh(nm, self.sort)
        self.c = c
        self.names.add(c.decl().name())
        self.value = c


def merge(c, a, b):
    """ite over values"""
    if a is b:
        return a
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Poison("merged")
    if is_scalar(a) and is_scalar(b):
        return ite(c, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape):
        if all(T.int_of(x).eq(T.int_of(y)) for x, y in zip(a.shape, b.shape)):
            fa, fb = a.snap(), b.snap()
            return Arr(a.shape, lambda *ix: ite(c, fa(*ix), fb(*ix)), a.kind)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, PDict) and isinstance(b, PDict) and list(a.items) == list(b.items) and not a.fams and not b.fams:
        return PDict([(k, merge(c, a.items[k], b.items[k])) for k in a.items])
    if isinstance(a, PList) and isinstance(b, PList) and a.prefix is b.prefix and len(a.items) == len(b.items):
        return PList([merge(c, x, y) for x, y in zip(a.items, b.items)], a.prefix)
    if isinstance(a, (str, type(None))) and a == b:
        return a
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a if a is b else Opaque("merged", (c, a, b))
    raise Untranslatable(f"cannot merge {type(a).__name__} and {type(b).__name__}")


def summarise(ip, fr, st, n, item):
    s = ip.s
    if st.orelse:
        raise Untranslatable("for-else over a symbolic range")
    n = T.int_of(n)
    serial0 = serial()
    hints = {}
    i = T.fresh("i", T.I)
    rng = [i >= 0, i < n]

    def run(values):
        def thunk():
            s.pc.extend(rng)
            for key, (g, st_, v) in values.items():
                s.note(key, g, st_)
                st_(v)
            ip.assign(fr, st.target, item(i))
            ip.exec_block(fr, st.body)
        return s.explore_local(thunk)

    carried = {}
    s.quiet += 1
    try:
        for attempt in range(8):
            phs = {k: (g, st_, ph.value) for k, (g, st_, ph) in carried.items() if ph.kind != "temp"}
            res = run(phs)
            changed = False
            for cond, out, fin in res:
                for k, (g, st_, v, old) in fin.items():
                    if not preexisting(k, serial0) or k in carried:
                        continue
                    if k[0] == "list" and isinstance(v[0], SList) and v[0].upd is not None and not v[1]:
                        hints[k] = "listset"
                    ph = Placeholder(ip, k, g(), i, hints.get(k))
                    carried[k] = (g, st_, ph)
                    changed = True
            # sort widening int -> real
            if not changed:
                for cond, out, fin in res:
                    for k, (g, st_, v, old) in fin.items():
                        if k in carried:
                            ph = carried[k][2]
                            if ph.kind == "scalar" and ph.sort == T.I and (isinstance(v, float) or
                                                                          (T.is_z3(v) and z3.is_real(v))):
                                hints[k] = "real"
                                carried[k] = (g, st_, Placeholder(ip, k, g(), i, "real"))
                                changed = True
                            elif ph.kind == "other" and ph.old is None and k not in hints:
                                vs = [f[k][2] for _, _, f in res if k in f and f[k][2] is not ph.value]
                                if vs and all(is_scalar(x) and not isinstance(x, (str, bool)) for x in vs):
                                    real = any(isinstance(x, float) or (T.is_z3(x) and z3.is_real(x)) for x in vs)
                                    hints[k] = "opt real" if real else "opt int"
                                    carried[k] = (g, st_, Placeholder(ip, k, g(), i, hints[k]))
                                    changed = True
            if not changed:
                break
        else:
            raise Untranslatable("loop summary does not stabilise")
    finally:
        s.quiet -= 1
    abnormal = [r for r in res if r[1][0] != "normal"]
    if abnormal:
        return search_loop(ip, fr, st, n, i, rng, item, res, carried, run)
    closed = solve(ip, s, n, i, rng, res, carried)
    # second, recording run with the exact state at the start of iteration i
    vals = {}
    for k, (g, st_, ph) in carried.items():
        v = closed[k](i)
        if v is not _MISSING:
            vals[k] = (g, st_, v)
    run(vals)
    for k, (g, st_, ph) in carried.items():
        v = closed[k](n)
        s.apply_write(k, g, st_, v)


def merged_final(res, k, ph):
    """value of location k after the body, merged over the body's paths"""
    val = None
    first = True
    for cond, out, fin in reversed(res):
        v = fin[k][2] if k in fin else ph.value
        if ph.kind == "opt":
            v = ph.c if v is ph.value else T.to_real(v) if ph.sort == T.R and is_scalar(v) else v
        if first:
            val, first = v, False
        else:
            val = merge_state(k, cond, v, val, ph)
    return val


def merge_state(k, cond, a, b, ph):
    if k[0] == "arr":
        nd = k[2].ndim
        return a if a is b else (lambda *ix: ite(cond, a(*ix), b(*ix)))
    if k[0] == "list":
        if ph.kind == "listset" and a[0] is not b[0] and not a[1] and not b[1]:
            ua, ub = a[0].upd, b[0].upd
            if ua is None or ub is None or ua[0] is not ub[0] or not ua[1].eq(ub[1]):
                raise Untranslatable("conditional item assignment")
            r = SList(a[0].n, lambda j: Poison("merged"))
            r.upd = (ua[0], ua[1], merge(cond, ua[2], ub[2]))
            return (r, [])
        if a[0] is not b[0] or len(a[1]) != len(b[1]):
            raise CondAppend()
        return (a[0], [merge(cond, x, y) for x, y in zip(a[1], b[1])])
    if k[0] == "dict":
        if list(a[0]) != list(b[0]) or len(a[1]) != len(b[1]):
            raise Untranslatable("conditional dict insertion")
        fams = []
        for (n1, k1, v1), (n2, k2, v2) in zip(a[1], b[1]):
            if n1 is n2 and k1 is k2 and v1 is v2:
                fams.append((n1, k1, v1))
            else:
                fams.append((n1, lambda j, k1=k1, k2=k2: merge(cond, k1(j), k2(j)),
                             lambda j, v1=v1, v2=v2: merge(cond, v1(j), v2(j))))
        return ({q: merge(cond, a[0][q], b[0][q]) for q in a[0]}, fams)
    if a is _MISSING or b is _MISSING:
        if a is b:
            return a
        return Poison("conditionally assigned")
    try:
        return merge(cond, a, b)
    except Untranslatable as e:
        return Poison(str(e))


class CondAppend(Exception):
    pass


def at(v, i, t):
    """value v with loop index i replaced by t"""
    if callable(v) and not isinstance(v, (Arr, SList)):
        raise TypeError
    return subst(v, [(i, T.int_of(t))])


def sub_ph(e, ph):
    """e - ph pushed through ite"""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return z3.If(e.arg(0), sub_ph(e.arg(1), ph), sub_ph(e.arg(2), ph))
    return z3.simplify(e - ph, som=True)


def solve(ip, s, n, i, rng, res, carried):
    closed = {}
    finals = {}
    unsolved = []
    for k, (g, st_, ph) in carried.items():
        try:
            finals[k] = merged_final(res, k, ph)
            unsolved.append(k)
        except CondAppend:
            closed[k] = solve_filter(ip, s, n, i, rng, res, k, ph)
    reasons = []
    for rnd in range(len(unsolved) + 2):
        if not unsolved:
            break
        progress = False
        for k in list(unsolved):
            g, st_, ph = carried[k]
            live = set()
            for k2 in unsolved:
                live |= carried[k2][2].names
            c = try_solve(ip, s, n, i, rng, k, ph, finals[k], live, carried, closed, reasons)
            if c is not None:
                closed[k] = c
                unsolved.remove(k)
                progress = True
                # substitute the solved placeholder in the remaining finals
                finals_sub(finals, unsolved, carried, k, ph, c, i)
        if not progress:
            got = best_group(ip, s, n, i, rng, unsolved, finals, carried)
            if got:
                for k, c in got.items():
                    closed[k] = c
                    unsolved.remove(k)
                    finals_sub(finals, unsolved, carried, k, carried[k][2], c, i)
                progress = True
        if not progress:
            break
    if unsolved:
        raise Untranslatable("loop-carried state not summarised: " + ", ".join(str(key_name(k)) for k in unsolved) +
                             f" ({s.where})")
    return closed


def replace_fn(e, f, g):
    """replace applications of uninterpreted f by g(args) everywhere in e (also under binders)"""
    ps = [T.fresh_int("p") for _ in range(f.arity())]
    # the body of a lambda has its bound constants as de Bruijn variables, shifted below inner binders;
    # substitute_funs takes variable 0 for the first argument, a lambda for its last parameter
    body = z3.Lambda(list(reversed(ps)), T.num(g(*ps))).body()
    return z3.substitute_funs(e, (f, body))


def finals_sub(finals, unsolved, carried, k, ph, c, i):
    v = c(i)
    for k2 in unsolved:
        f = finals[k2]
        if ph.kind == "scalar" and is_scalar(v):
            finals[k2] = map_terms(f, lambda e: z3.substitute(e, (ph.c, T.same_sort(v, ph.c)[0])), k2)
        elif ph.kind in ("arr", "arrvar"):
            fn = v if ph.kind == "arr" else v.snap()
            finals[k2] = map_terms(f, lambda e: replace_fn(e, ph.f, lambda *ix: T.num(fn(*ix))), k2)


def map_terms(v, f, key=None):
    if callable(v) and not isinstance(v, (Arr, SList)) and key is not None and key[0] == "arr":
        nd = key[2].ndim

        def g(*ix):
            ps = [T.fresh_int("p") for _ in ix]
            return z3.substitute(f(T.num(v(*ps))), *[(p, T.int_of(x)) for p, x in zip(ps, ix)])
        return g
    if T.is_z3(v):
        return f(v)
    if isinstance(v, Arr):
        sn = v.snap()

        def g2(*ix):
            ps = [T.fresh_int("p") for _ in ix]
            return z3.substitute(f(T.num(sn(*ps))), *[(p, T.int_of(x)) for p, x in zip(ps, ix)])
        return Arr(tuple(f(d) if T.is_z3(d) else d for d in v.shape), g2, v.kind)
    if isinstance(v, tuple):
        return tuple(map_terms(x, f, None if key is None or key[0] in ("list", "dict") else key) for x in v)
    if isinstance(v, list):
        return [map_terms(x, f) for x in v]
    if isinstance(v, dict):
        return {q: map_terms(x, f) for q, x in v.items()}
    if isinstance(v, PList):
        return PList([map_terms(x, f) for x in v.items], v.prefix)
    if isinstance(v, PDict):
        def lift(h):
            def g3(j):
                p = T.fresh_int("p")
                return subst(map_terms(h(p), f), [(p, T.int_of(j))])
            return g3
        return PDict([(q, map_terms(x, f)) for q, x in v.items.items()],
                     [(nn, lift(kf), lift(vf)) for nn, kf, vf in v.fams])
    if isinstance(v, Opaque):
        return Opaque(v.tag, tuple(map_terms(x, f) for x in v.parts))
    return v


def try_solve(ip, s, n, i, rng, k, ph, fin, live, carried, closed, reasons):
    kind = ph.kind
    hyps = s.pc + rng
    if kind == "list":
        return solve_list(ip, s, n, i, k, ph, fin, live)
    if kind == "listset":
        pre, items = fin
        if items or pre.upd is None or pre.upd[0] is not ph.prefix:
            return None
        _, jj, v = pre.upd
        off = z3.simplify(jj - i)
        if value_mentions(v, live) or T.mentions_any(off, live) or T.mentions(off, i):
            return None
        opre, oitems = ph.old
        snap = PList(oitems, opre)

        def c_set(t):
            t = T.int_of(t)

            def fn(q):
                q = T.int_of(q)
                return merge(z3.simplify(z3.And(q >= off, q < t + off)), at(v, i, z3.simplify(q - off)), ip.lib.raw_index(snap, q))
            return (SList(ph.n0, fn), [])
        return c_set
    if kind == "dict":
        return solve_dict(ip, s, n, i, k, ph, fin, live, carried, rng)
    if kind == "arr":
        return solve_arr(ip, s, n, i, rng, ph.f, ph.old, fin, live, k[2].ndim, k[2].kind)
    if kind == "arrvar":
        if not isinstance(fin, Arr):
            return None
        old = ph.old.snap()
        for a, b in zip(fin.shape, ph.old.shape):
            if not s.entails(T.int_of(a) == T.int_of(b)):
                return None
        r = solve_arr(ip, s, n, i, rng, ph.f, old, fin.snap(), live, fin.ndim, fin.kind)
        if r is None:
            return None
        return lambda t: Arr(ph.old.shape, r(t), fin.kind)
    # locals / attributes --------------------------------------------------------------------
    if fin is ph.value and kind != "temp":
        return lambda t: ph.old
    if isinstance(fin, Poison):
        return lambda t: (fin if kind != "temp" else _MISSING) if not T.lit(T.int_of(t)) == 0 else ph.old
    if kind in ("temp", "other") or not value_mentions(fin, live):
        if value_mentions(fin, live):
            return None

        def c_temp(t):
            tt = z3.simplify(T.int_of(t))
            if tt.eq(i):
                # state at the start of iteration i: value of the previous iteration
                if ph.old is _MISSING:
                    return _MISSING
                if is_scalar(fin) and is_scalar(ph.old):
                    try:
                        return ite(i == 0, ph.old, at(fin, i, i - 1))
                    except Untranslatable:
                        pass
                return Poison("value carried from the previous iteration")
            if s.entails(tt >= 1, quick=True):
                return at(fin, i, tt - 1)
            if is_scalar(fin) and is_scalar(ph.old):
                try:
                    return ite(tt >= 1, at(fin, i, tt - 1), ph.old)
                except Untranslatable:
                    pass
            return Poison("value of a loop-local variable after a possibly empty loop")
        return c_temp
    if kind == "scalar":
        e = T.num(fin)
        if ph.sort == T.Bo:
            return solve_flag(s, n, i, ph, e, live)
        e = T.to_real(e) if ph.sort == T.R else e
        d = z3.simplify(sub_ph(e, ph.c))
        if not T.mentions_any(d, live):
            if isinstance(ph.old, float) and ph.old in (float("inf"), float("-inf")):
                return None
            init = T.to_real(ph.old) if ph.sort == T.R else T.num(ph.old)
            if ph.sort == T.R:
                return lambda t: init + T.SUM(t, lambda q: at(d, i, q))
            if z3.is_app_of(d, z3.Z3_OP_ITE):
                a1, a2 = d.arg(1), d.arg(2)
                if z3.is_int_value(a1) and z3.is_int_value(a2) and a1.as_long() == 1 and a2.as_long() == 0:
                    return lambda t: init + T.ICOUNT(t, lambda q: at(d.arg(0), i, q))
                if z3.is_int_value(a1) and z3.is_int_value(a2) and a1.as_long() == 0 and a2.as_long() == 1:
                    return lambda t: init + T.ICOUNT(t, lambda q: z3.Not(at(d.arg(0), i, q)))
            return lambda t: init + T.ISUM(t, lambda q: at(d, i, q))
    return None


def solve_flag(s, n, i, ph, e, live):
    # e = ite(c, True, ph) / ite(c, False, ph) / Or(ph, c) / And(ph, c)
    eT = z3.simplify(z3.substitute(e, (ph.c, z3.BoolVal(True))))
    eF = z3.simplify(z3.substitute(e, (ph.c, z3.BoolVal(False))))
    if T.mentions_any(eT, live) or T.mentions_any(eF, live):
        return None
    old = T.to_bool(ph.old)
    if z3.is_true(eT):       # once true stays true:  ph or eF
        return lambda t: disj([old, T.ANY(t, lambda q: at(eF, i, q))])
    if z3.is_false(eF):      # ph and eT
        return lambda t: conj([old, z3.Not(T.ANY(t, lambda q: z3.Not(at(eT, i, q))))])
    return None


def solve_list(ip, s, n, i, k, ph, fin, live):
    pre, items = fin
    if pre is not ph.prefix:
        return None
    if value_mentions(items, live):
        return None
    oldpre, olditems = ph.old
    cnt = len(items)
    n0 = z3.simplify(ph.n0)
    if cnt == 0:
        return lambda t: ph.old

    def c(t):
        def fn(j):
            j = T.int_of(j)
            p = z3.simplify(j - n0)
            if cnt == 1:
                new = at(items[0], i, p)
            else:
                new = None
                for q in range(cnt - 1, -1, -1):
                    v = at(items[q], i, p / cnt)
                    new = v if new is None else merge(p % cnt == q, v, new)
            if T.lit(n0) == 0:
                return new
            # element of the old list
            o = ip.lib.raw_index(PList(olditems, oldpre), j)
            return merge(j < n0, o, new)
        return (SList(z3.simplify(n0 + T.int_of(t) * cnt), fn), [])
    return c


def solve_dict(ip, s, n, i, k, ph, fin, live, carried, rng):
    items, fams = fin
    olditems, oldfams = ph.old
    if value_mentions(list(items.values()), live):
        return None
    for q in olditems:
        if q not in items:
            return None
    newfams = fams[len(oldfams):]
    if len(fams) < len(oldfams) or any(f is not g for f, g in zip(fams, oldfams)):
        return None
    for nn, kf, vf in newfams:
        if T.lit(nn) != 1:
            return None
    z = z3.IntVal(0)
    gen = [(kf(z), vf(z)) for nn, kf, vf in newfams]
    if value_mentions([x for g in gen for x in g], live):
        return None
    for kx, vx in gen:
        # distinct iterations must write distinct keys
        j = T.fresh_int("j")
        if T.is_z3(kx):
            if not s.prover.prove(s.pc + rng + [j >= 0, j < n, j != i], kx != at(kx, i, j), 0, 0)[0] == "proved":
                return None
        elif isinstance(kx, Opaque):
            # formatted key: distinct when it embeds the (distinct) index
            if not ip.lib.injective_key(kx, i):
                return None
        else:
            return None
    changed = {q: v for q, v in items.items() if q not in olditems or v is not olditems[q]}

    def c(t):
        tt = z3.simplify(T.int_of(t))
        d = dict(olditems)
        for q, v in changed.items():
            if tt.eq(i):
                d[q] = Poison("dict entry written in this loop")
            elif s.entails(tt >= 1):
                d[q] = at(v, i, tt - 1)
            else:
                d[q] = Poison("dict entry written in a possibly empty loop")
        fs = list(oldfams)
        for kx, vx in gen:
            fs.append((tt, lambda j, kx=kx: at(kx, i, j), lambda j, vx=vx: at(vx, i, j)))
        return (d, fs)
    return c


def find_apps(e, f):
    """ground applications of f in e; None if an application occurs below a binder with bound arguments"""
    out, seen, stack = {}, set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().eq(f):
                out[x.get_id()] = x
            stack.extend(x.children())
    return list(out.values())


def has_var(e):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def solve_arr(ip, s, n, i, rng, f, old, fin, live, nd, kind):
    ps = [T.fresh_int("p") for _ in range(nd)]
    e = z3.simplify(T.num(fin(*ps)))
    others = live - {f.name()}
    if T.mentions_any(e, others):
        return None
    if not T.mentions_any(e, {f.name()}):
        def c_over(t):
            tt = z3.simplify(T.int_of(t))
            return lambda *ix: ite(tt >= 1, z3.substitute(z3.substitute(e, (i, tt - 1)),
                                   *[(p, T.int_of(x)) for p, x in zip(ps, ix)]), old(*ix))
        return c_over
    own = f(*ps)
    # slot writes
    hyps = s.pc + rng
    for d in range(nd):
        for off in slot_offsets(e, ps[d], i):
            t = ps[d] - off
            if not s.shows(hyps + [i != t], e == own):
                continue
            es = z3.simplify(z3.substitute(e, (i, z3.simplify(t))))
            ok = True
            for a in find_apps(es, f):
                if has_var(a.arg(d)) or not z3.is_int_value(z3.simplify(a.arg(d) - ps[d])) or \
                        z3.simplify(a.arg(d) - ps[d]).as_long() != 0:
                    ok = False
            if not ok:
                continue
            es2 = replace_fn(es, f, lambda *ix: T.num(old(*ix)))

            def c_slot(tt, t=t, es2=es2):
                tt = T.int_of(tt)

                def fn(*ix):
                    sub = [(p, T.int_of(x)) for p, x in zip(ps, ix)]
                    tx = z3.substitute(t, *sub)
                    return ite(z3.simplify(z3.And(tx >= 0, tx < tt)), z3.substitute(es2, *sub), old(*ix))
                return fn
            return c_slot
    if kind in ("real", "int"):
        dlt = z3.simplify(sub_ph(e, own))
        if not T.mentions_any(dlt, {f.name()}):
            def c_sum(t):
                def fn(*ix):
                    sub = [(p, T.int_of(x)) for p, x in zip(ps, ix)]
                    dd = z3.substitute(dlt, *sub)
                    if kind == "real":
                        return to_real(old(*ix)) + T.SUM(t, lambda q: z3.substitute(dd, (i, T.int_of(q))))
                    return T.num(old(*ix)) + T.ISUM(t, lambda q: z3.substitute(dd, (i, T.int_of(q))))
                return fn
            return c_sum
    return None


def slot_offsets(e, p, i):
    """candidate offsets c such that the slot written in iteration i has index i + c: from p == i + c atoms"""
    cands = []
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and z3.is_int(x.arg(0)) and T.mentions(x, i) and T.mentions(x, p):
            # solve for offset: p - i  under equality
            d = z3.simplify(x.arg(0) - x.arg(1), som=True)
            o1 = z3.simplify(d - (p - i), som=True)     # p - i + o1 = 0 -> p = i - o1
            o2 = z3.simplify(d - (i - p), som=True)     # i - p + o2 = 0 -> p = i + o2
            if not T.mentions(o1, i) and not T.mentions(o1, p):
                cands.append(z3.simplify(-o1))
            if not T.mentions(o2, i) and not T.mentions(o2, p):
                cands.append(o2)
        stack.extend(x.children())
    out = []
    for c in cands + [z3.IntVal(0)]:
        if not any(c.eq(o) for o in out):
            out.append(c)
    return out[:4]


def as_update(e, ph):
    """e as (cond, new) meaning ite(cond, new, ph)"""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        if b.eq(ph):
            ua = as_update(a, ph) if T.mentions(a, ph) else None
            return (z3.And(c, ua[0]), ua[1]) if ua is not None else (c, a)
        if a.eq(ph):
            ub = as_update(b, ph) if T.mentions(b, ph) else None
            return (z3.And(z3.Not(c), ub[0]), ub[1]) if ub is not None else (z3.Not(c), b)
        # nested
        ub = as_update(b, ph)
        if ub is not None and not T.mentions(a, ph):
            return z3.Or(c, ub[0]), z3.If(c, a, ub[1])
        ua = as_update(a, ph)
        if ua is not None and ub is not None:
            return z3.If(c, ua[0], ub[0]), z3.If(c, ua[1], ub[1])
        if ua is not None and not T.mentions(b, ph):
            return z3.Or(z3.Not(c), ua[0]), z3.If(c, ua[1], b)
    if e.eq(ph):
        return z3.BoolVal(False), ph
    return None


def conjuncts(e, pos=True):
    """literals of a conjunction"""
    if z3.is_not(e):
        return conjuncts(e.arg(0), not pos)
    if pos and z3.is_and(e) or not pos and z3.is_or(e):
        return [x for a in e.children() for x in conjuncts(a, pos)]
    return [e if pos else z3.Not(e)]


def ite_leaves(e, out=None):
    out = [] if out is None else out
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        ite_leaves(e.arg(1), out)
        ite_leaves(e.arg(2), out)
    elif not any(e.eq(x) for x in out):
        out.append(e)
    return out


def same_choice(hyps, e, c, x, ph):
    """e == ite(c, x, ph), decided over the atoms of the conditions (terms abstracted)"""
    goal = e == z3.If(c, T.same_sort(x, ph)[0], ph)
    table = {}

    def atom(t):
        k = t.get_id()
        if k not in table:
            table[k] = (t, z3.Const(f"atom!{len(table)}", t.sort()))
        return table[k][1]

    memo = {}

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k]
        if z3.is_app(t) and t.num_args() and (z3.is_bool(t) or z3.is_app_of(t, z3.Z3_OP_ITE)) and \
                t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            r = t.decl()(*[go(a) for a in t.children()])
        elif z3.is_app(t) and t.num_args() == 0:
            r = t
        else:
            r = atom(t)
        memo[k] = (r)
        return r
    if any(z3.is_quantifier(t) for t in [goal]):
        return False
    so = z3.Solver()
    so.set("timeout", 5000)
    for h in hyps:
        so.add(go(z3.simplify(h)))
    so.add(go(z3.simplify(z3.Not(goal))))
    return so.check() == z3.unsat


def leaf_updates(e, ph, live):
    """(cond, new) candidates of a value merged over many paths: new is a leaf, cond the condition that the leaf is chosen"""
    u = as_update(e, ph)
    first = [u] if u is not None and not T.mentions_any(u[1], live) else []
    ls = ite_leaves(e)
    if not any(x.eq(ph) for x in ls):
        return first
    return [(None, x) for x in ls if not x.eq(ph) and not T.mentions_any(x, live)][:4] + first


def best_group(ip, s, n, i, rng, unsolved, finals, carried):
    """running first-best: b' = x > b ? x : b (or <), together with variables updated under the same condition"""
    live = set()
    for k2 in unsolved:
        live |= carried[k2][2].names
    hyps = s.pc + rng
    for kb in unsolved:
        phb = carried[kb][2]
        if phb.kind != "scalar" or phb.sort == T.Bo:
            continue
        e = z3.simplify(T.same_sort(finals[kb], phb.c)[0])
        gt, lt = ("GT", lambda a, b: a > b), ("LT", lambda a, b: a < b)
        cand = [(c, x, r) for c, x in leaf_updates(e, phb.c, live) for r in (gt, lt)]
        for c, x, (name, rel) in cand:
            if c is not None and T.mentions_any(c, live - phb.names):
                continue
            inf = isinstance(phb.old, float) and phb.old in (float("inf"), float("-inf"))
            guard = None
            plain = rel(x, phb.c)
            if same_choice(hyps, e, plain, x, phb.c):
                c = plain
            elif c is None:
                continue
            else:
                # only some iterations compete: the others count as the start value, which is never strictly better
                free = [y for y in conjuncts(z3.simplify(c)) if not T.mentions_any(y, live)]
                guard = z3.And(*free) if free and not inf else None
                if guard is not None and same_choice(hyps, e, z3.And(guard, plain), x, phb.c):
                    c = z3.And(guard, plain)
                elif len(cand) > 2 or not s.shows(hyps, c == plain):
                    continue
                else:
                    guard = None
            if inf and (phb.old > 0) != (name == "LT"):
                continue
            group = {}
            ok = True
            for k in unsolved:
                if k == kb:
                    continue
                ph = carried[k][2]
                if not value_mentions_state(finals[k], phb.names):
                    continue
                if ph.kind not in ("scalar", "opt") or not is_scalar(finals[k]):
                    continue
                e2 = z3.simplify(T.same_sort(finals[k], ph.c)[0])
                for c2, x2 in leaf_updates(e2, ph.c, live):
                    if not same_choice(hyps, e2, c, x2, ph.c) and (
                            c2 is None or guard is not None or T.mentions_any(c2, live - phb.names) or
                            not s.shows(hyps, c2 == c)):
                        continue
                    group[k] = (ph, x2)
                    break
            xr = T.to_real(x) if guard is None else z3.If(guard, T.to_real(x), T.to_real(phb.old))
            out = {}

            def winner(t):
                lam, _ = T.lam_of(1, lambda q: at(xr, i, q))
                if inf:
                    f = T.functional("ARGFOLD0" + name, 1, T.R, T.I)
                    return f(lam, T.int_of(t))
                f = T.functional("ARGFOLD" + name, 1, T.R, T.I, (T.R,))
                return f(lam, T.int_of(t), T.to_real(phb.old))

            def cb(t, x=x):
                w = winner(t)
                if inf:
                    return at(x, i, w)     # meaningful only when t > 0
                return ite(w < 0, phb.old, at(x, i, w))
            out[kb] = cb
            for k, (ph, ev) in group.items():
                def cg(t, ph=ph, ev=ev):
                    w = winner(t)
                    if ph.kind == "opt":
                        if z3.simplify(T.int_of(t)).eq(i):
                            return ph.value
                        return None if s.decide(T.int_of(t) <= 0 if inf else w < 0) else at(ev, i, w)
                    if isinstance(ph.old, float) and ph.old in (float("inf"), float("-inf")):
                        return at(ev, i, w)
                    return ite(w < 0, ph.old, at(ev, i, w))
                out[k] = cg
            return out
    return None


def value_mentions_state(v, names):
    if callable(v) and not isinstance(v, (Arr, SList)):
        return False
    return value_mentions(v, names)


def solve_filter(ip, s, n, i, rng, res, k, ph):
    """conditional append of one element per iteration: the list of val(i) for i<n with cond(i), in order."""
    conds, vals = [], []
    for cond, out, fin in res:
        if k in fin:
            pre, items = fin[k][2]
            if pre is not ph.prefix or len(items) > 1:
                raise Untranslatable("list update in loop")
            if items:
                conds.append(cond)
                vals.append(items[0])
    c = disj(conds)
    val = vals[-1]
    for cc, v in zip(reversed(conds[:-1]), reversed(vals[:-1])):
        val = merge(cc, v, val)
    live = set(ph.names)
    oldpre, olditems = ph.old
    if not (oldpre is None and not olditems):
        raise Untranslatable("conditional append to a non-empty list")

    def cl(t):
        if T.int_of(t).eq(i):
            return (SList(T.ICOUNT(t, lambda q: at(c, i, q)), lambda j: Poison("filtered list")), [])
        nn = T.ICOUNT(t, lambda q: at(c, i, q))
        lam, _ = T.lam_of(1, lambda q: T.to_bool(at(c, i, q)))
        sel = T.functional("SELECT", 1, T.Bo, T.I, (T.I,))

        def fn(j):
            # SELECT(c, n, j) = position of the j-th true element
            return at(val, i, sel(lam, T.int_of(t), T.int_of(j)))
        sl = SList(nn, fn)
        sl.filter = (lambda q: at(c, i, q), lambda q: at(val, i, q), t)
        return (sl, [])
    return cl


def search_loop(ip, fr, st, n, i, rng, item, res, carried, run):
    """Loop with break/return/raise in the body: find the first iteration leaving the loop."""
    s = ip.s
    normal = [r for r in res if r[1][0] == "normal"]
    leave = [r for r in res if r[1][0] != "normal"]
    # iterations before the leaving one follow a 'normal' path; summarise them as if the loop ran to f
    closed = solve(ip, s, n, i, rng, normal, carried) if normal else {k: (lambda t, ph=carried[k][2]: ph.old)
                                                                       for k in carried}
    vals = {}
    for k, (g, st_, ph) in carried.items():
        v = closed[k](i)
        if v is not _MISSING:
            vals[k] = (g, st_, v)
    res2 = run(vals)
    lv = disj([c for c, out, fin in res2 if out[0] != "normal"])
    lam, _ = T.lam_of(1, lambda q: at(lv, i, q))
    f = T.functional("FIRST", 1, T.Bo, T.I)(lam, n)
    s.assume(z3.And(f >= 0, f <= n) if T.lit(n) is None else z3.And(f >= 0, f <= n))
    if s.decide(f >= n):
        for k, (g, st_, ph) in carried.items():
            s.apply_write(k, g, st_, closed[k](n))
        return
    # re-run iteration f for real, with the state at its start
    for k, (g, st_, ph) in carried.items():
        v = closed[k](f)
        if v is not _MISSING:
            s.apply_write(k, g, st_, v)
    ip.assign(fr, st.target, item(f))
    try:
        ip.exec_block(fr, st.body)
    except BreakSig:
        return
    except ContinueSig:
        pass
    raise PathEnd()      # contradictory: iteration f leaves the loop


# ---------------------------------------------------------------------------------------------------------
def havoc_value(ip, key, old, final, hint):
    s = ip.s
    nm = "hv_" + str(key_name(key)).replace("@", "")
    if key[0] == "arr":
        st = key[2]
        rng = {"real": T.R, "int": T.I, "bool": T.Bo}[st.kind]
        f = s.symfun(nm, *([T.I] * st.ndim), rng)
        return lambda *ix: f(*[T.int_of(x) for x in ix])
    if key[0] == "list":
        kind = hint or "real"
        ln = s.sym(nm + "_len", T.I)
        s.assume(ln >= 0)
        if kind in ("real", "int", "bool"):
            f = s.symfun(nm, T.I, {"real": T.R, "int": T.I, "bool": T.Bo}[kind])
            return (SList(ln, lambda j: f(T.int_of(j))), [])
        return (SList(ln, lambda j: Poison("havocked list element")), [])
    if key[0] == "dict":
        return ({q: Poison("dict entry modified in a loop") for q in old[0]}, [])
    for v in (old, final):
        if isinstance(v, Arr):
            return s.sym_arr(nm, v.shape, v.kind)
    if isinstance(old, PList) and isinstance(final, PList):
        # a local list bound anew in the loop
        pre, items = havoc_value(ip, ("list", old, old), None, None, hint)
        return PList(items, pre)
    if hint == "real":
        return s.sym(nm, T.R)
    if hint == "int":
        return s.sym(nm, T.I)
    if hint == "bool":
        return s.sym(nm, T.Bo)
    for v in (old,):
        if isinstance(v, bool) or (T.is_z3(v) and z3.is_bool(v)):
            return s.sym(nm, T.Bo)
        if isinstance(v, float) or (T.is_z3(v) and z3.is_real(v)) or \
                (isinstance(final, float) or (T.is_z3(final) and z3.is_real(final))):
            if v is not None and v is not _MISSING:
                return s.sym(nm, T.R)
        if isinstance(v, int) or (T.is_z3(v) and z3.is_int(v)):
            return s.sym(nm, T.I)
    return Poison(f"{key_name(key)} modified in a loop")


def written_keys(ip, body_thunk, types, fr):
    try:
        return written_keys1(ip, body_thunk, types, fr, 1)
    except Untranslatable:
        return written_keys1(ip, body_thunk, types, fr, 0)


def written_keys1(ip, body_thunk, types, fr, cheap):
    """locations written by the loop body (over all paths), found by a fixpoint of quiet runs"""
    s = ip.s
    serial0 = serial()
    keys = {}
    s.quiet += 1
    s.cheap += cheap
    try:
        for attempt in range(6):
            def thunk():
                for k, (g, st_, old, fin) in keys.items():
                    s.note(k, g, st_)
                    st_(havoc_value(ip, k, old, fin, types.get(str(key_name(k)))))
                body_thunk()
            res = s.explore_local(thunk, limit=200)
            new = False
            for cond, out, fin in res:
                for k, (g, st_, v, old) in fin.items():
                    if k not in keys and preexisting(k, serial0):
                        keys[k] = (g, st_, g(), v)
                        new = True
            if not new:
                break
    finally:
        s.quiet -= 1
        s.cheap -= cheap
    return keys


def list_hint(types, fr, key):
    if key[0] != "list":
        return types.get(str(key_name(key)))
    for nm, v in fr.env.items():
        if v is key[2]:
            return types.get(nm)
    return types.get("list")


def do_havoc(ip, keys, types, fr):
    for k, (g, st_, old, fin) in keys.items():
        ip.s.apply_write(k, g, st_, havoc_value(ip, k, old, fin, list_hint(types, fr, k)))


def check_inv(ip, spec, L, what, inv=None):
    for it in (inv or spec.inv)(L):
        if len(it) == 2:
            ip.s.oblige(f"{it[0]} ({what})", it[1])
            continue
        nm, shape, fn = it
        ix = [T.fresh_int("v") for _ in shape]
        n0 = len(ip.s.pc)
        ip.s.pc.extend([z3.And(x >= 0, x < T.int_of(d)) for x, d in zip(ix, shape)])
        ip.s.oblige(f"{nm} ({what})", T.num(fn(*ix)))
        del ip.s.pc[n0:]


def assume_inv(ip, spec, L, inv=None):
    for it in (inv or spec.inv)(L):
        if len(it) == 2:
            ip.s.assume(it[1])
            continue
        nm, shape, fn = it
        eager_univ(ip.s, shape, fn)


def eager_univ(s, shape, fn):
    """forall ix in range: fn(ix), with the body taken in the current state"""
    sh = [T.int_of(d) for d in shape]
    xs = [T.fresh_int("q") for _ in sh]
    rng = conj([z3.And(x >= 0, x < d) for x, d in zip(xs, sh)])
    n0 = len(s.pc)
    s.pc.append(rng)
    s.quiet += 1
    try:
        body = z3.simplify(z3.Implies(rng, to_bool(T.num(fn(*xs)))))
    finally:
        s.quiet -= 1
        del s.pc[n0:]
    s.facts.add_univ(len(sh), lambda *ix: z3.substitute(body, *[(x, T.int_of(i)) for x, i in zip(xs, ix)]))


def cut_while(ip, fr, st, spec):
    s = ip.s
    entry = dict(fr.env)
    L = LoopView(ip, fr, entry=entry)
    check_inv(ip, spec, L, "holds on entry")

    def body():
        if ip.truth(ip.eval(fr, st.test)):
            ip.exec_block(fr, st.body)
    keys = written_keys(ip, body, spec.types, fr)
    do_havoc(ip, keys, spec.types, fr)
    if spec.after is not None and s.choose("after"):
        # the code behind the loop knows the exit condition only; every way out is checked on the other branch
        assume_inv(ip, spec, L, spec.after)
        return
    assume_inv(ip, spec, L)
    if spec.at_start:
        spec.at_start(L)
    if not ip.truth(ip.eval(fr, st.test)):
        ip.exec_block(fr, st.orelse)
        if spec.after is not None:
            check_inv(ip, spec, L, "holds after the loop", spec.after)
            raise PathEnd()
        return
    try:
        ip.exec_block(fr, st.body)
    except BreakSig:
        if spec.after is not None:
            check_inv(ip, spec, L, "holds after the loop", spec.after)
            raise PathEnd()
        return
    except ContinueSig:
        pass
    check_inv(ip, spec, L, "is preserved")
    raise PathEnd()


def cut_for(ip, fr, st, spec, n, item):
    s = ip.s
    n = T.int_of(n)
    entry = dict(fr.env)
    L = LoopView(ip, fr, z3.IntVal(0), n, entry)
    check_inv(ip, spec, L, "holds on entry")
    i0 = s.sym("it", T.I)

    def body():
        s.pc.extend([i0 >= 0, i0 < n])
        ip.assign(fr, st.target, item(i0))
        ip.exec_block(fr, st.body)
    keys = written_keys(ip, body, spec.types, fr)
    do_havoc(ip, keys, spec.types, fr)
    i = s.sym("it", T.I)
    s.assume(z3.And(i >= 0, z3.Or(i <= n, i == 0)))
    L = LoopView(ip, fr, i, n, entry)
    assume_inv(ip, spec, L)
    if spec.at_start:
        spec.at_start(L)
    if not s.decide(i < n):
        ip.exec_block(fr, st.orelse)
        return
    ip.assign(fr, st.target, item(i))
    try:
        ip.exec_block(fr, st.body)
    except BreakSig:
        return
    except ContinueSig:
        pass
    check_inv(ip, spec, LoopView(ip, fr, i + 1, n, entry), "is preserved")
    raise PathEnd()

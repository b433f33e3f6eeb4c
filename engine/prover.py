"""Discharges verification conditions: functional elimination + lemma search, then z3 (and cvc5 as second back end)."""
import time
import z3
from . import terms as T
from .terms import FUNCTIONALS, mentions

z3.set_param("smt.random_seed", 0)


class Stats:
    def __init__(self):
        self.queries = 0
        self.z3_time = 0.0
        self.cvc5_time = 0.0
        self.cvc5_used = 0
        self.lemmas = {}

    def lemma(self, k):
        self.lemmas[k] = self.lemmas.get(k, 0) + 1


STATS = Stats()


def x_start(x):
    return x.arg(2)


def split_condition(e):
    """condition of an if-then-else over closed terms that chooses an index or a number, also inside binders"""
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if not z3.is_app(x):
            continue
        if x.decl().kind() == z3.Z3_OP_ITE and closed(x.arg(0)) and has_fun(x.arg(0)):
            return x.arg(0)
        stack.extend(x.children())
    return None


def has_fun(e):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().name() in FUNCTIONALS:
                return True
            stack.extend(x.children())
    return False


def closed(e):
    seen = set()
    stack = [(e, 0)]
    while stack:
        x, d = stack.pop()
        if (x.get_id(), d) in seen:
            continue
        seen.add((x.get_id(), d))
        if z3.is_var(x):
            if z3.get_var_index(x) >= d:
                return False
        elif z3.is_quantifier(x):
            stack.append((x.body(), d + x.num_vars()))
        else:
            stack.extend((c, d) for c in x.children())
    return True


class Facts:
    """Symbol facts: element axioms per uninterpreted function, and instantiable universal facts."""

    def __init__(self):
        self.elem = {}     # decl name -> list of f(*args)->Bool
        self.univ = []     # (nb, f(*idx)->Bool)   instantiated at index terms
        self.defs = []

    def add_elem(self, name, f):
        self.elem.setdefault(name, []).append(f)

    def add_univ(self, nb, f, decls=None):
        self.univ.append((nb, f, decls))


_COLLECTED = {}


def collect(es):
    """ground functional apps, uf apps, int index terms found outside binders."""
    es = list(es)
    if len(es) == 1:
        r = collect1(es[0])
        return r[1], r[2], r[3]
    funs, ufs, ints = {}, {}, {}
    for e in reversed(es):
        _, a, b, c = collect1(e)
        funs.update(a)
        ufs.update(b)
        ints.update(c)
    return funs, ufs, ints


def collect1(e):
    r = _COLLECTED.get(e.get_id())
    if r is None:
        if len(_COLLECTED) > 60000:
            _COLLECTED.clear()
        r = _COLLECTED[e.get_id()] = (e,) + _collect1(e)       # keeps e alive, so its id stays its own
    return r


def _collect1(e):
    funs, ufs, ints = {}, {}, {}
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if not z3.is_app(x):
            continue
        nm = x.decl().name()
        if nm in FUNCTIONALS:
            funs[x.get_id()] = x
            kind, nb = FUNCTIONALS[nm]
            for c in x.children()[1:]:
                stack.append(c)
            continue
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if x.num_args() > 0:
                ufs[x.get_id()] = x
                for c in x.children():
                    if z3.is_int(c):
                        ints[c.get_id()] = c
            elif z3.is_int(x):
                ints[x.get_id()] = x
        stack.extend(x.children())
    return funs, ufs, ints


_AXIOMS = {}
_ABSTRACT = {}


def abstract1(e):
    r = _ABSTRACT.get(e.get_id())
    if r is None:
        if len(_ABSTRACT) > 60000:
            _ABSTRACT.clear()
        funs = collect1(e)[1]
        new = e
        if funs:
            subs = []
            for x in funs.values():
                _KEEP[x.get_id()] = x              # the constant is named after this id: it must stay this term's
                subs.append((x, z3.Const("F!%d" % x.get_id(), x.sort())))
            new = z3.substitute(e, *subs)
        r = _ABSTRACT[e.get_id()] = (e, new)
    return r[1]


_KEEP = {}
_SYMS = {}


def symbols(e):
    """names of the uninterpreted functions and of the real and boolean constants of e, binders included"""
    r = _SYMS.get(e.get_id())
    if r is not None:
        return r[1]
    if len(_SYMS) > 60000:
        _SYMS.clear()
    out, seen, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in FUNCTIONALS and \
                    (x.num_args() > 0 or not z3.is_int(x)):
                out.add(x.decl().name())
            stack.extend(x.children())
    _SYMS[e.get_id()] = (e, out)
    return out


class Prover:
    def __init__(self, facts=None, timeout=8000, dims=()):
        self.facts = facts or Facts()
        self.timeout = timeout
        self.cache = {}
        self.univ_cache = {}
        self.elem_cache = {}
        self.deadline = None
        self._keep = []          # keep asts alive so ids stay unique
        self.use_cvc5 = True
        self.nsplit = 0
        self.max_pairs = 60
        self.scale = 1
        self.nuniv = None        # only the universal facts known when the obligation was recorded

    # ------------------------------------------------------------------
    def quick_unsat(self, hyps, timeout=1500):
        r = self._solve(hyps, timeout, want_model=False, cvc5=False)
        return r[0] == "unsat"

    def feasible(self, hyps, c):
        """False only if hyps /\\ c is certainly contradictory."""
        es = list(hyps) + [c]
        key = ("feas", tuple(e.get_id() for e in es))
        if key in self.cache:
            return self.cache[key]
        self._keep.extend(es)
        r = True
        simple = [h for h in hyps if not self._has_functionals([h])]
        if self._atom(hyps, z3.Not(c)):
            self.cache[key] = False
            return False
        tries = [(es, 1)]
        if self._has_functionals([c]):
            tries = [(simple + [c], 3)]
            if len(simple) < len(hyps):
                about = symbols(c)
                keep = {h.get_id() for h in simple}
                es = [h for h in hyps if h.get_id() in keep or about & symbols(h)] + [c]
                tries.append((es, 1))
                if len(collect(es)[0]) <= 6:
                    tries.append((es, 3))
        for ee, rounds in tries:
            ext = self.expand(ee, depth=3, rounds=rounds)
            if self._solve(ext, 800, want_model=False, cvc5=False)[0] == "unsat":
                r = False
                break
        self.cache[key] = r
        return r

    def prove(self, hyps, goal, depth=0, phase=2, timeout=None):
        """returns (status, model) ; status in proved / refuted / unknown"""
        goal = T.num(goal)
        sg = z3.simplify(goal)
        if z3.is_true(sg):
            return "proved", None
        if z3.is_false(sg):
            goal = sg
        key = (tuple(h.get_id() for h in hyps), goal.get_id(), depth, phase)
        if key in self.cache:
            return self.cache[key]
        self._keep.extend(hyps)
        self._keep.append(goal)
        r = self._prove(list(hyps), goal, depth, phase, timeout or self.timeout)
        if r[0] == "proved" or not (self.deadline and time.time() > self.deadline):
            self.cache[key] = r
        return r

    def _prove(self, hyps, goal, depth, phase, timeout):
        if self.deadline and time.time() > self.deadline:
            return "unknown", None
        # conjunction / implication / ite splitting keeps queries small
        if z3.is_and(goal):
            worst = ("proved", None)
            for g in goal.children():
                r = self.prove(hyps, g, depth, phase, timeout)
                if r[0] != "proved":
                    return r
            return worst
        if z3.is_implies(goal):
            return self.prove(hyps + [goal.arg(0)], goal.arg(1), depth, phase, timeout)
        if z3.is_not(goal) and z3.is_or(goal.arg(0)):
            return self.prove(hyps, z3.And(*[z3.Not(c) for c in goal.arg(0).children()]), depth, phase, timeout)
        if z3.is_not(goal) and self.is_fun(goal.arg(0)) and goal.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                FUNCTIONALS[goal.arg(0).decl().name()] == ("ANY", 1):
            # no index satisfies the body: show it for an arbitrary one
            x, k = goal.arg(0), T.fresh_int("k")
            if not any(h.eq(goal) for h in hyps):
                return self.prove(hyps + [k >= 0, k < x.arg(1)], z3.simplify(z3.Not(T.app_body(x.arg(0), [k]))), depth,
                                  phase, timeout)
        if depth == 0 and has_fun(goal):
            new = self.witnesses(hyps)
            if new:
                hyps = hyps + new
        if depth == 0:
            g2 = self.context(hyps, goal)
            if not g2.eq(goal):
                return self.prove(hyps, g2, 1, phase, timeout)
        if z3.is_eq(goal) and z3.is_real(goal.arg(0)):
            if poly_equal(goal.arg(0), goal.arg(1)):
                STATS.lemma("polynomial identity")
                return "proved", None
        booleq = z3.is_eq(goal) and z3.is_bool(goal.arg(0))
        if depth <= 1 and self.nsplit < 4 and phase >= 1 and (booleq or self.nsplit or has_fun(goal)):
            c = None if booleq else split_condition(goal)
            if booleq or c is not None:
                if self._solve(self.expand(hyps + [z3.Not(goal)], depth, rounds=1, phase=0, goal=goal),
                               min(timeout, 2500))[0] == "unsat":
                    return "proved", None
            if c is not None:
                return self.split(hyps, goal, c, depth, phase, timeout)
        if depth < 6 and self.sign_goal(hyps, goal):
            return "proved", None
        if depth < 6 and not booleq and self.direct(hyps, goal, depth):
            return "proved", None
        ng = z3.Not(goal)
        last = ("unknown", None)
        for ph in range(0, phase + 1):
            es = self.expand(hyps + [ng], depth, rounds=2 if ph else 1, phase=ph, goal=goal)
            st, m = self._solve(es, timeout if ph == phase else min(timeout, 2500), want_model=True,
                                cvc5=(depth == 0 and ph == phase))
            if st == "unsat":
                return "proved", None
            last = ("refuted" if st == "sat" else "unknown", m)
            if ph == 0 and not self._has_functionals(hyps + [ng]):
                if st == "sat":
                    # still let quantified facts be instantiated more broadly
                    if not self.facts.univ[:self.nuniv]:
                        return last
        return last

    def split(self, hyps, goal, c, depth, phase, timeout):
        """case distinction on a condition the goal's terms choose by"""
        self.nsplit += 1
        worst = ("proved", None)
        try:
            for val in (True, False):
                g = z3.simplify(z3.substitute(goal, (c, z3.BoolVal(val))))
                h = [z3.simplify(z3.substitute(x, (c, z3.BoolVal(val)))) for x in hyps] + [c if val else z3.Not(c)]
                r = self.prove(h, g, max(depth, 1), phase, timeout)
                if r[0] != "proved":
                    return r
        finally:
            self.nsplit -= 1
        STATS.lemma("case split")
        return worst

    # ------------------------------------------------------------------ structural descent
    def direct(self, hyps, goal, depth):
        neg, g = False, goal
        if z3.is_not(g):
            neg, g = True, g.arg(0)
        if not z3.is_app(g) or g.num_args() != 2:
            return False
        a, b = g.arg(0), g.arg(1)
        k = g.decl().kind()
        if k == z3.Z3_OP_EQ and not neg:
            return self.eqd(hyps, a, b)
        if not z3.is_arith(a):
            return False
        rel = {z3.Z3_OP_LE: "le", z3.Z3_OP_LT: "lt", z3.Z3_OP_GE: "ge", z3.Z3_OP_GT: "gt"}.get(k)
        if rel is None:
            return False
        if neg:
            rel = {"le": "gt", "lt": "ge", "ge": "lt", "gt": "le"}[rel]
        if rel in ("ge", "gt"):
            a, b = b, a
        a, b = self.simp(a), self.simp(b)
        if rel in ("le", "ge") and self.is_fun(a) and self.is_fun(b) and a.decl().eq(b.decl()):
            kind, nb = FUNCTIONALS[a.decl().name()]
            if kind in ("SUM", "MAX", "MIN") and nb == 1 and a.num_args() == 2 and \
                    (a.arg(1).eq(b.arg(1)) or self._atom(hyps, a.arg(1) == b.arg(1))):
                x = T.fresh_int("e")
                ba, bb = T.app_body(a.arg(0), [x]), T.app_body(b.arg(0), [x])
                hy = hyps + [x >= 0, x < a.arg(1)]
                if kind != "SUM" and not self._atom(hyps, a.arg(1) > 0):
                    return False
                if self.prove(hy, ba <= bb, depth + 1, 1, 6000)[0] == "proved":
                    STATS.lemma("monotonicity")
                    return True
        return False

    def witnesses(self, hyps):
        """names the elements that hypotheses say exist"""
        out = []
        for h in hyps:
            k = ("wit", h.get_id())
            if k not in self.cache:
                self._keep.append(h)
                new, x = [], h
                while z3.is_app(x) and x.decl().name() in FUNCTIONALS and FUNCTIONALS[x.decl().name()] == ("ANY", 1):
                    w = T.fresh_int("w")
                    new += [w >= 0, w < x.arg(1)]
                    x = z3.simplify(T.app_body(x.arg(0), [w]))
                self.cache[k] = new + [x] if new else []
                self._keep.extend(self.cache[k])
            if not any(g.eq(n) for n in self.cache[k] for g in hyps[-8:]):
                out += self.cache[k]
        return out

    def context(self, hyps, goal):
        """rewrites the conditions decided by literal hypotheses"""
        subs = []
        for h in hyps:
            h = self.simp(h)
            for a in (h.children() if z3.is_and(h) else [h]):
                neg = z3.is_not(a)
                b = a.arg(0) if neg else a
                subs.append((b, z3.BoolVal(not neg)))
                if not neg and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_GE and z3.is_int(b.arg(0)):
                    pass
        if not subs:
            return goal
        g = self.simp(goal)
        r = z3.substitute(g, *subs)
        return goal if r.eq(g) else z3.simplify(r)

    def simp(self, t):
        k = ("simp", t.get_id())
        if k not in self.cache:
            self._keep.append(t)
            self.cache[k] = z3.simplify(t)
        return self.cache[k]

    @staticmethod
    def is_fun(t):
        return z3.is_app(t) and t.decl().name() in FUNCTIONALS

    def eqd(self, hyps, a, b, lvl=0):
        """a == b by congruence, extensionality of sums etc., and local arithmetic"""
        a, b = self.simp(a), self.simp(b)
        if a.eq(b):
            return True
        if lvl > 8 or (self.deadline and time.time() > self.deadline):
            return False
        key = ("eqd", tuple(h.get_id() for h in hyps), a.get_id(), b.get_id())
        if key in self.cache:
            return self.cache[key]
        self._keep.extend(hyps)
        self._keep += [a, b]
        self.cache[key] = False
        r = self._eqd(hyps, a, b, lvl)
        self.cache[key] = r
        if not r and self.deadline and time.time() > self.deadline:
            del self.cache[key]
        return r

    def _eqd(self, hyps, a, b, lvl):
        if a.sort() != b.sort() or not z3.is_app(a) or not z3.is_app(b):
            return False
        if self.is_fun(a) and self.is_fun(b) and a.decl().eq(b.decl()):
            kind, nb = FUNCTIONALS[a.decl().name()]
            ok = True
            for x, y in zip(a.children()[1:], b.children()[1:]):
                if not (x.eq(y) or self._atom(hyps, x == y)):
                    ok = False
                    break
            if ok:
                ks = [T.fresh_int("e") for _ in range(nb)]
                ba, bb = T.app_body(a.arg(0), ks), T.app_body(b.arg(0), ks)
                rng = []
                for k, n in zip(ks, a.children()[1:1 + nb]):
                    rng += [k >= 0, k < n]
                if self.eqd(hyps + rng, ba, bb, lvl + 1):
                    STATS.lemma("extensionality")
                    return True
            if not z3.is_real(a):
                return False
        elif a.decl().eq(b.decl()) and a.num_args() == b.num_args() and a.num_args() > 0 and \
                a.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
            if all(self.eqd(hyps, x, y, lvl + 1) for x, y in zip(a.children(), b.children())):
                return True
        if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_app_of(b, z3.Z3_OP_ITE) and \
                self.eqd(hyps, a.arg(0), b.arg(0), lvl + 1) and \
                self.eqd(hyps + [a.arg(0)], a.arg(1), b.arg(1), lvl + 1) and \
                self.eqd(hyps + [z3.Not(a.arg(0))], a.arg(2), b.arg(2), lvl + 1):
            return True
        if z3.is_eq(a) and z3.is_eq(b) and a.arg(0).sort() == b.arg(0).sort():
            if self.eqd(hyps, a.arg(0), b.arg(0), lvl + 1) and self.eqd(hyps, a.arg(1), b.arg(1), lvl + 1):
                return True
        if z3.is_bool(a):
            return self._leaf(hyps, a == b, [a, b], lvl)
        if z3.is_real(a) and poly_equal(a, b):
            STATS.lemma("polynomial identity")
            return True
        return self._leaf(hyps, a == b, [a, b], lvl)

    def _leaf(self, hyps, goal, ts, lvl):
        """local query: functional subterms of the two sides identified where provably equal, then z3"""
        fa, _, _ = collect([ts[0]])
        fb, _, _ = collect([ts[1]])
        fs = sorted({**fa, **fb}.values(), key=lambda x: x.get_id())
        if len(fs) > 40:
            return False
        rep = {}
        reps = []
        self_ids = {t.get_id() for t in ts}
        for x in fs:
            for r in reps:
                if r.decl().eq(x.decl()) and not ({r.get_id(), x.get_id()} <= self_ids) and \
                        self.eqd(hyps, r, x, lvl + 1):
                    rep[x.get_id()] = r
                    break
            else:
                reps.append(x)
        subs = [(x, rep[x.get_id()]) for x in fs if x.get_id() in rep]
        g = z3.substitute(goal, *subs) if subs else goal
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        ax = []
        _, ufs, _ = collect([g])
        for x in ufs.values():
            ax.extend(self.elem_axioms(x))
        sgn = []
        for x in reps:
            if z3.is_real(x) and FUNCTIONALS[x.decl().name()][0] == "SUM":
                sg = self.sign(hyps, x, {})
                if sg in ("pos", "nonneg", "zero"):
                    sgn.append(x > 0 if sg == "pos" else x >= 0 if sg == "nonneg" else x == 0)
        hy = [z3.simplify(h) for h in hyps]
        if subs:
            hy = [z3.substitute(h, *subs) for h in hy]
        es = hy + ax + sgn + [z3.Not(g)]
        self._keep.extend(es)
        ab = self.abstract(es)
        # division by a denominator of known sign: give the solver the product form as well
        return self._solve(ab, 2500, want_model=False, cvc5=False)[0] == "unsat"

    # ------------------------------------------------------------------ sign calculus
    def sign_goal(self, hyps, goal):
        """goal of the form t <rel> 0 (or a <rel> b) over reals, decided by compositional sign rules"""
        neg = False
        g = goal
        if z3.is_not(g):
            neg, g = True, g.arg(0)
        k = g.decl().kind() if z3.is_app(g) else None
        rel = {z3.Z3_OP_LE: "le", z3.Z3_OP_LT: "lt", z3.Z3_OP_GE: "ge", z3.Z3_OP_GT: "gt", z3.Z3_OP_EQ: "eq"}.get(k)
        if rel is None or not z3.is_real(g.arg(0)):
            return False
        a, b = g.arg(0), g.arg(1)
        if neg:
            rel = {"le": "gt", "lt": "ge", "ge": "lt", "gt": "le", "eq": "ne"}[rel]
        if rel == "eq":
            return False

        def zero(x):
            return z3.is_rational_value(x) and x.as_fraction() == 0
        if zero(b):
            sg = self.sign(hyps, a, {})
        elif zero(a):
            sg = self.sign(hyps, b, {})
            rel = {"le": "ge", "lt": "gt", "ge": "le", "gt": "lt"}.get(rel, rel)
        else:
            sg = self.sign(hyps, z3.simplify(a - b), {})
        ok = {"ge": ("pos", "nonneg", "zero"), "gt": ("pos",), "le": ("neg", "nonpos", "zero"), "lt": ("neg",),
              "ne": ("pos", "neg")}[rel]
        if sg in ok:
            STATS.lemma("sign calculus")
            return True
        return False

    def sign(self, hyps, t, memo, lvl=0):
        k = t.get_id()
        if k in memo:
            return memo[k]
        self._keep.append(t)
        r = self._sign(hyps, t, memo, lvl)
        memo[k] = r
        return r

    @staticmethod
    def _mul_sign(a, b):
        if a == "zero" or b == "zero":
            return "zero"
        if a is None or b is None:
            return None
        n = (a in ("neg", "nonpos")) != (b in ("neg", "nonpos"))
        strict = a in ("pos", "neg") and b in ("pos", "neg")
        return ("neg" if strict else "nonpos") if n else ("pos" if strict else "nonneg")

    def _sign(self, hyps, t, memo, lvl):
        if lvl > 30 or (self.deadline and time.time() > self.deadline):
            return None
        if z3.is_rational_value(t):
            v = t.as_fraction()
            return "zero" if v == 0 else "pos" if v > 0 else "neg"
        if not z3.is_app(t) or not z3.is_real(t):
            return None
        kd = t.decl().kind()
        nm = t.decl().name()
        ch = t.children()
        if kd == z3.Z3_OP_ADD:
            ss = [self.sign(hyps, c, memo, lvl + 1) for c in ch]
            if all(x in ("pos", "nonneg", "zero") for x in ss):
                return "pos" if "pos" in ss else "zero" if all(x == "zero" for x in ss) else "nonneg"
            if all(x in ("neg", "nonpos", "zero") for x in ss):
                return "neg" if "neg" in ss else "nonpos"
        elif kd == z3.Z3_OP_MUL:
            cnt = {}
            for c in ch:
                cnt.setdefault(c.get_id(), [c, 0])[1] += 1
            r = "pos"
            for c, q in cnt.values():
                sg = self.sign(hyps, c, memo, lvl + 1)
                if q % 2 == 0:
                    sg = "pos" if sg in ("pos", "neg") else "zero" if sg == "zero" else "nonneg"
                r = self._mul_sign(r, sg)
                if r is None:
                    break
            if r is not None:
                return r
        elif kd == z3.Z3_OP_DIV:
            d = self.sign(hyps, ch[1], memo, lvl + 1)
            if d in ("pos", "neg"):
                r = self._mul_sign(self.sign(hyps, ch[0], memo, lvl + 1), d)
                if r is not None:
                    return r
        elif kd == z3.Z3_OP_UMINUS:
            r = self.sign(hyps, ch[0], memo, lvl + 1)
            return {"pos": "neg", "neg": "pos", "nonneg": "nonpos", "nonpos": "nonneg", "zero": "zero"}.get(r)
        elif kd == z3.Z3_OP_POWER:
            if z3.is_rational_value(ch[1]) and ch[1].as_fraction() == 2:
                r = self.sign(hyps, ch[0], memo, lvl + 1)
                return "pos" if r in ("pos", "neg") else "zero" if r == "zero" else "nonneg"
        elif kd == z3.Z3_OP_ITE:
            a = self.sign(hyps + [ch[0]], ch[1], {}, lvl + 1)
            if a is not None:
                b = self.sign(hyps + [z3.Not(ch[0])], ch[2], {}, lvl + 1)
                if b is not None:
                    u = {a, b}
                    if u == {"pos"}:
                        return "pos"
                    if u <= {"pos", "nonneg", "zero"}:
                        return "nonneg" if u != {"zero"} else "zero"
                    if u == {"neg"}:
                        return "neg"
                    if u <= {"neg", "nonpos", "zero"}:
                        return "nonpos"
        elif kd == z3.Z3_OP_TO_REAL:
            if self._atom(hyps, ch[0] > 0):
                return "pos"
            if self._atom(hyps, ch[0] >= 0):
                return "nonneg"
            return None
        elif nm == "SQRT":
            r = self.sign(hyps, ch[0], memo, lvl + 1)
            return r if r in ("pos", "zero") else "nonneg"
        elif nm in FUNCTIONALS and FUNCTIONALS[nm][0] == "SUM" and FUNCTIONALS[nm][1] == 1:
            if self._atom(hyps, t.arg(1) <= 0):
                return "zero"
            k = T.fresh_int("s")
            body = T.app_body(t.arg(0), [k])
            r = self.sign(hyps + [k >= 0, k < t.arg(1)], body, {}, lvl + 1)
            if r in ("pos", "neg"):
                if not self._atom(hyps, t.arg(1) > 0):
                    r = {"pos": "nonneg", "neg": "nonpos"}[r]
            if r == "nonneg" and self._has_functionals(hyps) and self._atom(hyps, t > 0):
                r = "pos"
            if r is not None:
                return r
        elif nm in FUNCTIONALS and FUNCTIONALS[nm][0] in ("MAX", "MIN"):
            k = T.fresh_int("s")
            body = T.app_body(t.arg(0), [k])
            if z3.is_real(body) and self._atom(hyps, t.arg(1) > 0):
                return self.sign(hyps + [k >= 0, k < t.arg(1)], body, {}, lvl + 1)
            return None
        # atoms and everything else: element axioms and the hypotheses
        if self._atom(hyps, t > 0):
            return "pos"
        if self._atom(hyps, t >= 0):
            return "nonneg"
        if self._atom(hyps, t < 0):
            return "neg"
        if self._atom(hyps, t <= 0):
            return "nonpos"
        return None

    def _atom(self, hyps, g):
        """quick, purely local entailment: element axioms of the terms in g, and the relevant hypotheses"""
        key = ("atom", tuple(h.get_id() for h in hyps), g.get_id())
        if key in self.cache:
            return self.cache[key]
        self._keep.extend(hyps)
        self._keep.append(g)
        es = [h for h in hyps] + [z3.Not(g)]
        _, ufs, _ = collect(es)
        ax = []
        for x in ufs.values():
            ax.extend(self.elem_axioms(x))
        es = [z3.simplify(e) for e in es + ax]
        self._keep.extend(es)
        r = self._solve(self.abstract(es), 400, want_model=False, cvc5=False)[0] == "unsat"
        self.cache[key] = r
        return r

    def has_functionals(self, c):
        return self._has_functionals([c])

    def _has_functionals(self, es):
        f, _, _ = collect(es)
        return bool(f)

    # ------------------------------------------------------------------
    def expand(self, es, depth, rounds=1, phase=0, goal=None):
        """es plus lemmas, with functional applications replaced by constants."""
        es = [T.num(e) for e in es]
        lem = []
        done_axiom = set()
        done_pair = set()
        done_univ = set()
        done_elem = set()
        for rnd in range(rounds + 1):
            funs, ufs, ints = collect(es + lem)
            new = []
            # element axioms
            for x in list(ufs.values()):
                if x.get_id() in done_elem:
                    continue
                done_elem.add(x.get_id())
                self._keep.append(x)
                new.extend(self.elem_axioms(x))
            fl = sorted(funs.values(), key=lambda x: x.get_id())
            # axioms of functionals
            terms_ = list(ints.values())[:24]
            for x in fl:
                kind, nb = FUNCTIONALS[x.decl().name()]
                for t in [None] + terms_:
                    k = (x.get_id(), None if t is None else t.get_id())
                    if k in done_axiom:
                        continue
                    done_axiom.add(k)
                    new.extend(self.axioms(x, kind, nb, t))
            # universal facts
            if rnd <= rounds:
                import itertools
                for ui, (nb, f, decls) in enumerate(self.facts.univ[:self.nuniv]):
                    if decls is not None:
                        insts = [tuple(x.children()[:nb]) for x in ufs.values() if x.decl().name() in decls]
                    else:
                        tl = terms_ if nb == 1 else terms_[:8]
                        insts = list(itertools.product(tl, repeat=nb))[:150]
                    for a in insts:
                        k = (ui,) + tuple(t.get_id() for t in a)
                        if k in done_univ:
                            continue
                        done_univ.add(k)
                        r = self.univ_cache.get(k)
                        if r is None:
                            self._keep.extend(a)
                            r = self.univ_cache[k] = T.num(f(*a))
                        new.append(r)
            if phase >= 1 and depth < 5:
                new.extend(self.pair_lemmas(es + lem, fl, depth, phase, done_pair))
            if not new:
                break
            self._keep.extend(new)
            lem.extend(new)
        allx = es + lem
        # remove functionals
        funs, _, _ = collect(allx)
        self._keep.extend(funs.values())
        return self.abstract(allx)

    def elem_axioms(self, x):
        fs = self.facts.elem.get(x.decl().name(), ())
        k = x.get_id()
        r = self.elem_cache.get(k)
        if r is None or r[1] != len(fs):
            r = self.elem_cache[k] = (x, len(fs), [T.num(f(*x.children())) for f in fs] + scalar_axioms(x))
        return r[2]

    def abstract(self, es):
        """ground functional applications become constants named after them"""
        return [abstract1(e) for e in es]

    def axioms(self, x, kind, nb, t):
        k = ("ax", x.get_id(), None if t is None else t.get_id())
        r = _AXIOMS.get(k)
        if r is None:
            if len(_AXIOMS) > 60000:
                _AXIOMS.clear()
            _KEEP[x.get_id()] = x
            r = _AXIOMS[k] = (x, t, self._axioms(x, kind, nb, t))
        return r[2]

    def _axioms(self, x, kind, nb, t):
        lam = x.arg(0)
        n = x.arg(1)
        out = []
        if kind == "ICOUNT" and t is None:
            out += [x >= 0, z3.Implies(n >= 0, x <= n)]
        elif kind == "ANY":
            if t is None:
                w = z3.Const("W!%d" % x.get_id(), T.I)
                out.append(z3.Implies(x, z3.And(w >= 0, w < n, T.app_body(lam, [w]))))
            else:
                out.append(z3.Implies(z3.And(t >= 0, t < n, T.app_body(lam, [t])), x))
        elif kind in ("MAX", "MIN", "ARGMAX", "ARGMIN"):
            up = kind.endswith("MAX")
            le = (lambda a, b: a <= b) if up else (lambda a, b: a >= b)
            lt = (lambda a, b: a < b) if up else (lambda a, b: a > b)
            if kind.startswith("ARG"):
                w, top = x, T.app_body(lam, [x])
            else:
                w, top = z3.Const("W!%d" % x.get_id(), T.I), x
            if t is None:
                out.append(z3.Implies(n > 0, z3.And(w >= 0, w < n, T.app_body(lam, [w]) == top)))
            else:
                b = T.app_body(lam, [t])
                out.append(z3.Implies(z3.And(t >= 0, t < n), le(b, top)))
                if kind.startswith("ARG"):
                    out.append(z3.Implies(z3.And(t >= 0, t < n, t < w), lt(b, top)))
        elif kind.startswith("ARGFOLD"):
            # running first-best: index of the first extremal element beyond the start value, -1 when there is none
            up = kind.endswith("GT")
            lt = (lambda a, b: a < b) if up else (lambda a, b: a > b)
            zero = kind.startswith("ARGFOLD0")
            if t is None:
                if zero:
                    out.append(z3.Implies(n > 0, z3.And(x >= 0, x < n)))
                else:
                    out += [x >= -1, z3.Implies(n >= 0, x < n),
                            z3.Implies(x >= 0, lt(x_start(x), T.app_body(lam, [x])))]
            else:
                b = T.app_body(lam, [t])
                inr = z3.And(t >= 0, t < n)
                best = T.app_body(lam, [x])
                if not zero:
                    best = z3.If(x < 0, x_start(x), best)
                out.append(z3.Implies(inr, z3.Not(lt(best, b))))
                out.append(z3.Implies(z3.And(inr, t < x), lt(b, T.app_body(lam, [x]))))
        elif kind == "SELECT" and t is None:
            j = x.arg(2)
            cnt = T.functional("ICOUNT", 1, T.Bo, T.I)(lam, n)
            out.append(z3.Implies(z3.And(j >= 0, j < cnt), z3.And(x >= 0, x < n, T.app_body(lam, [x]))))
        elif kind == "SUM" and t is None:
            out.append(z3.Implies(n <= 0, x == 0))
            out.append(z3.Implies(n == 1, x == T.app_body(lam, [z3.IntVal(0)])))
        elif kind == "ISUM" and t is None:
            out.append(z3.Implies(n <= 0, x == 0))
        if kind == "ICOUNT" and t is None:
            out.append(z3.Implies(n <= 0, x == 0))
        if kind == "FIRST":
            # first index < n where body holds, else n
            if t is None:
                out += [z3.Implies(n >= 0, z3.And(x >= 0, x <= n)),
                        z3.Implies(z3.And(n >= 0, x < n), T.app_body(lam, [x]))]
            else:
                out.append(z3.Implies(z3.And(t >= 0, t < n, t < x), z3.Not(T.app_body(lam, [t]))))
        return out

    def pair_lemmas(self, hyps, fl, depth, phase, done):
        out = []
        by = {}
        for x in fl:
            by.setdefault(x.decl().name(), []).append(x)
        hy = hyps
        for nm, xs in by.items():
            kind, nb = FUNCTIONALS[nm]
            if phase >= 2 and kind == "SUM":
                for x in xs:
                    if ("sgn", x.get_id()) in done:
                        continue
                    done.add(("sgn", x.get_id()))
                    ks = T.fresh_int("s")
                    n = x.arg(1)
                    b = T.app_body(x.arg(0), [ks])
                    rng = [ks >= 0, ks < n]
                    if self.prove(hy + rng, b >= 0, depth + 1, 1, 1500)[0] == "proved":
                        STATS.lemma("sum of nonnegatives")
                        out.append(x >= 0)
                        if self.prove(hy + rng, b > 0, depth + 1, 1, 1500)[0] == "proved":
                            STATS.lemma("sum of positives")
                            out.append(z3.Implies(n > 0, x > 0))
            pairs = 0
            for i in range(len(xs)):
                for j in range(i):
                    a, b = xs[i], xs[j]
                    k = (a.get_id(), b.get_id(), phase)
                    if k in done or pairs > self.max_pairs:
                        continue
                    done.add(k)
                    pairs += 1
                    out.extend(self.pair(hy, a, b, kind, nb, depth, phase))
        return out

    def pair(self, hy, a, b, kind, nb, depth, phase):
        na, nb_ = [a.arg(1 + q) for q in range(nb)], [b.arg(1 + q) for q in range(nb)]
        extra = list(zip(a.children()[1 + nb:], b.children()[1 + nb:]))
        ks = [T.fresh_int("e") for _ in range(nb)]
        ba, bb = T.app_body(a.arg(0), ks), T.app_body(b.arg(0), ks)
        same_n = all(x.eq(y) for x, y in zip(na, nb_))
        out = []
        if not same_n:
            ok = all(x.eq(y) or self.prove(hy, x == y, depth + 1, 0, 1000)[0] == "proved" for x, y in zip(na, nb_))
            if not ok:
                if nb == 1 and kind in ("SUM", "ISUM", "ICOUNT"):
                    out.extend(self.unroll(hy, a, b, kind, depth))
                return out
        rng = []
        for k, n in zip(ks, na):
            rng += [k >= 0, k < n]
        xeq = z3.And(*[x == y for x, y in extra]) if extra else None
        pre = hy + rng + ([xeq] if extra else [])
        if ba.eq(bb) or self.prove(pre, ba == bb, depth + 1, 1 if depth >= 1 else 2, 3000)[0] == "proved":
            STATS.lemma("extensionality")
            eq = a == b
            out.append(z3.Implies(xeq, eq) if extra else eq)
            return out
        if phase >= 2 and kind in ("SUM",):
            if self.prove(hy + rng, ba <= bb, depth + 1, 1, 1500)[0] == "proved":
                STATS.lemma("monotonicity of sums")
                out.append(a <= b)
            elif self.prove(hy + rng, bb <= ba, depth + 1, 1, 1500)[0] == "proved":
                STATS.lemma("monotonicity of sums")
                out.append(b <= a)
            # scaling:  sum(-f) = -sum(f)
            if self.prove(hy + rng, ba == -bb, depth + 1, 0, 1000)[0] == "proved":
                STATS.lemma("negation of sums")
                out.append(a == -b)
        return out

    def unroll(self, hy, a, b, kind, depth):
        """sum over n+1 = sum over n + last"""
        out = []
        for x, y in ((a, b), (b, a)):
            n, m = x.arg(1), y.arg(1)
            if self.prove(hy, m == n + 1, depth + 1, 0, 1000)[0] == "proved":
                k = T.fresh_int("e")
                bx, by_ = T.app_body(x.arg(0), [k]), T.app_body(y.arg(0), [k])
                if bx.eq(by_) or self.prove(hy + [k >= 0, k < n], bx == by_, depth + 1, 1, 2000)[0] == "proved":
                    last = T.app_body(y.arg(0), [n])
                    if kind == "ICOUNT":
                        last = z3.If(last, z3.IntVal(1), z3.IntVal(0))
                    STATS.lemma("unrolling of sums")
                    out.append(z3.Implies(n >= 0, y == x + last))
                    break
        return out

    # ------------------------------------------------------------------
    def _solve(self, es, timeout, want_model=True, cvc5=True):
        t0 = time.time()
        STATS.queries += 1
        s = z3.Solver()
        s.set("timeout", int(timeout * self.scale))
        s.add(*es)
        r = s.check()
        STATS.z3_time += time.time() - t0
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", (s.model() if want_model else None)
        if cvc5 and self.use_cvc5:
            st = self._cvc5(s, timeout)
            if st == "unsat":
                return "unsat", None
        m = None
        if want_model:
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        return "unknown", m

    def _cvc5(self, s, timeout):
        t0 = time.time()
        try:
            import cvc5
            txt = s.to_smt2()
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
            slv.setOption("tlimit-per", str(int(timeout)))
            slv.setLogic("ALL")
            parser = cvc5.InputParser(slv)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "vc")
            sm = parser.getSymbolManager()
            res = "unknown"
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(slv, sm)
                o = str(out).strip()
                if o in ("sat", "unsat", "unknown"):
                    res = o
            STATS.cvc5_used += 1
            return res
        except Exception:
            return "unknown"
        finally:
            STATS.cvc5_time += time.time() - t0


def scalar_axioms(x):
    nm = x.decl().name()
    out = []
    if nm == "SQRT":
        a = x.arg(0)
        out += [x >= 0, z3.Implies(a >= 0, x * x == a), z3.Implies(a == 0, x == 0), z3.Implies(a > 0, x > 0)]
    elif nm == "ROUND":
        pass
    elif nm == "POW":
        a, b = x.arg(0), x.arg(1)
        out += [z3.Implies(b == 1, x == a), z3.Implies(b == 0, x == 1), z3.Implies(a > 0, x > 0)]
    elif nm == "LOG":
        pass
    return out


def poly_equal(a, b):
    try:
        d = z3.simplify(a - b, som=True, hoist_mul=False)
        return z3.is_rational_value(d) and d.as_fraction() == 0
    except z3.Z3Exception:
        return False

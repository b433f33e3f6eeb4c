"""Symbolic interpreter (verification-condition generator) for the Python subset used by /repo.

One Session = one path.  Branches on symbolic conditions are explored by re-execution with a decision prefix
(driver: explore()).  Loops over ranges of symbolic length are summarised (see loops.py) or cut with a contract's
invariant.
"""
import ast
import os
import time
import z3
from . import terms as T
from .terms import Untranslatable, to_bool, to_real, to_int, num, ite, conj, disj
from .values import *
from .prover import Prover, Facts

REPO = os.environ.get("VERIF_REPO", "/repo")


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class PathEnd(Exception):
    """The current path is closed (e.g. the preserved-invariant branch of a loop)."""


class Frame:
    def __init__(self, module, env, func=None, parent=None, cls=None):
        self.module, self.env, self.func, self.parent, self.cls = module, env, func, parent, cls
        self.serial = serial()


class Module:
    cache = {}

    def __init__(self, name):
        self.name = name
        rel = name.replace(".", "/")
        p = os.path.join(REPO, rel + ".py")
        if not os.path.exists(p):
            p = os.path.join(REPO, rel, "__init__.py")
        self.path = p
        with open(p) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.globals = {}
        self.loading = False

    @classmethod
    def get(cls, name):
        if name not in cls.cache:
            cls.cache[name] = Module(name)
        return cls.cache[name]


def repo_module(name):
    if name.startswith("esat_eval"):
        name = "eval" + name[len("esat_eval"):]
    if name.split(".")[0] not in ("esat", "eval"):
        return None
    rel = name.replace(".", "/")
    if os.path.exists(os.path.join(REPO, rel + ".py")) or os.path.exists(os.path.join(REPO, rel, "__init__.py")):
        return name
    return None


class Obligation:
    def __init__(self, name, hyps, goal, where, facts, prover):
        self.name, self.hyps, self.goal, self.where, self.facts, self.prover = name, hyps, goal, where, facts, prover
        self.status, self.model, self.time = None, None, 0.0
        self.nuniv = len(facts.univ)


class Level:
    """Recording level for mutations."""

    def __init__(self):
        self.writes = {}


class ECtx:
    """decision context"""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []


class Session:
    def __init__(self, prefix, timeout=8000):
        self.facts = Facts()
        self.prover = Prover(self.facts, timeout)
        self.pc = []
        self.ctxs = [ECtx(prefix)]
        self.levels = []
        self.quiet = 0
        self.obls = []
        self.symctr = 0
        self.tag = ""
        self.stubs = {}
        self.cheap = 0      # > 0: both branches of every condition are explored without asking the solver
        self.loop_specs = {}
        self.used_funcs = set()
        self.inlined = set()
        self.assumed = set()
        self.steps = 0
        self.depth = 0
        self.where = ""
        self.modules = {}
        self.ghost = {}
        self.lib = None
        self.cur_exc = None

    # ---------------------------------------------------------------- symbols
    def sym(self, name, sort):
        self.symctr += 1
        return z3.Const(f"{name}~{self.symctr}{self.tag}", sort)

    def symfun(self, name, *sorts):
        self.symctr += 1
        return z3.Function(f"{name}~{self.symctr}{self.tag}", *sorts)

    def sym_arr(self, name, shape, kind="real", elem=None, exact=False):
        rng = {"real": T.R, "int": T.I, "bool": T.Bo}[kind]
        if not shape:
            c = z3.Const(name, rng) if exact else self.sym(name, rng)
            return c
        f = z3.Function(name, *([T.I] * len(shape)), rng) if exact else self.symfun(name, *([T.I] * len(shape)), rng)
        if elem is not None:
            self.facts.add_elem(f.name(), lambda *ix: elem(f(*ix), *ix))
        return Arr(shape, lambda *ix: f(*[T.int_of(i) for i in ix]), kind)

    def assume(self, c):
        c = z3.simplify(num(c))
        if z3.is_true(c):
            return
        self.pc.append(c)

    def oblige(self, name, goal):
        if self.quiet:
            # still assume it afterwards: evaluation continues only where it holds
            self.assume(goal)
            return
        g = num(goal)
        sg = z3.simplify(g)
        if z3.is_true(sg) or z3.is_false(sg):
            g = sg
        ctx = self.ctxs[-1]
        new = all(len(c.trace) >= len(c.prefix) for c in self.ctxs)
        if new:
            self.obls.append(Obligation(name, list(self.pc), g, self.where, self.facts, self.prover))
        self.assume(g)

    def entails(self, c, timeout=2000, quick=False):
        c = z3.simplify(num(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if quick:
            return self.prover._atom(list(self.pc), c)
        return self.shows(list(self.pc), c, timeout)

    def shows(self, hyps, c, timeout=2000):
        # no long search while the code is being executed: an undecided question has a slower but general treatment
        dl = self.prover.deadline
        self.prover.deadline = min(dl or float("inf"), time.time() + 20)
        try:
            return self.prover.prove(hyps, c, 0, 1, timeout)[0] == "proved"
        finally:
            self.prover.deadline = dl

    def decide(self, c):
        """fork on a symbolic condition"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(to_bool(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ctx = self.ctxs[-1]
        i = len(ctx.trace)
        if i < len(ctx.prefix):
            mark = ctx.prefix[i]
        else:
            ft = True if self.cheap else self.prover.feasible(self.pc, c)
            ff = True if self.cheap else (self.prover.feasible(self.pc, z3.Not(c)) if ft else True)
            if ft and ff:
                mark = True
                ctx.pending.append(ctx.trace + [False])
            else:
                mark = "T" if ft else "F"
        ctx.trace.append(mark)
        d = mark in (True, "T")
        self.tag += "t" if d else "f"
        if mark in ("T", "F") and self.prover.has_functionals(c):
            return d            # entailed by the path condition: adds nothing to it
        self.pc.append(c if d else z3.simplify(z3.Not(c)))
        return d

    def choose(self, name="choice"):
        """demonic boolean choice"""
        b = self.sym(name, T.Bo)
        return self.decide(b)

    # ---------------------------------------------------------------- mutation journal
    def note(self, key, getter, setter):
        if self.levels:
            w = self.levels[-1].writes
            if key not in w:
                w[key] = (getter, setter, getter())

    def set_local(self, frame, name, val):
        env = frame.env

        def setter(v):
            if v is _MISSING:
                env.pop(name, None)
            else:
                env[name] = v
        self.note(("L", id(env), name, frame), lambda: env.get(name, _MISSING), setter)
        env[name] = val

    def set_attr(self, obj, name, val):
        a = obj.attrs

        def setter(v):
            if v is _MISSING:
                a.pop(name, None)
            else:
                a[name] = v
        self.note(("A", id(obj), name, obj), lambda: a.get(name, _MISSING), setter)
        a[name] = val

    def write_arr(self, arr, pred, val):
        """arr[ix] := val(ix) where pred(ix)."""
        if arr.base is not None:
            inv = arr.inv
            if inv is None:
                raise Untranslatable("write through a non-invertible view")

            def p2(*r):
                c, v = inv(*r)
                return conj([c, pred(*v)])
            self.write_arr(arr.base, p2, lambda *r: val(*inv(*r)[1]))
            return
        st = arr.store
        self.note(("arr", id(st), st), lambda: st.fn, lambda f: setattr(st, "fn", f))
        old = st.fn
        if arr.kind == "int":
            # writing reals into an int array truncates; only allow int values
            st.fn = lambda *ix: ite(to_bool(pred(*ix)), val(*ix), old(*ix))
        elif arr.kind == "bool":
            st.fn = lambda *ix: ite(to_bool(pred(*ix)), to_bool(val(*ix)), old(*ix))
        else:
            st.fn = lambda *ix: ite(to_bool(pred(*ix)), to_real(val(*ix)), old(*ix))

    def touch_list(self, pl):
        def setter(v):
            pl.prefix, items = v
            pl.items = list(items)
        self.note(("list", id(pl), pl), lambda: (pl.prefix, list(pl.items)), setter)

    def touch_dict(self, d):
        def setter(v):
            d.items, d.fams = dict(v[0]), list(v[1])
        self.note(("dict", id(d), d), lambda: (dict(d.items), list(d.fams)), setter)

    # ---------------------------------------------------------------- local exploration (loop bodies)
    def explore_local(self, thunk, limit=64):
        """Run thunk on every feasible path from here; state is rolled back after each.
        returns [(cond, outcome, {key: (getter, setter, final)})]"""
        results = []
        work = [[]]
        sym0, tag0, pc0 = self.symctr, self.tag, list(self.pc)
        while work:
            prefix = work.pop()
            if len(results) > limit:
                raise Untranslatable("too many paths in a loop body")
            ctx = ECtx(prefix)
            self.ctxs.append(ctx)
            lvl = Level()
            self.levels.append(lvl)
            self.symctr, self.tag, self.pc = sym0, tag0 + "(", list(pc0)
            try:
                try:
                    out = ("normal", thunk())
                except ContinueSig:
                    out = ("normal", None)
                except BreakSig:
                    out = ("break", None)
                except ReturnSig as r:
                    out = ("return", freeze(r.v))
                except PyExc as e:
                    out = ("raise", e)
                fin = {}
                memo = {}
                for k, (g, s, old) in lvl.writes.items():
                    v = g()
                    fin[k] = (g, s, freeze_state(v, memo), old)
                conds = self.pc[len(pc0):]
                results.append((conj(conds), out, fin))
            finally:
                self.levels.pop()
                self.ctxs.pop()
                for k, (g, s, old) in reversed(list(lvl.writes.items())):
                    s(old)
            work.extend(ctx.pending)
        self.symctr, self.tag, self.pc = sym0 + 1000, tag0 + ")", pc0
        return results

    def apply_write(self, key, getter, setter, val):
        self.note(key, getter, setter)
        setter(val)


class _Missing:
    def __repr__(self):
        return "MISSING"


_MISSING = _Missing()


def freeze_state(v, memo):
    # captured value of a location: list/dict states are tuples of containers
    if callable(v):          # array store function: immutable closure
        return v
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], list) and not isinstance(v[0], dict):
        return (v[0], [freeze(x, memo) for x in v[1]])
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], dict):
        return ({k: freeze(x, memo) for k, x in v[0].items()}, list(v[1]))
    return freeze(v, memo)


def _counts_up(body):
    return (len(body) == 1 and isinstance(body[0], ast.AugAssign) and isinstance(body[0].op, (ast.Add, ast.Sub)) and
            isinstance(body[0].target, ast.Subscript) and isinstance(body[0].value, ast.Constant) and
            isinstance(body[0].value.value, (int, float)) and not isinstance(body[0].value.value, bool))


def _flag_block(body):
    for b in body:
        if isinstance(b, ast.Assign):
            if not (len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(b.value, ast.Constant)
                    and isinstance(b.value.value, (bool, int, float))):
                return False
        elif isinstance(b, ast.Expr):
            v = b.value
            if isinstance(v, ast.Constant):
                continue
            if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name)
                    and v.func.value.id in ("logger", "logging")):
                return False
        elif not isinstance(b, ast.Pass):
            return False
    return True


def _flag_names(body):
    return {b.targets[0].id for b in body if isinstance(b, ast.Assign)}


def mangle(name, cls):
    if cls and name.startswith("__") and not name.endswith("__"):
        return "_" + cls.lstrip("_") + name
    return name


class Interp:
    def __init__(self, s):
        from . import lib
        self.s = s
        s.interp = self
        self.lib = lib.Lib(self)
        self.max_depth = 40

    # ------------------------------------------------------------- modules & names
    def module_globals(self, name):
        g = self.s.modules.get(name)
        if g is None:
            m = Module.get(name)
            g = self.s.modules[name] = {}
            g["__name__"] = name
            fr = Frame(name, g)
            # loading a module is not part of the journal of a loop body: it is not undone
            levels, self.s.levels = self.s.levels, []
            try:
                for st in m.tree.body:
                    self.module_stmt(fr, st)
            finally:
                self.s.levels = levels
        return g

    def module_stmt(self, fr, st):
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            self.exec_import(fr, st)
        elif isinstance(st, ast.FunctionDef):
            fr.env[st.name] = self.make_func(st, fr, st.name)
        elif isinstance(st, ast.ClassDef):
            c = Class(st, fr.module, st.name)
            for b in st.body:
                if isinstance(b, ast.FunctionDef):
                    deco = [d.id for d in b.decorator_list if isinstance(d, ast.Name)]
                    f = self.make_func(b, fr, f"{st.name}.{b.name}", cls=st.name, static="staticmethod" in deco)
                    f.prop = "property" in deco
                    f.clsm = "classmethod" in deco
                    c.members[mangle(b.name, st.name)] = f
                elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                    c.members[b.targets[0].id] = self.eval(fr, b.value)
            fr.env[st.name] = c
        elif isinstance(st, ast.Assign):
            try:
                v = self.eval(fr, st.value)
            except Untranslatable as e:
                v = Poison(str(e))
            for t in st.targets:
                if isinstance(t, ast.Name):
                    fr.env[t.id] = v
        # other module-level statements (logging setup etc.) have no effect on the verified functions

    def make_func(self, node, fr, qual, cls=None, static=False):
        defaults = [self.lazy_default(fr, d) for d in node.args.defaults]
        kwd = [None if d is None else self.lazy_default(fr, d) for d in node.args.kw_defaults]
        env = fr if fr.func is not None else None
        f = Func(node, fr.module, env, qual, cls, static, defaults, kwd)
        f.prop = f.clsm = False
        return f

    def lazy_default(self, fr, d):
        try:
            return self.eval(fr, d)
        except Untranslatable as e:
            return Poison(str(e))

    def exec_import(self, fr, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.name == "esat_rust":
                    self.import_rust()
                v = Mod(a.name if a.asname else a.name.split(".")[0])
                self.s.set_local(fr, a.asname or a.name.split(".")[0], v)
        else:
            for a in st.names:
                mod = st.module
                if mod == "esat_rust":
                    v = self.lib.attr_of_module(mod, a.name)
                else:
                    rm = repo_module(mod)
                    if rm:
                        sub = repo_module(mod + "." + a.name)
                        if sub and a.name not in [getattr(n, "name", None) for n in Module.get(rm).tree.body]:
                            v = Mod(sub)
                        else:
                            v = LazyGlobal(rm, a.name)
                    else:
                        v = self.lib.attr_of_module(mod, a.name)
                self.s.set_local(fr, a.asname or a.name, v)

    def import_rust(self):
        r = self.s.ghost.get("rust")
        if r is None:
            present = self.s.ghost.get("rust_mode", "absent")
            if present == "absent":
                raise PyExc("ModuleNotFoundError")
            if present == "either":
                if not self.s.choose("rust_present"):
                    raise PyExc("ModuleNotFoundError")

    def lookup(self, fr, name):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if isinstance(v, LazyGlobal):
                    v = v.resolve(self)
                    f.env[name] = v
                return v
            f = f.parent
        g = self.module_globals(fr.module)
        if name in g:
            v = g[name]
            if isinstance(v, LazyGlobal):
                v = v.resolve(self)
                g[name] = v
            return v
        b = self.lib.builtin(name)
        if b is not None:
            return b
        raise PyExc("NameError", (name,))

    # ------------------------------------------------------------- statements
    def exec_block(self, fr, body):
        for st in body:
            self.exec(fr, st)

    def exec(self, fr, st):
        self.s.steps += 1
        if self.s.steps > 200000:
            raise Untranslatable("step limit")
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Untranslatable(f"statement {type(st).__name__} at line {st.lineno}")
        self.s.where = f"{fr.module}:{getattr(fr.func, 'qual', '<module>')}:{st.lineno}"
        m(fr, st)

    def x_Expr(self, fr, st):
        self.eval(fr, st.value)

    def x_Pass(self, fr, st):
        pass

    def x_Import(self, fr, st):
        self.exec_import(fr, st)

    x_ImportFrom = x_Import

    def x_Return(self, fr, st):
        raise ReturnSig(None if st.value is None else self.eval(fr, st.value))

    def x_Break(self, fr, st):
        raise BreakSig()

    def x_Continue(self, fr, st):
        raise ContinueSig()

    def x_FunctionDef(self, fr, st):
        f = self.make_func(st, fr, f"{fr.func.qual}.<locals>.{st.name}")
        f.env = fr
        self.s.set_local(fr, st.name, f)

    def x_Global(self, fr, st):
        raise Untranslatable("global statement")

    def x_Assign(self, fr, st):
        v = self.eval(fr, st.value)
        for t in st.targets:
            self.assign(fr, t, v)

    def x_AnnAssign(self, fr, st):
        if st.value is not None:
            self.assign(fr, st.target, self.eval(fr, st.value))

    def x_AugAssign(self, fr, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            rhs = self.eval(fr, st.value)
            if isinstance(cur, Arr):
                res = self.lib.binop(type(st.op).__name__, cur, rhs)
                self.lib.store_into(cur, res)
                return
            if isinstance(cur, PList) and isinstance(st.op, ast.Add):
                self.lib.list_extend(cur, rhs)
                return
            self.assign(fr, t, self.lib.binop(type(st.op).__name__, cur, rhs))
        elif isinstance(t, ast.Attribute):
            o = self.eval(fr, t.value)
            cur = self.getattr(o, mangle(t.attr, fr.cls))
            rhs = self.eval(fr, st.value)
            if isinstance(cur, Arr):
                self.lib.store_into(cur, self.lib.binop(type(st.op).__name__, cur, rhs))
                return
            self.setattr(o, mangle(t.attr, fr.cls), self.lib.binop(type(st.op).__name__, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(fr, t.value)
            ix = self.eval_index(fr, t.slice)
            cur = self.lib.getitem(o, ix)
            rhs = self.eval(fr, st.value)
            self.lib.setitem(o, ix, self.lib.binop(type(st.op).__name__, cur, rhs))
        else:
            raise Untranslatable("augmented assignment target")

    def assign(self, fr, t, v):
        if isinstance(t, ast.Name):
            self.s.set_local(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Untranslatable("starred assignment")
            vs = self.lib.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(fr, e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(fr, t.value), mangle(t.attr, fr.cls), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(fr, t.value)
            ix = self.eval_index(fr, t.slice)
            self.lib.setitem(o, ix, v)
        else:
            raise Untranslatable("assignment target")

    def x_Delete(self, fr, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.lib.delitem(self.eval(fr, t.value), self.eval_index(fr, t.slice))
            elif isinstance(t, ast.Name):
                pass
            else:
                raise Untranslatable("del target")

    def x_If(self, fr, st):
        c = self.truth_term(self.eval(fr, st.test))
        if not isinstance(c, bool) and _flag_block(st.body) and _flag_block(st.orelse):
            c = z3.simplify(to_bool(c))
            if not z3.is_true(c) and not z3.is_false(c):
                return self.merge_if(fr, st, c)
        if not isinstance(c, bool) and not st.orelse and _counts_up(st.body):
            c = z3.simplify(to_bool(c))
            if not z3.is_true(c) and not z3.is_false(c):
                return self.count_if(fr, st.body[0], c)
        if self.s.decide(c):
            self.exec_block(fr, st.body)
        else:
            self.exec_block(fr, st.orelse)

    def count_if(self, fr, st, c):
        """`if c: table[i] += 1`: adds 1 or 0 instead of forking"""
        s = self.s
        arr = self.eval(fr, st.target.value)
        if not isinstance(arr, Arr) or arr.kind == "bool" or s.cheap:
            if s.decide(c):
                self.exec_block(fr, [st])
            return
        if not s.prover.feasible(s.pc, c):
            return
        n0 = len(s.pc)
        s.pc.append(c)
        try:
            ix = self.eval_index(fr, st.target.slice)
            cur = self.lib.getitem(arr, ix)
        finally:
            del s.pc[n0:]
        v = st.value.value if isinstance(st.op, ast.Add) else -st.value.value
        self.lib.setitem(arr, ix, self.lib.binop("Add", cur, ite(c, v, 0)))

    def merge_if(self, fr, st, c):
        """both branches only set local names to constants (and log): join instead of forking"""
        s = self.s
        from .loops import merge
        if not s.cheap and not s.prover.feasible(s.pc, c):
            return self.exec_block(fr, st.orelse)
        if not s.cheap and not s.prover.feasible(s.pc, z3.Not(c)):
            return self.exec_block(fr, st.body)
        names = _flag_names(st.body) | _flag_names(st.orelse)
        if any(n not in fr.env for n in names):
            if s.decide(c):
                return self.exec_block(fr, st.body)
            return self.exec_block(fr, st.orelse)
        before = {n: fr.env[n] for n in names}

        def branch(body, cond):
            n0 = len(s.pc)
            s.pc.append(cond)
            try:
                self.exec_block(fr, [b for b in body if isinstance(b, (ast.Assign, ast.If))])
                return {n: fr.env[n] for n in names}
            finally:
                del s.pc[n0:]
        a = branch(st.body, c)
        for n in names:
            s.set_local(fr, n, before[n])
        b = branch(st.orelse, z3.simplify(z3.Not(c)))
        for n in names:
            s.set_local(fr, n, merge(c, a[n], b[n]))

    def x_Assert(self, fr, st):
        if not self.truth(self.eval(fr, st.test)):
            raise PyExc("AssertionError")

    def x_Raise(self, fr, st):
        if st.exc is None:
            raise self.s.cur_exc or PyExc("RuntimeError")
        v = self.eval(fr, st.exc)
        if isinstance(v, PyExc):
            raise v
        if isinstance(v, Builtin):
            raise PyExc(v.name)
        if isinstance(v, Opaque):
            raise PyExc(v.tag)
        raise Untranslatable("raise of unknown value")

    def x_Try(self, fr, st):
        try:
            try:
                self.exec_block(fr, st.body)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(fr, h.type, e):
                        if h.name:
                            self.s.set_local(fr, h.name, Opaque("exception", (e.ecls,)))
                        prev = self.s.cur_exc
                        self.s.cur_exc = e
                        self.exec_block(fr, h.body)
                        self.s.cur_exc = prev
                        break
                else:
                    raise
            else:
                self.exec_block(fr, st.orelse)
        finally:
            import sys
            et = sys.exc_info()[0]
            if st.finalbody and not (et is not None and issubclass(et, (Untranslatable, PathEnd))):
                self.exec_block(fr, st.finalbody)

    def exc_match(self, fr, t, e):
        names = []
        for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
            names.append(x.attr if isinstance(x, ast.Attribute) else x.id)
        anc = {"ModuleNotFoundError": {"ImportError"}, "KeyError": {"LookupError"}, "IndexError": {"LookupError"},
               "ZeroDivisionError": {"ArithmeticError"}}.get(e.ecls, set())
        return e.ecls in names or "Exception" in names or "BaseException" in names or bool(anc & set(names))

    def x_With(self, fr, st):
        exits = []
        for it in st.items:
            cm = self.eval(fr, it.context_expr)
            v = self.lib.enter(cm)
            exits.append(cm)
            if it.optional_vars is not None:
                self.assign(fr, it.optional_vars, v)
        self.exec_block(fr, st.body)
        for cm in reversed(exits):
            self.lib.exit(cm)

    def x_For(self, fr, st):
        from . import loops
        loops.for_loop(self, fr, st)

    def x_While(self, fr, st):
        from . import loops
        loops.while_loop(self, fr, st)

    # ------------------------------------------------------------- expressions
    def truth(self, v):
        return self.s.decide(self.truth_term(v))

    def truth_term(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple)):
            return bool(v)
        if T.is_z3(v):
            return to_bool(v)
        if isinstance(v, PList):
            if v.items:
                return True
            if v.prefix is None:
                return False
            return T.int_of(v.prefix.n) > 0
        if isinstance(v, SList):
            return T.int_of(v.n) > 0
        if isinstance(v, PDict):
            if v.items:
                return True
            return disj([T.int_of(n) > 0 for n, _, _ in v.fams])
        if isinstance(v, PSet):
            return bool(v.items)
        if isinstance(v, (Obj, Func, Bound, Class, Builtin, Mod)):
            return True
        if isinstance(v, Arr):
            if v.ndim == 0:
                return to_bool(v.get())
            if all(T.lit(d) == 1 for d in v.shape):
                return to_bool(v.get(*[z3.IntVal(0)] * v.ndim))
            raise Untranslatable("truth value of an array")
        if isinstance(v, Opaque):
            b = self.lib.opaque_truth(v)
            return b
        if isinstance(v, Poison):
            raise Untranslatable(v.why)
        raise Untranslatable(f"truth of {v!r}")

    def eval(self, fr, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Untranslatable(f"expression {type(e).__name__} at line {e.lineno}")
        return m(fr, e)

    def e_Constant(self, fr, e):
        return e.value

    def e_Name(self, fr, e):
        v = self.lookup(fr, e.id)
        if isinstance(v, Poison):
            raise Untranslatable(f"{e.id}: {v.why}")
        return v

    def e_Tuple(self, fr, e):
        return tuple(self.eval(fr, x) for x in e.elts)

    def e_List(self, fr, e):
        return PList([self.eval(fr, x) for x in e.elts])

    def e_Set(self, fr, e):
        return PSet([self.eval(fr, x) for x in e.elts])

    def e_Dict(self, fr, e):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Untranslatable("dict unpacking")
            d.items[self.lib.key(self.eval(fr, k))] = self.eval(fr, v)
        return d

    def e_JoinedStr(self, fr, e):
        parts = []
        ok = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                # formatting is effect-free for the values used here; evaluate for exceptions and content
                x = self.eval(fr, v.value)
                spec = ""
                if v.format_spec is not None and all(isinstance(q, ast.Constant) for q in v.format_spec.values):
                    spec = "".join(q.value for q in v.format_spec.values)
                if isinstance(x, (str, int)) and v.conversion == -1:
                    parts.append(format(x, spec))
                elif isinstance(x, float) and v.conversion == -1:
                    parts.append(format(x, spec))
                else:
                    ok = False
                    parts.append(("fmt", x, spec))
        if ok:
            return "".join(parts)
        return text(*parts)

    def e_Attribute(self, fr, e):
        o = self.eval(fr, e.value)
        return self.getattr(o, mangle(e.attr, fr.cls))

    def e_Subscript(self, fr, e):
        o = self.eval(fr, e.value)
        return self.lib.getitem(o, self.eval_index(fr, e.slice))

    def eval_index(self, fr, s):
        if isinstance(s, ast.Slice):
            return slice(None if s.lower is None else self.eval(fr, s.lower),
                         None if s.upper is None else self.eval(fr, s.upper),
                         None if s.step is None else self.eval(fr, s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(fr, x) for x in s.elts)
        return self.eval(fr, s)

    def e_UnaryOp(self, fr, e):
        v = self.eval(fr, e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        return self.lib.unop(type(e.op).__name__, v)

    def e_BinOp(self, fr, e):
        a = self.eval(fr, e.left)
        b = self.eval(fr, e.right)
        return self.lib.binop(type(e.op).__name__, a, b)

    def e_BoolOp(self, fr, e):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(fr, x)
            if i == len(e.values) - 1:
                return v
            if is_and:
                if not self.truth(v):
                    return v if not T.is_z3(v) else False
            else:
                if self.truth(v):
                    return v if not T.is_z3(v) else True
        return v

    def e_Compare(self, fr, e):
        left = self.eval(fr, e.left)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(fr, r)
            res.append(self.lib.compare(type(op).__name__, left, right))
            left = right
        if len(res) == 1:
            return res[0]
        if all(isinstance(x, bool) for x in res):
            return all(res)
        return conj([x if isinstance(x, bool) else to_bool(x) for x in res])

    def e_IfExp(self, fr, e):
        c = self.truth_term(self.eval(fr, e.test))
        if not isinstance(c, bool) and all(isinstance(x, ast.Name) or isinstance(x, ast.Constant) and
                                           isinstance(x.value, (int, float)) for x in (e.body, e.orelse)):
            # both are plain numbers: join instead of forking
            c = z3.simplify(to_bool(c))
            if not z3.is_true(c) and not z3.is_false(c):
                a, b = self.eval(fr, e.body), self.eval(fr, e.orelse)
                if all(isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e300 or
                       T.is_z3(v) and (z3.is_real(v) or z3.is_int(v)) for v in (a, b)):
                    return ite(c, a, b)
        return self.eval(fr, e.body) if self.s.decide(c) else self.eval(fr, e.orelse)

    def e_Lambda(self, fr, e):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno,
                               col_offset=0)], decorator_list=[], lineno=e.lineno, col_offset=0)
        f = Func(node, fr.module, fr, f"{getattr(fr.func, 'qual', '')}.<lambda>", None, False,
                 [self.eval(fr, d) for d in e.args.defaults], [])
        f.prop = f.clsm = False
        f.mcls = fr.cls
        return f

    def e_ListComp(self, fr, e):
        return self.comp(fr, e, "list")

    def e_GeneratorExp(self, fr, e):
        return self.comp(fr, e, "list")

    def e_SetComp(self, fr, e):
        l = self.comp(fr, e, "list")
        if l.prefix is not None:
            raise Untranslatable("symbolic set comprehension")
        return PSet(l.items)

    def e_DictComp(self, fr, e):
        return self.comp(fr, e, "dict")

    def comp(self, fr, e, kind):
        """Comprehensions are desugared to loops (same summarisation)."""
        sub = Frame(fr.module, {}, fr.func, parent=fr, cls=fr.cls)
        out = "@out"
        sub.env[out] = PList() if kind == "list" else PDict()
        ln = e.lineno
        if kind == "list":
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(out, ast.Load()), "append", ast.Load()), [e.elt], []))
        else:
            body = ast.Assign([ast.Subscript(ast.Name(out, ast.Load()), e.key, ast.Store())], e.value)
        st = body
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                st = ast.If(c, [st], [])
            st = ast.For(g.target, g.iter, [st], [])
        ast.fix_missing_locations(ast.copy_location(st, e))
        for n in ast.walk(st):
            if not hasattr(n, "lineno"):
                n.lineno = ln
                n.col_offset = 0
        self.exec(sub, st)
        return sub.env[out]

    def e_Starred(self, fr, e):
        raise Untranslatable("starred expression")

    def e_Call(self, fr, e):
        f = self.eval(fr, e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(fr, a.value)
                args.extend(self.lib.concrete_items(v))
            else:
                args.append(self.eval(fr, a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(fr, k.value)
                if not isinstance(d, PDict) or d.fams:
                    raise Untranslatable("** argument")
                kw.update(d.items)
            else:
                kw[k.arg] = self.eval(fr, k.value)
        w = self.s.where
        r = self.call(f, args, kw)
        self.s.where = w
        return r

    # ------------------------------------------------------------- calls
    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(*args, **kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Class):
            return self.construct(f, args, kw)
        if isinstance(f, Opaque):
            return self.lib.call_opaque(f, args, kw)
        if isinstance(f, Mod):
            raise Untranslatable(f"call of library {f.name}")
        if callable(f) and not T.is_z3(f):
            return f(*args, **kw)
        if f is None or is_scalar(f):
            raise PyExc("TypeError", ("not callable",))
        raise Untranslatable(f"call of {f!r}")

    def construct(self, c, args, kw):
        key = f"{c.module}:{c.qual}"
        if key in self.s.stubs:
            return self.s.stubs[key](*args, **kw)
        o = Obj(c)
        init = c.members.get("__init__")
        if init is not None:
            self.call_func(init, [o] + list(args), kw)
        return o

    def call_func(self, f, args, kw):
        key = f"{f.module}:{f.qual}"
        if key in self.s.stubs:
            self.s.assumed.add(key)
            return self.s.stubs[key](*args, **kw)
        self.s.inlined.add(key)
        self.s.depth += 1
        if self.s.depth > self.max_depth:
            self.s.depth -= 1
            raise Untranslatable("call depth")
        parent = f.env if isinstance(f.env, Frame) else None
        fr = Frame(f.module, self.bind(f, list(args), dict(kw)), f, parent=parent,
                   cls=f.cls or getattr(f, "mcls", None) or (parent.cls if parent else None))
        try:
            self.exec_block(fr, f.node.body)
            return None
        except ReturnSig as r:
            return r.v
        finally:
            self.s.depth -= 1

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names) and a.vararg is None:
            raise PyExc("TypeError", (f"{f.qual}: too many positional arguments",))
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in env:
                    raise PyExc("TypeError", (f"{f.qual}: multiple values for {k}",))
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc("TypeError", (f"{f.qual}: unexpected keyword argument {k}",))
        if a.kwarg is not None:
            env[a.kwarg.arg] = PDict(extra)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in env:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyExc("TypeError", (f"{f.qual}: missing argument {n}",))
                env[n] = f.defaults[j]
        for n, d in zip(kwonly, f.kwdefaults):
            if n not in env:
                if d is None and f.node.args.kw_defaults[kwonly.index(n)] is None:
                    raise PyExc("TypeError", (f"{f.qual}: missing argument {n}",))
                env[n] = d
        return env

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Untranslatable(f"{name}: {v.why}")
                return v
            if isinstance(o.cls, Class):
                m = o.cls.members.get(name)
                if m is not None:
                    if isinstance(m, Func):
                        if m.prop:
                            return self.call_func(m, [o], {})
                        if m.static:
                            return m
                        return Bound(m, o)
                    return m
                if name == "__class__":
                    return o.cls
                raise PyExc("AttributeError", (name,))
            return self.lib.obj_attr(o, name)
        if isinstance(o, Class):
            m = o.members.get(name)
            if m is None:
                raise PyExc("AttributeError", (name,))
            return m
        if isinstance(o, Mod):
            rm = repo_module(o.name)
            if rm:
                g = self.module_globals(rm)
                if name in g:
                    v = g[name]
                    return v.resolve(self) if isinstance(v, LazyGlobal) else v
            return self.lib.attr_of_module(o.name, name)
        return self.lib.attr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            self.s.set_attr(o, name, v)
            return
        if isinstance(o, Opaque):
            return
        raise Untranslatable(f"attribute assignment on {o!r}")


class LazyGlobal:
    def __init__(self, module, name):
        self.module, self.name = module, name

    def resolve(self, interp):
        g = interp.module_globals(self.module)
        if self.name not in g:
            raise PyExc("ImportError", (self.name,))
        v = g[self.name]
        return v.resolve(interp) if isinstance(v, LazyGlobal) else v

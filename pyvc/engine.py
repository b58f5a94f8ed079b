"""Symbolic executor and obligation generator over the Python AST of the functions in /repo.

Paths are explored by re-execution: a path is a list of decisions; `Path.branch` follows the list and, past its end,
asks the solver which sides are feasible and queues the other one. Loops are cut at invariants, calls at contracts.
"""
import ast
import builtins
import hashlib
import inspect
import textwrap
import time
from fractions import Fraction

import z3
import numpy as np

from .values import *
from . import values as V

FEAS_TIMEOUT = 150  # ms


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class RaiseExc(Exception):
    def __init__(self, name, implicit=False):
        self.name, self.implicit = name, implicit


class ReturnExc(Exception):
    def __init__(self, value):
        self.value = value


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class SpecFork(Exception):
    pass


class TooManyPaths(Exception):
    pass


class Obligation:
    def __init__(self, label, props, hyps, goal, recs, kind="post"):
        self.label, self.props, self.hyps, self.goal, self.recs, self.kind = label, props, hyps, goal, recs, kind
        self.defs = []         # definitions of named products (only needed for nonlinear reasoning)


# --------------------------------------------------------------------------------------------------- sources
_ast_cache = {}
_file_cache = {}


def func_ast(fn):
    """AST of the *current* source of fn, taken from the file it was imported from."""
    fn = getattr(fn, "py_func", fn)
    code = fn.__code__
    key = (code.co_filename, code.co_firstlineno, code.co_name)
    if key in _ast_cache:
        return _ast_cache[key]
    if code.co_filename not in _file_cache:
        with open(code.co_filename) as f:
            _file_cache[code.co_filename] = ast.parse(f.read())
    best = None
    for node in ast.walk(_file_cache[code.co_filename]):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            first = node.lineno
            if isinstance(node, ast.FunctionDef) and node.decorator_list:
                first = min(d.lineno for d in node.decorator_list)
            if (isinstance(node, ast.FunctionDef) and node.name == code.co_name and
                    first <= code.co_firstlineno <= node.lineno):
                best = node
    if best is None:
        raise Unsupported("no source for %s" % code.co_name)
    loops = [n for n in _preorder(best) if isinstance(n, (ast.For, ast.While))]
    for k, n in enumerate(loops):
        n._ord = k
    best._loops = loops
    best._hash = hashlib.sha256(ast.dump(best).encode()).hexdigest()
    _ast_cache[key] = best
    return best


def _preorder(node):
    yield node
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.Lambda)) and c is not node:
            continue
        yield from _preorder(c)


def assigned_names(stmts):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
    for s in stmts:
        for n in _preorder(s):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt(n.target)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.NamedExpr):
                tgt(n.target)
    return out


# --------------------------------------------------------------------------------------------------- path
class Path:
    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.trace = []
        self.pc = []           # hypotheses, in order
        self.solver = z3.Solver()
        self.solver.set("timeout", FEAS_TIMEOUT)
        self.names = {}
        self.serial = 0
        self.loops = []        # active loop frames: (loop_key, entry_serial)
        self.speculative = 0
        self.recs = []         # recursive spec functions known on this path
        self.bound = 0
        self.inline_depth = 0
        self.naming = True
        self.products, self.triples, self.lin, self.defs = {}, [], [], []
        self.expand = {}
        self.results = {}      # results of the contracted callees, by function name
        self.calls = []        # calls of opaque callees: (name, arguments, result)
        self.floors = []       # integers obtained by rounding down

    # -- names
    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else "%s~%d" % (base, n)

    def arb(self, name):
        if not hasattr(self, "arbs"):
            self.arbs = {}
        if name not in self.arbs:
            self.arbs[name] = z3.Int("arb!" + name)
        return self.arbs[name]

    def dict_key(self, h):
        """The arbitrary key dictionaries are followed for."""
        return HashV([z3.Bool("dict.key.%db" % j) if is_boolv(x) else z3.Int("dict.key.%d" % j) for j, x in enumerate(h.comps)])

    def fork_ok(self, term):
        return self.bound == 0

    # -- products and quotients are named: the same factors give the same name, with linear facts about it
    def _strip(self, t):
        """(numeral coefficient, rest)"""
        c = Fraction(1)
        while True:
            if z3.is_app_of(t, z3.Z3_OP_UMINUS):
                c, t = -c, t.arg(0)
            elif z3.is_app_of(t, z3.Z3_OP_MUL) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
                c, t = c * t.arg(0).as_fraction(), t.arg(1)
            else:
                return c, t

    def _scaled(self, c, t):
        if c == 1:
            return t
        if c == -1:
            return -t
        return z3.RealVal(str(c)) * t

    def mul(self, a, b):
        ca, a = self._strip(a)
        cb, b = self._strip(b)
        if z3.is_rational_value(a) or z3.is_rational_value(b):
            if z3.is_rational_value(a):
                a, b = b, a
            return self._scaled(ca * cb * b.as_fraction(), a)
        if a.get_id() > b.get_id():
            a, b = b, a
        key = (a.get_id(), b.get_id())
        if key in self.products:
            m = self.products[key][0]
        else:
            m = z3.Real("prod!%d" % len(self.triples))
            self._register(a, b, m, key, None)
            self.defs.append(m == a * b)
            self._distribute(a, b, m, None)
        return self._scaled(ca * cb, m)

    def _distribute(self, a, b, m, guard):
        """m is a*b: expand over the sum that one of the factors is."""
        for x, y in ((a, b), (b, a)):
            if y.get_id() in self.expand:
                y = self.expand[y.get_id()][1]
            sub = z3.is_app_of(y, z3.Z3_OP_SUB)
            if z3.is_app_of(y, z3.Z3_OP_ADD) and y.num_args() <= 3 or sub and y.num_args() == 2:
                if any(self._deep(z) for z in y.children()):
                    continue
                parts = []
                for z in y.children():
                    cz, z0 = self._strip(z)
                    parts.append(self._scaled(cz, self.mul(x, z0)))
                e = parts[0] - parts[1] if sub else parts[0] + parts[1] if len(parts) == 2 else z3.Sum(parts)
                f = m == e
                if guard is None and m.get_id() not in self.expand and len(self.expand) < 40:
                    self.expand[m.get_id()] = (m, e)
                self._fact(f if guard is None else z3.Implies(guard, f))
                return

    def _deep(self, t):
        return z3.is_app_of(t, z3.Z3_OP_ITE)

    def div(self, a, b, nonzero):
        cb, b = self._strip(b)
        ca, a = self._strip(a)
        if z3.is_rational_value(b):
            return self._scaled(ca, a) / self._scaled(cb, b)
        key = ("/", a.get_id(), b.get_id())
        if key in self.products:
            q = self.products[key][0]
        else:
            q = z3.Real("quot!%d" % len(self.triples))
            self.products[key] = (q, a, b)
            g = None if nonzero else (b != 0)
            k2 = (min(q.get_id(), b.get_id()), max(q.get_id(), b.get_id()))
            self._register(q, b, a, k2 if nonzero else None, g)
            self.defs.append(q * b == a if nonzero else z3.Implies(g, q * b == a))
            if not self._deep(b):
                self._distribute(q, b, a, g)
        return self._scaled(ca / cb, q)

    def _fact(self, f):
        self.lin.append(f)
        self.solver.add(f)

    def _register(self, a, b, m, key, guard):
        """m is a*b (if guard): sign and monotonicity facts."""
        if key is not None:
            self.products[key] = (m, a, b)

        def fact(f):
            self._fact(f if guard is None else z3.Implies(guard, f))
        fact(z3.And(z3.Implies(z3.And(a > 0, b > 0), m > 0), z3.Implies(z3.And(a < 0, b < 0), m > 0),
                    z3.Implies(z3.And(a > 0, b < 0), m < 0), z3.Implies(z3.And(a < 0, b > 0), m < 0),
                    z3.Implies(z3.Or(a == 0, b == 0), m == 0)))
        n = 0
        for a2, b2, m2, g2 in self.triples:
            for (x, c), (y, d) in (((a, b), (a2, b2)), ((a, b), (b2, a2)), ((b, a), (a2, b2)), ((b, a), (b2, a2))):
                if c.get_id() == d.get_id() and x.get_id() != y.get_id() and n < 12:
                    n += 1
                    f = z3.And(z3.Implies(z3.And(c > 0, x < y), m < m2), z3.Implies(z3.And(c > 0, x > y), m > m2),
                               z3.Implies(z3.And(c < 0, x < y), m > m2), z3.Implies(z3.And(c < 0, x > y), m < m2),
                               z3.Implies(x == y, m == m2))
                    gs = [g for g in (guard, g2) if g is not None]
                    self._fact(z3.Implies(z3.And(*gs), f) if gs else f)
        self.triples.append((a, b, m, guard))

    # -- assumptions
    def assume(self, f):
        if f is True or (not is_z3(f) and f):
            return
        if not is_z3(f):
            raise PathEnd()
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        if z3.is_true(f):
            return
        self.pc.append(f)
        if not _has_quant(f):
            self.solver.add(f)

    def feasible(self, extra=None):
        t0 = time.time()
        if extra is not None:
            r = self.solver.check(extra)
        else:
            r = self.solver.check()
        self.eng.feas_time += time.time() - t0
        self.eng.feas_calls += 1
        return r != z3.unsat

    def refuted(self, cond):
        """Is cond impossible here, the quantified assumptions included?"""
        from .vc import unfold, flatten
        fs = flatten(self.pc) + list(self.lin) + [zb(cond)]
        fs += unfold(fs, self.eng.recdefs, 1)
        s = z3.Solver()
        s.set("timeout", 500)
        s.set("smt.mbqi", False)
        s.set("auto_config", False)
        for f in fs:
            s.add(f)
        try:
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False

    def branch(self, cond):
        """Decide a Boolean; forks when both sides are possible."""
        if not is_z3(cond):
            return bool(cond)
        if self.bound:
            raise Unsupported("case split under a quantifier")
        c = simp(cond)
        if not is_z3(c):
            return c
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            if self.speculative and d[1] == "fork":
                raise SpecFork()
            self.trace.append(d)
            if not (self.speculative and d[1] == "forced"):
                self.assume(cond if d[0] else b_not(cond))
            return d[0]
        neg = b_not(cond)
        t = self.feasible(cond)
        if not t:
            f = True
        else:
            f = self.feasible(neg)
        if t and f and self.eng.c.deep and not self.speculative and (self.eng.recdefs or any(_has_quant(x) for x in self.pc)):
            if self.refuted(neg):
                f = False
            elif self.refuted(cond):
                t = False
        if t and f:
            if self.speculative:
                raise SpecFork()
            self.eng.queue(self.trace + [(False, "fork")])
            self.trace.append((True, "fork"))
            self.assume(cond)
            return True
        if t:
            self.trace.append((True, "forced"))
            if not self.speculative:
                self.assume(cond)
            return True
        self.trace.append((False, "forced"))
        if not self.speculative:
            self.assume(neg)
        return False

    def choose(self, n, tag=""):
        """Unconditional n-way split."""
        if n == 1:
            return 0
        if self.speculative:
            raise SpecFork()
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.trace.append(d)
            return d[0]
        for j in range(1, n):
            self.eng.queue(self.trace + [(j, "choose")])
        self.trace.append((0, "choose"))
        return 0

    def oblige(self, label, goal, props=None, kind="post"):
        if goal is True:
            self.eng.trivial(self, label, props, kind)
            return
        goal = zb(goal) if not is_z3(goal) else goal
        self.eng.add_obligation(self, label, goal, props, kind)


_hq_cache = {}


def _has_quant(f):
    i = f.get_id()
    if i in _hq_cache:
        return _hq_cache[i][1]
    r = z3.is_quantifier(f) or any(_has_quant(x) for x in f.children())
    if len(_hq_cache) > 300000:
        _hq_cache.clear()
    _hq_cache[i] = (f, r)   # keeps the term alive, so that the id stays its own
    return r


# --------------------------------------------------------------------------------------------------- frames
class Frame:
    def __init__(self, fn, node, env, contract=None, parent=None, rename=None):
        self.fn, self.node, self.env, self.contract = fn, node, env, contract
        self.globals = getattr(fn, "__globals__", {})
        self.old = None
        self.its = []
        self.rename = rename or {}


class Closure:
    """A nested function: runs with the names of the enclosing frame visible."""

    def __init__(self, ex, fr, node):
        self.fr, self.node = fr, node

    def vc_call(self, ex, args, kw):
        a = self.node.args
        if a.defaults or a.vararg or a.kwonlyargs or a.kwarg:
            raise Unsupported("inner function with defaults")
        names = [x.arg for x in a.args]
        env = dict(self.fr.env)
        env.update(zip(names, args))
        env.update(kw)
        if not hasattr(self.node, "_loops"):
            self.node._loops = [n for n in _preorder(self.node) if isinstance(n, (ast.For, ast.While))]
            for k, n in enumerate(self.node._loops):
                n._ord = k
        fr2 = Frame(self.fr.fn, self.node, env, contract=self.fr.contract, rename=self.fr.rename)
        fr2.old = self.fr.old
        ex.p.inline_depth += 1
        try:
            ex.block(fr2, self.node.body)
        except ReturnExc as r:
            return r.value
        finally:
            ex.p.inline_depth -= 1
        return None


class MaskSel:
    """a[mask]: usable as the value assigned to the same mask, and by reductions (which skip the other elements)."""
    ndim = 1

    def __init__(self, a, mask, eng=None, p=None):
        self.a, self.mask, self.eng, self.p = a, mask, eng, p
        self.dtype = a.dtype

    @property
    def shape(self):
        m = self.mask
        return (self.eng.make_rec(self.p, 0, lambda s, k: iadd(s, zi(m.at(k))), 0)(m.shape[0]),)

    def snapshot(self):
        return self


class View:
    """What invariants see: the current locals, by name."""

    def __init__(self, frame, it=None, extra=None):
        object.__setattr__(self, "_f", frame)
        object.__setattr__(self, "it", it)
        object.__setattr__(self, "old", frame.old)
        object.__setattr__(self, "_x", extra or {})

    def __getattr__(self, k):
        f = object.__getattribute__(self, "_f")
        x = object.__getattribute__(self, "_x")
        if k in x:
            return x[k]
        k2 = f.rename.get(k, k)
        if k2 in f.env and not isinstance(f.env[k2], Maybe):
            return f.env[k2]
        raise Unsupported("invariant mentions unknown local %r" % k)

    def has(self, k):
        f = object.__getattribute__(self, "_f")
        return f.rename.get(k, k) in f.env


class NS:
    def __init__(self, d):
        self.__dict__.update(d)


class Maybe:
    """A local bound only if cond holds."""

    def __init__(self, cond, v):
        self.cond, self.v = cond, v


# --------------------------------------------------------------------------------------------------- executor
def tail_form(node):
    """The body of a loop-free function as assignments to a result variable, so that its cases can be joined; None otherwise."""
    if hasattr(node, "_tail"):
        return node._tail
    returns = [n for n in ast.walk(node) if isinstance(n, ast.Return)]
    bad = any(isinstance(n, (ast.For, ast.While, ast.Try, ast.With, ast.FunctionDef, ast.Lambda)) for s in node.body for n in ast.walk(s))
    count = [0]

    def result(v, at):
        count[0] += 1
        return ast.copy_location(ast.Assign([ast.copy_location(ast.Name("result!", ast.Store()), at)], v, lineno=at.lineno), at)

    def norm(stmts):
        out = []
        for k, x in enumerate(stmts):
            if count[0] > 40:
                raise ValueError
            if isinstance(x, ast.Return):
                v = x.value if x.value is not None else ast.copy_location(ast.Constant(None), x)
                return out + [result(v, x)]
            if isinstance(x, ast.If) and any(isinstance(n, ast.Return) for n in ast.walk(x)):
                rest = stmts[k + 1:]
                return out + [ast.copy_location(ast.If(x.test, norm(x.body + rest), norm(x.orelse + rest)), x)]
            out.append(x)
        return out + [result(ast.copy_location(ast.Constant(None), node.body[-1]), node.body[-1])]
    node._tail = None
    if len(returns) > 1 and not bad:
        try:
            node._tail = norm(node.body)
        except ValueError:
            pass
    return node._tail


class NoResult:
    """What a contract that declares no result gets to see of it: any use is an error of the machinery."""

    def _(self, *a):
        raise Unsupported("the contract speaks of a result it does not declare")
    __getitem__ = __getattr__ = __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = _
    __len__ = __iter__ = __bool__ = __float__ = __neg__ = _
    __hash__ = None


class Exec:
    def __init__(self, eng, path):
        self.eng, self.p = eng, path

    # ---------------------------------------------------------------- calls into a function body
    def run_body(self, frame):
        try:
            c = frame.contract
            if c is not None and getattr(c, "cuts", None) and frame.fn is self.eng.fn:
                self.body_with_cuts(frame, frame.node.body, c)
            else:
                self.block(frame, frame.node.body)
        except ReturnExc as r:
            return r.value
        return None

    def body_with_cuts(self, fr, stmts, c):
        spans = {}
        for cut in c.cuts:
            var = fr.rename.get(cut.var, cut.var)
            hit = [i for i, s in enumerate(stmts) if var in assigned_names([s])]
            if hit:
                hit = hit[:cut.count] if cut.count else hit
                spans[hit[0]] = (hit[-1], cut, var)
        i = 0
        while i < len(stmts):
            if i in spans:
                last, cut, var = spans[i]
                self.run_cut(fr, stmts[i:last + 1], cut, var)
                i = last + 1
            else:
                self.stmt(fr, stmts[i])
                i += 1

    def run_cut(self, fr, stmts, cut, var):
        p, eng = self.p, self.eng
        others = {k: f(View(fr)) for k, f in cut.assigns.items()}
        names = assigned_names(stmts)
        if p.choose(2, "cut") == 0:
            self.block(fr, stmts)
            S = eng.spec("prove", p, "after " + cut.var, "cut")
            for k, v in others.items():
                S.ensure("value of " + k, S.eq(fr.env[k], v))
            cut.fn(S, View(fr))
            raise PathEnd()
        for n in names:
            if n in fr.env and n != var and n not in others:
                if n in (x.arg for x in fr.node.args.args):
                    raise Unsupported("block assigns parameter %s" % n)
                del fr.env[n]
        fr.env.update(others)
        fr.env[var] = cut.spec.make(self, "cut." + cut.var)
        cut.fn(eng.spec("assume", p), View(fr))
        if not p.feasible():
            raise PathEnd()

    def block(self, fr, stmts):
        for s in stmts:
            self.stmt(fr, s)

    def stmt(self, fr, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(fr, s)

    def s_FunctionDef(self, fr, s):
        if s.decorator_list:
            raise Unsupported("decorated inner function")
        fr.env[s.name] = Closure(self, fr, s)

    def s_Pass(self, fr, s):
        pass

    def s_Expr(self, fr, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(fr, s.value)

    def s_Return(self, fr, s):
        raise ReturnExc(self.ev(fr, s.value) if s.value is not None else None)

    def s_Raise(self, fr, s):
        e = s.exc
        name = "Exception"
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        raise RaiseExc(name)

    def s_Assert(self, fr, s):
        if not self.truth(self.ev(fr, s.test)):
            raise RaiseExc("AssertionError")

    def s_Break(self, fr, s):
        raise BreakExc()

    def s_Continue(self, fr, s):
        raise ContinueExc()

    def s_If(self, fr, s):
        c = self.truth_z(self.ev(fr, s.test))
        if is_z3(c):
            c = simp(c)
        if not is_z3(c):
            self.block(fr, s.body if c else s.orelse)
            return
        if self.eng.merge and self._mergeable(s):
            if self._merge_if(fr, s, c):
                return
        if self.p.branch(c):
            self.block(fr, s.body)
        else:
            self.block(fr, s.orelse)

    def _mergeable(self, s):
        if not hasattr(s, "_mergeable"):
            ok = True
            for n in _preorder(s):
                if isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.For, ast.While, ast.Assert)):
                    ok = False
            s._mergeable = ok
        return s._mergeable

    def named(self, name, v):
        """A name for a case distinction, so that later terms stay small."""
        p = self.p
        if isinstance(v, F) and is_z3(v.r) and z3.is_app_of(v.r, z3.Z3_OP_ITE) and not p.bound:
            x = z3.Real("join!%d!%s" % (len(p.lin), name))
            p._fact(x == v.r)
            return F(x, v.nan, v.inf)
        return v

    def _merge_if(self, fr, s, c):
        """Execute both arms without forking and join; False when that is not possible."""
        p = self.p
        saved_env = dict(fr.env)
        stores = self.eng.path_stores
        saved = [(st, st.get) for st in stores]
        saved_trace, saved_prefix = list(p.trace), p.prefix
        if len(p.trace) < len(p.prefix):
            # on replay, whether this conditional merged is recorded
            d = p.prefix[len(p.trace)]
            if d == (0, "nomerge"):
                p.trace.append(d)
                return False
        n_names = dict(p.names)
        nobl = self.eng.mark()
        outs, facts = [], []
        failed = False
        for cond, body in ((c, s.body), (b_not(c), s.orelse)):
            fr.env.clear()
            fr.env.update(saved_env)
            for st, g in saved:
                st.get = g
            npc = len(p.pc)
            p.solver.push()
            p.speculative += 1
            try:
                p.assume(cond)
                n1 = len(p.pc)
                self.block(fr, body)
                facts.extend(b_implies(cond, x) for x in p.pc[n1:])
                outs.append((dict(fr.env), [(st, st.get) for st in stores[:len(saved)]]))
            except (SpecFork, RaiseExc, PathEnd, Unsupported):
                failed = True
            finally:
                p.speculative -= 1
                p.solver.pop()
                del p.pc[npc:]
            if failed:
                break
        if not failed:
            try:
                e1, e2 = outs[0][0], outs[1][0]
                env = {}
                for k in set(e1) | set(e2):
                    if k in e1 and k in e2:
                        a, b = e1[k], e2[k]
                        if a is b:
                            env[k] = a
                        elif isinstance(a, Maybe) or isinstance(b, Maybe):
                            ca, va = (a.cond, a.v) if isinstance(a, Maybe) else (True, a)
                            cb, vb = (b.cond, b.v) if isinstance(b, Maybe) else (True, b)
                            env[k] = Maybe(ite(c, ca, cb), ite(c, va, vb))
                        else:
                            if is_num(a) and is_num(b) and not isinstance(a, F) and not isinstance(b, F) \
                                    and is_boolv(a) != is_boolv(b):
                                raise Unsupported("merge kinds")
                            env[k] = self.named(k, ite(c, a, b))
                    # a name bound in one arm only: whoever reads it has to show that that arm was taken
                    elif k in e1:
                        env[k] = Maybe(c, e1[k])
                    else:
                        env[k] = Maybe(b_not(c), e2[k])
                newgets = []
                for (st, g1), (_, g2) in zip(outs[0][1], outs[1][1]):
                    if g1 is g2:
                        newgets.append((st, g1))
                    else:
                        newgets.append((st, (lambda idx, g1=g1, g2=g2: ite(c, g1(idx), g2(idx)))))
            except Unsupported:
                failed = True
        if failed:
            fr.env.clear()
            fr.env.update(saved_env)
            for st, g in saved:
                st.get = g
            del stores[len(saved):]
            p.names = n_names
            self.eng.rollback(nobl)
            p.trace = saved_trace + [(0, "nomerge")]
            return False
        fr.env.clear()
        fr.env.update(env)
        for st, g in newgets:
            st.get = g
        for x in facts:
            p.assume(x)
        return True

    # ---------------------------------------------------------------- assignment
    def s_Assign(self, fr, s):
        v = self.ev(fr, s.value)
        for t in s.targets:
            self.assign(fr, t, v)

    def s_AnnAssign(self, fr, s):
        if s.value is not None:
            self.assign(fr, s.target, self.ev(fr, s.value))

    def s_AugAssign(self, fr, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur_v = self.ev(fr, ast.copy_location(ast.Name(t.id, ast.Load()), t))
            v = self.binop(s.op, cur_v, self.ev(fr, s.value))
            if isinstance(cur_v, Arr):
                cur_v.write_all(lambda vi, v=v.snapshot() if isinstance(v, Arr) else v: v.at(*vi) if isinstance(v, Arr) else v)
                self.note_write(cur_v.store)
                return
            self.assign(fr, t, v)
            return
        base = self.ev(fr, t.value)
        idx = self.index(fr, t.slice)
        old = self.getitem(base, idx)
        if isinstance(old, Arr):
            old = old.snapshot()
        v = self.binop(s.op, old, self.ev(fr, s.value))
        self.setitem(base, idx, v)

    def s_Delete(self, fr, s):
        raise Unsupported("del")

    def assign(self, fr, t, v):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(v.f.values()) if isinstance(v, NT) else v
            if isinstance(items, Arr):
                raise Unsupported("unpacking an array")
            if len(items) != len(t.elts):
                raise Unsupported("unpack arity")
            for e, x in zip(t.elts, items):
                self.assign(fr, e, x)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(fr, t.value), self.index(fr, t.slice), v)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    # ---------------------------------------------------------------- loops
    def s_For(self, fr, s):
        if s.orelse:
            raise Unsupported("for-else")
        it = s.iter
        p = self.p
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "prange"):
            args = [self.ev(fr, a) for a in it.args]
            args = [self.as_int(a) for a in args]
            start, stop, step = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], 1) if len(args) == 2 else args
            elem = lambda i: i
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate":
            arr = self.ev(fr, it.args[0])
            start, stop, step = 0, self.length(arr), 1
            elem = lambda i: (i, self.elem_of(arr, i))
        else:
            arr = self.ev(fr, it)
            if isinstance(arr, (tuple, list)):
                for x in arr:  # statically known sequence: unrolled completely
                    self.assign(fr, s.target, x)
                    try:
                        self.block(fr, s.body)
                    except ContinueExc:
                        continue
                    except BreakExc:
                        break
                return
            if not isinstance(arr, (Arr, RecArr)):
                raise Unsupported("loop over %r" % type(arr))
            start, stop, step = 0, self.length(arr), 1
            elem = lambda i: self.elem_of(arr, i)
        if is_z3(step):
            step = simp(step)
        if is_z3(step) or step not in (1, -1):
            raise Unsupported("range step")
        if not is_z3(start) and not is_z3(stop):
            n = max(0, (stop - start) if step == 1 else (start - stop))
            if n <= self.eng.unroll_const and self.eng.inv_for(fr, s) is None:
                for i in range(start, stop, step):
                    self.assign(fr, s.target, elem(i))
                    try:
                        self.block(fr, s.body)
                    except ContinueExc:
                        continue
                    except BreakExc:
                        break
                return
        nonempty = ilt(start, stop) if step == 1 else ilt(stop, start)
        inv = self.eng.inv_for(fr, s)
        if inv is not None and inv.peel:
            if step != 1:
                raise Unsupported("peeling of a loop with step %r" % step)
            if not p.branch(nonempty):
                return
            self.assign(fr, s.target, elem(start))
            fr.its.append(start)
            try:
                self.block(fr, s.body)
            except ContinueExc:
                pass
            except BreakExc:
                fr.its.pop()
                return
            except ReturnExc:
                fr.its.pop()
                raise
            fr.its.pop()
            start = iadd(start, 1)
            nonempty = ilt(start, stop)
        end = ite(zb(nonempty), stop, start) if is_z3(nonempty) else (stop if nonempty else start)
        self.loop(fr, s, start, stop, step, end, elem, None)

    def defined(self, S, inv, view, fr):
        for n, fn in inv.define.items():
            real = fr.rename.get(n, n) if getattr(fr, "rename", None) else n
            if real not in fr.env:
                continue
            want = fn(S, view)
            if S.mode == "prove":
                S.ensure("value of " + n, S.eq(fr.env[real], want))
            else:
                fr.env[real] = want

    def s_While(self, fr, s):
        if s.orelse:
            raise Unsupported("while-else")
        self.loop(fr, s, None, None, None, None, None, s.test)

    def elem_of(self, arr, i):
        return self.getitem(arr, (i,))

    def loop(self, fr, s, start, stop, step, end, elem, test):
        p, eng = self.p, self.eng
        inv = eng.inv_for(fr, s)
        if inv is None:
            raise Unsupported("loop without invariant in %s (loop %d)" % (fr.node.name, s._ord))
        key = (fr.node.name, s._ord, p.inline_depth)
        lname = "%s/loop%d" % (fr.node.name, s._ord)
        p.serial += 1
        birth = p.serial
        # (1) invariant on entry
        S = eng.spec("prove", p, lname + "/init", kind="inv-init")
        fr.its.append(start)
        if inv.reset is not None:
            for k, v in inv.reset(S, View(fr, start)).items():
                self.set_ghost(k, v)
        entry_snap = {k: (v.snapshot() if isinstance(v, (Arr, RecArr, RecRef)) else v) for k, v in fr.env.items()}
        ghosts = {}
        if inv.ghost is not None:
            ghosts = dict(inv.ghost(S, View(fr, start, {"entry": NS(entry_snap)})))
        self.defined(S, inv, View(fr, start, dict(ghosts, entry=NS(entry_snap))), fr)
        inv.fn(S, View(fr, start, dict(ghosts, entry=NS(entry_snap))))
        # (2) choose: arbitrary iteration, or what follows the loop
        which = p.choose(2, "loop")
        mods = eng.loop_mods.setdefault(key, set())
        names = [n for n in assigned_names(s.body if isinstance(s, ast.While) else [s])]
        kinds = eng.var_kinds.setdefault(key, {})
        held = {}
        for n in names:
            if isinstance(fr.env.get(n), Maybe):
                del fr.env[n]
            if n in fr.env and inv.peel and isinstance(fr.env[n], Arr) and inv.havoc.get(n) is None:
                if n in eng.loop_temps.get(key, ()):
                    del fr.env[n]              # bound anew by every iteration: not known at the head
                else:
                    held[n] = fr.env[n]        # bound by the first iteration only: checked at the end of the body
            elif n in fr.env:
                fr.env[n] = self.havoc_value(fr.env[n], "%s.%s" % (lname, n), kinds.get(n), inv.havoc.get(n))
            elif n in inv.havoc:
                fr.env[n] = self.havoc_value(None, "%s.%s" % (lname, n), None, inv.havoc[n])
        for n in sorted(eng.ghost_mods.get(key, ())):
            self.top.env[n] = self.havoc_value(self.top.env[n], "%s.%s" % (lname, n), None, None)
        for n, d in list(fr.env.items()):
            if isinstance(d, DictV) and d.content is None and n in inv.havoc:
                fr.env[n] = inv.havoc[n].make(self, "%s.%s" % (lname, n))
                fr.env[n].depth = len(p.loops) + 1
        for st in list(eng.path_stores):
            if st.key in mods and st.birth < birth:
                nm = p.fresh_name("%s@%s" % (st.key, lname))
                st.get = fresh_get(nm, st.dtype, st.ndim, st.nan_ok, st.inf_ok)
        for g in list(ghosts):
            ghosts[g] = self.havoc_value(ghosts[g], "%s.ghost.%s" % (lname, g), None, None)
        if step is not None:
            i = z3.Int(p.fresh_name(lname + ".it"))
            if step == 1:
                p.assume(i >= zi(start))
                p.assume(i <= zi(end))
            else:
                p.assume(i <= zi(start))
                p.assume(i >= zi(end))
        else:
            i = None
        fr.its[-1] = i
        if which == 0 and inv.arb is not None and step == 1:
            # the invariant speaks about one arbitrary, fixed index: is this iteration the one that handles it?
            K = p.arb(inv.arb)
            if p.choose(2, "arb") == 0:
                p.assume(i == K)
                i = fr.its[-1] = K
            else:
                p.assume(i != K)
        if which == 0:
            SA = eng.spec("assume", p, lname)
            if step is not None:
                p.assume(zb(ilt(i, stop) if step == 1 else ilt(stop, i)))
            self.defined(SA, inv, View(fr, i, dict(ghosts, entry=NS(entry_snap))), fr)
            inv.fn(SA, View(fr, i, dict(ghosts, entry=NS(entry_snap))))
            if not p.feasible():
                raise PathEnd()
            if test is not None:
                if not self.truth(self.ev(fr, test)):
                    raise PathEnd()
            else:
                self.assign(fr, s.target, elem(i))
            eng.reached.add(lname)
            kind_at_head = {n: self.kind_of(fr.env[n]) for n in names if n in fr.env}
            p.loops.append((key, birth))
            try:
                self.block(fr, s.body)
            except ContinueExc:
                pass
            except ReturnExc:
                p.loops.pop()
                fr.its.pop()
                raise
            except BreakExc:
                p.loops.pop()
                eng.reached.add(lname + "/break")
                fr.its.pop()
                if inv.on_break is not None:
                    SB = eng.spec("prove", p, lname + "/break", kind="assert")
                    inv.on_break(SB, View(fr, i, dict(ghosts, entry=NS(entry_snap))))
                return
            p.loops.pop()
            # kinds must be stable around the loop
            target_names = assigned_names([ast.Assign(targets=[s.target], value=None)]) if isinstance(s, ast.For) else []
            for n in names:
                if n in fr.env and n in kind_at_head and n not in target_names:
                    k0, k1 = kind_at_head[n], self.kind_of(fr.env[n])
                    if k0 != k1:
                        if {k0, k1} <= {"i", "f", "b"}:
                            new = "f" if "f" in (k0, k1) else "i"
                            if kinds.get(n) != new:
                                kinds[n] = new
                                raise Restart()
                        else:
                            raise Unsupported("kind of %s changes in loop (%s to %s)" % (n, k0, k1))
                    v = fr.env[n]
                    if isinstance(v, F) and (is_z3(v.inf) or v.inf):
                        hv = inv.havoc.get(n)
                        if hv is None or not getattr(hv, "inf", False):
                            p.oblige(lname + "/finite:" + n, b_not(v.inf), None, "inv-step")
            for n in held:
                if fr.env.get(n) is not held[n]:
                    eng.loop_temps.setdefault(key, set()).add(n)
                    raise Restart()
            SP = eng.spec("prove", p, lname + "/step", kind="inv-step")
            nxt = iadd(i, step) if step is not None else None
            if inv.ghost_step is not None:
                upd = inv.ghost_step(SP, View(fr, i, dict(ghosts, entry=NS(entry_snap))))
                ghosts = dict(ghosts, **upd)
            fr.its[-1] = nxt
            self.defined(SP, inv, View(fr, nxt, dict(ghosts, entry=NS(entry_snap))), fr)
            inv.fn(SP, View(fr, nxt, dict(ghosts, entry=NS(entry_snap))))
            raise PathEnd()
        # after the loop
        SA = eng.spec("assume", p, lname)
        if step is not None:
            p.assume(i == zi(end))
        self.defined(SA, inv, View(fr, i, dict(ghosts, entry=NS(entry_snap))), fr)
        inv.fn(SA, View(fr, i, dict(ghosts, entry=NS(entry_snap))))
        if test is not None:
            t = self.truth(self.ev(fr, test))
            if t:
                raise PathEnd()
        elif isinstance(s.target, ast.Name):
            # the loop variable keeps its last value when the loop ran
            ran = ilt(start, stop) if step == 1 else ilt(stop, start)
            if s.target.id in eng.names_used_after(fr.node, s):
                if p.branch(ran):
                    self.assign(fr, s.target, elem(isub(end, step)))
                elif s.target.id in entry_snap:
                    fr.env[s.target.id] = entry_snap[s.target.id]
                else:
                    fr.env.pop(s.target.id, None)
            else:
                fr.env.pop(s.target.id, None)
        fr.its.pop()
        if not p.feasible():
            raise PathEnd()

    def kind_of(self, v):
        if isinstance(v, F):
            return "f"
        if is_boolv(v):
            return "b"
        if is_int(v):
            return "i"
        if isinstance(v, NT):
            return ("nt", v.cls) + tuple(self.kind_of(x) for x in v.f.values())
        if isinstance(v, tuple):
            return ("t",) + tuple(self.kind_of(x) for x in v)
        if v is None:
            return "none"
        return type(v).__name__

    def havoc_value(self, v, name, kind=None, spec=None):
        p = self.p
        if spec is not None:
            return spec.make(self, name)
        if isinstance(v, F) or kind == "f":
            n = p.fresh_name(name)
            return F(z3.Real(n), z3.Bool(n + "?nan"), False)
        if kind == "i" or is_int(v):
            return z3.Int(p.fresh_name(name))
        if is_boolv(v):
            return z3.Bool(p.fresh_name(name))
        if isinstance(v, NT):
            return NT(v.cls, {k: self.havoc_value(x, name + "." + k) for k, x in v.f.items()})
        if isinstance(v, tuple):
            return tuple(self.havoc_value(x, "%s.%d" % (name, k)) for k, x in enumerate(v))
        if isinstance(v, Arr):
            # a variable that is re-bound to another view of the same store inside the loop
            raise Unsupported("array variable re-bound in loop: %s" % name)
        if isinstance(v, (RecRef,)):
            raise Unsupported("record variable re-bound in loop: %s" % name)
        return v

    def note_write(self, st):
        for key, birth in self.p.loops:
            if st.birth < birth and st.key not in self.eng.loop_mods.setdefault(key, set()):
                self.eng.loop_mods[key].add(st.key)
                self.eng.dirty = True       # start over after this path

    # ---------------------------------------------------------------- truth
    def truth_z(self, v):
        if isinstance(v, bool):
            return v
        if is_z3(v) and z3.is_bool(v):
            return v
        if is_int(v):
            return b_not(ieq(v, 0))
        if isinstance(v, F):
            return b_or(v.nan, b_not(feq(v, ZERO)))
        if v is None:
            return False
        if isinstance(v, (tuple, list, str)):
            return len(v) > 0
        raise Unsupported("truth of %r" % type(v))

    def truth(self, v):
        return self.p.branch(self.truth_z(v))

    # ---------------------------------------------------------------- expressions
    def ev(self, fr, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(fr, e)

    def e_Constant(self, fr, e):
        v = e.value
        if isinstance(v, float):
            return fconst(v)
        return v

    def e_Name(self, fr, e):
        if e.id in fr.env:
            v = fr.env[e.id]
            if isinstance(v, Maybe):
                self.p.oblige("bound:" + e.id, v.cond, None, "bounds")
                self.p.assume(zb(v.cond))
                return v.v
            return v
        if not hasattr(fr.node, "_locals"):
            fr.node._locals = set(assigned_names(fr.node.body)) if isinstance(fr.node.body, list) else set()
        if e.id in fr.node._locals:
            raise Unsupported("unbound name %s" % e.id)
        if e.id in fr.globals:
            return self.wrap_global(fr.globals[e.id])
        if hasattr(builtins, e.id):
            return getattr(builtins, e.id)
        raise Unsupported("unbound name %s" % e.id)

    def wrap_global(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, (str, np.dtype)):
            return v
        if isinstance(v, (int, np.integer)):
            return int(v)
        if isinstance(v, (float, np.floating)):
            return fconst(v)
        if isinstance(v, tuple) and hasattr(v, "_fields"):
            return NT(type(v).__name__, {k: self.wrap_global(x) for k, x in zip(v._fields, v)})
        if isinstance(v, tuple):
            return tuple(self.wrap_global(x) for x in v)
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                x = v.item()
                dt = "f" if isinstance(x, float) else "b" if isinstance(x, bool) else "i"
                x = fconst(x) if isinstance(x, float) else x
                return Arr(Store("const", dt, 0, lambda idx, x=x: x), ())
            raise Unsupported("global array")
        return v

    def e_Attribute(self, fr, e):
        b = self.ev(fr, e.value)
        return self.getattr(b, e.attr)

    def getattr(self, b, a):
        if isinstance(b, NT):
            if a in b.f:
                return b.f[a]
            if a == "_replace":
                return ("method", b, a)
            raise Unsupported("attribute %s of %s" % (a, b.cls))
        if isinstance(b, MaskSel):
            if a == "shape" and b.a.ndim == 1:
                return b.shape
            raise Unsupported("attribute %s of a selection" % a)
        if isinstance(b, (Arr, RecArr)):
            if a == "shape":
                return b.shape
            if a == "size":
                return b.size
            if a == "ndim":
                return b.ndim
            if a == "dtype":
                if isinstance(b, Arr):
                    return DT(b.dtype)
                import numpy as np
                return np.dtype([(k, {"f": "f8", "i": "i8", "b": "?"}[v.dtype]) for k, v in b.fields.items()])
            if a == "T":
                if b.ndim == 2:
                    return compose_view(b, {0: ("dim", 1, 0, 1), 1: ("dim", 0, 0, 1)}, (b.shape[1], b.shape[0]))
                return b
            return ("method", b, a)
        if inspect.ismodule(b):
            return self.wrap_global(getattr(b, a))
        if isinstance(b, tuple) and hasattr(b, "_fields"):
            return self.wrap_global(getattr(b, a))
        if isinstance(b, type) or callable(b):
            return self.wrap_global(getattr(b, a))
        if isinstance(b, F) or is_num(b):
            return ("method", b, a)
        raise Unsupported("attribute %s of %r" % (a, type(b)))

    def e_Tuple(self, fr, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.ev(fr, x.value))
            else:
                out.append(self.ev(fr, x))
        return tuple(out)

    def e_List(self, fr, e):
        return list(self.e_Tuple(fr, e))

    def e_JoinedStr(self, fr, e):
        return "<str>"

    def e_IfExp(self, fr, e):
        c = self.truth_z(self.ev(fr, e.test))
        c = simp(c)
        if not is_z3(c):
            return self.ev(fr, e.body if c else e.orelse)
        if self.p.branch(c):
            return self.ev(fr, e.body)
        return self.ev(fr, e.orelse)

    def e_BoolOp(self, fr, e):
        isand = isinstance(e.op, ast.And)
        acc = self.ev(fr, e.values[0])
        for nxt in e.values[1:]:
            a = simp(self.truth_z(acc))
            if not is_z3(a):
                if a != isand:
                    return acc if is_boolv(acc) else a
                acc = self.ev(fr, nxt)
                continue
            guard = a if isand else b_not(a)
            b = self.speculate(guard, lambda: self.truth_z(self.ev(fr, nxt)))
            if b is None:
                if self.p.branch(guard):
                    acc = self.truth_z(self.ev(fr, nxt))
                else:
                    return not isand
            else:
                acc = b_and(a, b) if isand else b_or(a, b)
        return acc

    def speculate(self, guard, thunk):
        """Evaluate under an extra assumption without forking; None when that would need a fork."""
        p = self.p
        if p.bound:
            return thunk()
        n, nn, no = len(p.pc), dict(p.names), self.eng.mark()
        tl = len(p.trace)
        if p.prefix[tl:tl + 1] == [(0, "nospec")]:
            p.trace.append((0, "nospec"))
            return None
        p.solver.push()
        p.speculative += 1
        ok, v = False, None
        try:
            p.assume(guard)
            n1 = len(p.pc)
            v = thunk()
            facts = [b_implies(guard, x) for x in p.pc[n1:]]
            ok = True
        except (SpecFork, RaiseExc, PathEnd):
            ok = False
        finally:
            p.speculative -= 1
            p.solver.pop()
            del p.pc[n:]
        if not ok:
            p.names = nn
            del p.trace[tl:]
            self.eng.rollback(no)
            p.trace.append((0, "nospec"))
            return None
        for x in facts:
            p.assume(x)
        return v

    def e_UnaryOp(self, fr, e):
        v = self.ev(fr, e.operand)
        if isinstance(e.op, ast.Not):
            return b_not(self.truth_z(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, F):
                return fneg(v)
            if isinstance(v, Arr):
                return self.elementwise(lambda x: fneg(x) if isinstance(x, F) else isub(0, x), v)
            return isub(0, zi(v) if is_z3(v) else int(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if is_boolv(v):
                return b_not(v)
            if isinstance(v, Arr) and v.dtype == "b":
                return self.elementwise(b_not, v)
        raise Unsupported("unary operator")

    def e_BinOp(self, fr, e):
        return self.binop(e.op, self.ev(fr, e.left), self.ev(fr, e.right))

    def elementwise(self, fn, *args, dtype=None):
        """Lazy element-wise array expression with broadcasting of scalars and equal shapes."""
        shape = None
        for a in args:
            if isinstance(a, Arr):
                if shape is None or len(a.shape) > len(shape):
                    shape = a.shape
        args = [a.snapshot() if isinstance(a, Arr) else a for a in args]
        for a in args:
            if isinstance(a, Arr):
                for x, y in zip(a.shape, shape[len(shape) - len(a.shape):]):
                    if not self.p.branch(ieq(x, y)):
                        raise Unsupported("array broadcasting of different lengths")

        def get(idx):
            return fn(*[a.at(*idx[len(idx) - len(a.shape):]) if isinstance(a, Arr) else a for a in args])
        if dtype is None:
            t = get(tuple(z3.Int("?k%d" % k) for k in range(len(shape))))
            dtype = "f" if isinstance(t, F) else "b" if is_boolv(t) else "i"
        st = self.eng.new_store(self.p, "expr", dtype, len(shape), get, inf_ok=True)
        return Arr(st, shape)

    def binop(self, op, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.elementwise(lambda x, y: self.array_op(op, x, y), a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and isinstance(op, ast.Add):
            return a + b
        if is_boolv(a) and is_boolv(b) and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if isinstance(op, ast.BitAnd):
                return b_and(a, b)
            if isinstance(op, ast.BitOr):
                return b_or(a, b)
            return b_not(b_iff(a, b))
        if not is_num(a) or not is_num(b):
            raise Unsupported("operands %r %r" % (type(a), type(b)))
        if isinstance(op, ast.Pow):
            return self.power(a, b)
        if isinstance(a, F) or isinstance(b, F) or isinstance(op, ast.Div):
            a, b = tof(a), tof(b)
            if isinstance(op, ast.Add):
                return fadd(a, b)
            if isinstance(op, ast.Sub):
                return fsub(a, b)
            if isinstance(op, ast.Mult):
                return fmul(a, b)
            if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
                if self.p.branch(feq(b, ZERO)):
                    raise RaiseExc("ZeroDivisionError", implicit=True)
                if isinstance(op, ast.Div):
                    return fdiv(a, b, True)
                return self.float_floordiv(a, b, isinstance(op, ast.Mod))
            raise Unsupported("float operator %s" % type(op).__name__)
        a2, b2 = zi(a) if is_z3(a) else int(a), zi(b) if is_z3(b) else int(b)
        if isinstance(op, ast.Add):
            return iadd(a2, b2)
        if isinstance(op, ast.Sub):
            return isub(a2, b2)
        if isinstance(op, ast.Mult):
            return imul(a2, b2)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if self.p.branch(ieq(b2, 0)):
                raise RaiseExc("ZeroDivisionError", implicit=True)
            if not is_z3(a2) and not is_z3(b2):
                return a2 // b2 if isinstance(op, ast.FloorDiv) else a2 % b2
            if self.p.branch(ilt(0, b2)):
                return zi(a2) / zi(b2) if isinstance(op, ast.FloorDiv) else zi(a2) % zi(b2)
            q = (-zi(a2)) / (-zi(b2))
            return q if isinstance(op, ast.FloorDiv) else zi(a2) - q * zi(b2)
        raise Unsupported("int operator %s" % type(op).__name__)

    def array_op(self, op, x, y):
        """One cell of an array expression: IEEE division, no exceptions."""
        if is_boolv(x) and is_boolv(y):
            if isinstance(op, ast.BitAnd):
                return b_and(x, y)
            if isinstance(op, ast.BitOr):
                return b_or(x, y)
        if isinstance(x, F) or isinstance(y, F) or isinstance(op, ast.Div):
            x, y = tof(x), tof(y)
            if isinstance(op, ast.Add):
                return fadd(x, y)
            if isinstance(op, ast.Sub):
                return fsub(x, y)
            if isinstance(op, ast.Mult):
                return fmul(x, y)
            if isinstance(op, ast.Div):
                return fdiv_ieee(x, y)
            if isinstance(op, ast.Pow):
                return self.power(x, y)
            raise Unsupported("array operator")
        return self.binop(op, x, y)

    def float_floordiv(self, a, b, mod):
        a, b = settle(a), settle(b)
        if (not is_z3(a.nan) and a.nan) or (not is_z3(b.nan) and b.nan):
            return NAN
        if a.inf:
            return NAN
        if b.inf:
            raise Unsupported("floor division by infinity")
        if not is_z3(a.r) and not is_z3(b.r):
            q = Fraction(a.r // b.r)
        else:
            # floor of the exact quotient, as a fresh integer
            k = z3.Int(self.p.fresh_name("floordiv"))
            self.p.floors.append(k)
            q = z3.ToReal(k)
            ar, br = zr(a.r), zr(b.r)
            if self.p.branch(br > 0):
                qb = self.p.mul(q, br) if is_z3(b.r) and not self.p.bound else q * br
                self.p.assume(z3.And(qb <= ar, ar < qb + br))
            else:
                qb = self.p.mul(q, br) if is_z3(b.r) and not self.p.bound else q * br
                self.p.assume(z3.And(qb >= ar, ar > qb + br))
        nan = b_or(a.nan, b.nan)
        if mod:
            return F(zr(a.r) - q * zr(b.r), nan) if is_z3(q) else F(a.r - q * b.r, nan)
        return F(q, nan)

    def power(self, a, b):
        if isinstance(b, F) and not is_z3(b.r) and b.const() and not b.nan and not b.inf:
            if b.r == Fraction(1, 2):
                return self.sqrt(tof(a))
            if b.r.denominator == 1:
                b = int(b.r)
        if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 4:
            if b == 0:
                return F(Fraction(1)) if isinstance(a, F) else 1
            r = a
            for _ in range(b - 1):
                r = fmul(tof(r), tof(a)) if isinstance(a, F) else imul(r, a)
            return r
        if isinstance(b, int) and b == -1 and isinstance(a, F):
            return self.binop(ast.Div(), F(Fraction(1)), a)
        # uninterpreted power, enough for functional specs that use the same operator
        return self.uf("pow", tof(a), tof(b))

    def uf(self, name, *args):
        """An uninterpreted total function of extended reals (trusted: only congruence is used)."""
        args = [settle(tof(x)) for x in args]
        nan = b_or(*[x.nan for x in args])
        for x in args:
            if x.inf:
                raise Unsupported("%s of infinity" % name)
        f = z3.Function("uf_" + name, *([z3.RealSort()] * (len(args) + 1)))
        n = z3.Function("uf_" + name + "?nan", *([z3.RealSort()] * len(args) + [z3.BoolSort()]))
        rs = [zr(x.r) for x in args]
        self.eng.used_ufs.add(name)
        return F(f(*rs), b_or(nan, n(*rs)))

    def sqrt(self, a):
        """sqrt over the reals (NaN when negative)."""
        a = settle(tof(a))
        if a.inf:
            return a if a.r > 0 else NAN
        if not is_z3(a.nan) and a.nan:
            return NAN
        if not is_z3(a.r) and a.r == 0:
            return F(Fraction(0), a.nan)
        f = z3.Function("uf_sqrt", z3.RealSort(), z3.RealSort())
        x = zr(a.r)
        t = f(x)
        if not self.p.bound:
            self.p.assume(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
        self.eng.used_ufs.add("sqrt")
        return F(t, b_or(a.nan, x < 0))

    def e_Compare(self, fr, e):
        left = self.ev(fr, e.left)
        out = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(fr, r)
            out2 = self.compare(op, left, right)
            if isinstance(out2, Arr):
                return out2
            out = b_and(out, out2)
            left = right
        return out

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = a is b
            elif is_boolv(a) and is_boolv(b):
                r = b_iff(a, b)
            else:
                r = a is b
            return b_not(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, DictV):
                r = b.contains(self, a)
            else:
                r = b_or(*[self.compare(ast.Eq(), a, x) for x in b])
            return b_not(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.elementwise(lambda x, y: self.compare(op, x, y), a, b, dtype="b")
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            r = a == b
            return r if isinstance(op, ast.Eq) else not r
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, (ast.Eq, ast.NotEq)):
            r = len(a) == len(b) and b_and(*[self.compare(ast.Eq(), x, y) for x, y in zip(a, b)])
            return r if isinstance(op, ast.Eq) else b_not(r)
        if is_boolv(a) and is_boolv(b) and isinstance(op, (ast.Eq, ast.NotEq)):
            r = b_iff(a, b)
            return r if isinstance(op, ast.Eq) else b_not(r)
        if not is_num(a) or not is_num(b):
            raise Unsupported("comparison of %r and %r" % (type(a), type(b)))
        if isinstance(a, F) or isinstance(b, F):
            a, b = tof(a), tof(b)
            if isinstance(op, ast.Eq):
                return feq(a, b)
            if isinstance(op, ast.NotEq):
                return b_not(feq(a, b))
            if isinstance(op, ast.Lt):
                return flt(a, b)
            if isinstance(op, ast.Gt):
                return flt(b, a)
            if isinstance(op, ast.LtE):
                return fle(a, b)
            return fle(b, a)
        a = zi(a) if is_z3(a) else int(a)
        b = zi(b) if is_z3(b) else int(b)
        if isinstance(op, ast.Eq):
            return ieq(a, b)
        if isinstance(op, ast.NotEq):
            return b_not(ieq(a, b))
        if isinstance(op, ast.Lt):
            return ilt(a, b)
        if isinstance(op, ast.Gt):
            return ilt(b, a)
        if isinstance(op, ast.LtE):
            return ile(a, b)
        return ile(b, a)

    # ---------------------------------------------------------------- subscripts
    def index(self, fr, sl):
        if isinstance(sl, ast.Tuple):
            return tuple(self.index1(fr, x) for x in sl.elts)
        return (self.index1(fr, sl),)

    def index1(self, fr, sl):
        if isinstance(sl, ast.Slice):
            lo = self.ev(fr, sl.lower) if sl.lower is not None else None
            hi = self.ev(fr, sl.upper) if sl.upper is not None else None
            st = self.ev(fr, sl.step) if sl.step is not None else None
            return slice(lo, hi, st)
        return self.ev(fr, sl)

    def e_Subscript(self, fr, e):
        return self.getitem(self.ev(fr, e.value), self.index(fr, e.slice))

    def as_int(self, i):
        if is_int(i):
            return i
        if is_boolv(i):
            return zi(i)
        if isinstance(i, F):
            raise Unsupported("float used as an index")
        raise Unsupported("index %r" % type(i))

    def bounds(self, i, n, what):
        """Normalise one index; obligation: inside the axis."""
        i = self.as_int(i)
        if not is_z3(i) and i < 0:
            i = iadd(n, i)
        elif is_z3(i):
            # Python/Numba wrap negative indices around once
            if not self.p.bound and self.p.branch(ilt(i, 0)):
                i = iadd(n, i)
        self.p.oblige("bounds:" + what, b_and(ile(0, i), ilt(i, n)), None, "bounds")
        self.p.assume(zb(b_and(ile(0, i), ilt(i, n))))
        return i

    def getitem(self, b, idx):
        if isinstance(b, DictV):
            return b.load(self, idx[0])
        if isinstance(b, (tuple, list)) and not isinstance(b, NT):
            i = idx[0]
            if isinstance(i, slice):
                return b[i]
            i = simp(i)
            if is_z3(i):
                raise Unsupported("symbolic tuple index")
            return b[i]
        if isinstance(b, NT):
            i = simp(idx[0])
            return list(b.f.values())[i]
        if isinstance(b, RecRef):
            return b[idx[0]]
        if isinstance(b, RecArr):
            if len(idx) == 1 and isinstance(idx[0], str):
                return b.fields[idx[0]]
            if any(isinstance(i, slice) for i in idx):
                fs = {k: self.getitem(v, idx) for k, v in b.fields.items()}
                first = next(iter(fs.values()))
                if isinstance(first, Arr):
                    return RecArr(fs, first.shape)
                raise Unsupported("record slice")
            if len(idx) == 1 and isinstance(idx[0], Arr):
                ia = idx[0].snapshot()
                self.bounds_all(ia, b.shape[0], "fancy")
                fs = {k: self.gather(v, ia) for k, v in b.fields.items()}
                return RecArr(fs, ia.shape)
            ix = tuple(self.bounds(i, n, "record") for i, n in zip(idx, b.shape))
            if len(ix) != b.ndim:
                raise Unsupported("partial record index")
            return RecRef(b, ix)
        if isinstance(b, Arr):
            if len(idx) == 1 and isinstance(idx[0], Arr):
                ia = idx[0].snapshot()
                if ia.dtype == "b":
                    if b.ndim != 1:
                        raise Unsupported("boolean mask indexing")
                    return MaskSel(b.snapshot(), ia, self.eng, self.p)
                self.bounds_all(ia, b.shape[0], "fancy")
                return self.gather(b, ia)
            if len(idx) > b.ndim:
                idx = tuple(i for i in idx if i is not None and i is not Ellipsis)
                if len(idx) > b.ndim:
                    raise Unsupported("too many indices")
            if any(isinstance(i, Arr) for i in idx) and len(idx) == b.ndim:
                view, mask = self.masked_view(b, idx)
                return MaskSel(view.snapshot(), mask, self.eng, self.p)
            if len(idx) == b.ndim and not any(isinstance(i, slice) or i is None for i in idx):
                ix = tuple(self.bounds(i, n, "read") for i, n in zip(idx, b.shape))
                return b.at(*ix)
            return self.slice_view(b, idx)
        raise Unsupported("subscript of %r" % type(b))

    def bounds_all(self, ia, n, what):
        k = z3.Int(self.p.fresh_name("?b"))
        c = b_and(ile(0, k), ilt(k, ia.shape[0]))
        v = ia.at(k)
        self.p.oblige("bounds:" + what, b_implies(c, b_and(ile(0, v), ilt(v, n))), None, "bounds")

    def gather(self, a, ia):
        a = a.snapshot()
        if ia.ndim != 1:
            raise Unsupported("indices of several dimensions")
        st = self.eng.new_store(self.p, "gather", a.dtype, a.ndim, lambda idx: a.at(ia.at(idx[0]), *idx[1:]), nan_ok=True, inf_ok=True)
        return Arr(st, tuple(ia.shape) + tuple(a.shape[1:]))

    def slice_view(self, a, idx):
        idx = list(idx)
        if any(i is None for i in idx):
            # a[:, None]
            if a.ndim == 1 and len(idx) == 2 and idx[1] is None:
                v = self.slice_view(a, (idx[0],)) if not _full_slice(idx[0]) else a
                st = v.store
                dims = []
                for d in v.dims:
                    dims.append(d)
                r = Arr(v.store, (v.shape[0], 1), tuple(dims))
                r.snap = v.snap
                return r
            raise Unsupported("newaxis")
        idx += [slice(None)] * (a.ndim - len(idx))
        m, shape, nd = {}, [], 0
        for k, i in enumerate(idx):
            n = a.shape[k]
            if isinstance(i, slice):
                lo, hi, step = i.start, i.stop, i.step
                if step is not None:
                    step = simp(step)
                if step not in (None, 1, -1):
                    raise Unsupported("slice step")
                if step == -1:
                    if lo is not None or hi is not None:
                        raise Unsupported("reversed slice with bounds")
                    m[k] = ("dim", nd, isub(n, 1), -1)
                    shape.append(n)
                else:
                    lo2 = self.clip(lo, n, 0)
                    hi2 = self.clip(hi, n, n)
                    if lo is None and hi is None:
                        ln = n
                    else:
                        ln = isub(hi2, lo2)
                        if is_z3(ln):
                            if self.p.branch(ilt(ln, 0)):
                                ln = 0
                        else:
                            ln = max(ln, 0)
                    m[k] = ("dim", nd, lo2, 1)
                    shape.append(ln)
                nd += 1
            else:
                m[k] = ("fix", self.bounds(i, n, "slice"))
        return compose_view(a, m, shape)

    def clip(self, x, n, default):
        if x is None:
            return default
        x = self.as_int(x)
        if self.p.branch(ilt(x, 0)):
            x = iadd(n, x)
            if self.p.branch(ilt(x, 0)):
                return 0
        if self.p.branch(ilt(n, x)):
            return n
        return x

    def allow_inf(self, st):
        """An array created by the code itself turns out to hold infinite values: start again with that known."""
        tag = st.key.split("~")[0]
        if (tag.startswith("alloc.") or tag == "st.copy") and tag not in self.eng.inf_tags:
            self.eng.inf_tags.add(tag)
            raise Restart()

    def coerce(self, st, v):
        if st.dtype == "f":
            v = tof(v)
            if not st.inf_ok and (is_z3(v.inf) or v.inf):
                self.allow_inf(st)
                self.p.oblige("finite:" + st.key, b_not(v.inf), None, "finite")
                v = F(v.r, v.nan, False)
            if not st.nan_ok and (is_z3(v.nan) or v.nan):
                self.p.oblige("notnan:" + st.key, b_not(v.nan), None, "finite")
                v = F(v.r, False, v.inf)
            return v
        if st.dtype == "b":
            return self.truth_z(v)
        if isinstance(v, F):
            if not is_z3(v.r) and v.r.denominator == 1 and not v.nan and not v.inf:
                return int(v.r)
            if is_z3(v.r) and z3.is_to_real(v.r):
                return v.r.arg(0)
            raise Unsupported("float stored in an integer array")
        return zi(v) if is_z3(v) else int(v)

    def setitem(self, b, idx, v):
        if isinstance(b, RecRef):
            a = b.arr.fields[idx[0]]
            a.write(b.idx, self.coerce(a.store, v))
            self.note_write(a.store)
            return
        if isinstance(b, RecArr):
            if len(idx) == 1 and isinstance(idx[0], str):
                a = b.fields[idx[0]]
                self.assign_view(a, v)
                return
            if len(idx) == 1 and isinstance(v, RecRef):
                i = self.bounds(idx[0], b.shape[0], "record")
                for k, a in b.fields.items():
                    a.write((i,), v[k])
                    self.note_write(a.store)
                return
            if len(idx) == 1 and isinstance(idx[0], slice) and isinstance(v, RecArr):
                for k, a in b.fields.items():
                    self.assign_view(self.slice_view(a, idx), v.fields[k])
                return
            raise Unsupported("record array assignment")
        if isinstance(b, Arr):
            if b.snap is not None:
                raise Unsupported("write to a value expression")
            if len(idx) == b.ndim and not any(isinstance(i, (slice, Arr)) or i is None for i in idx):
                ix = tuple(self.bounds(i, n, "write") for i, n in zip(idx, b.shape))
                b.write(ix, self.coerce(b.store, v))
                self.note_write(b.store)
                return
            if any(isinstance(i, Arr) for i in idx):
                self.assign_masked(b, idx, v)
                return
            self.assign_view(self.slice_view(b, idx), v)
            return
        if isinstance(b, DictV):
            b.store(self, idx[0], v)
            return
        raise Unsupported("assignment into %r" % type(b))

    def masked_view(self, b, idx):
        ms = [i for i in idx if isinstance(i, Arr)]
        if len(ms) != 1 or ms[0].dtype != "b" or ms[0].ndim != 1:
            raise Unsupported("fancy indexing")
        view = self.slice_view(b, tuple(slice(None) if isinstance(i, Arr) else i for i in idx)) if b.ndim > 1 else b
        if view.ndim != 1 or not self.p.branch(ieq(view.shape[0], ms[0].shape[0])):
            raise Unsupported("boolean mask of another length")
        return view, ms[0].snapshot()

    def assign_positions(self, b, idx, v):
        """b[..., positions, ...] = scalar"""
        where = [k for k, i in enumerate(idx) if isinstance(i, Arr)]
        ia = idx[where[0]].snapshot()
        view = self.slice_view(b, tuple(slice(None) if isinstance(i, Arr) else i for i in idx)) if b.ndim > 1 else b
        if len(where) != 1 or ia.ndim != 1 or view.ndim != 1 or isinstance(v, (Arr, MaskSel)):
            raise Unsupported("fancy assignment")
        self.bounds_all(ia, view.shape[0], "fancy")
        c = self.coerce(view.store, v)
        old = view.snapshot()
        nm = self.p.fresh_name("mem")
        mem, wit = z3.Function(nm, z3.IntSort(), z3.BoolSort()), z3.Function(nm + ".w", z3.IntSort(), z3.IntSort())
        k = z3.Int("?mem")
        self.p.bound += 1
        try:
            x = ia.at(k)
            y = ia.at(wit(k))
        finally:
            self.p.bound -= 1
        n = ia.shape[0]
        from .spec import infer_patterns
        body = z3.Implies(zb(b_and(ile(0, k), ilt(k, n))), mem(zi(x)))
        ps = infer_patterns(body, [k])
        self.p.assume(z3.ForAll([k], body, patterns=ps) if ps else z3.ForAll([k], body))
        self.p.assume(z3.ForAll([k], z3.Implies(mem(k), zb(b_and(ile(0, wit(k)), ilt(wit(k), n), ieq(y, k)))), patterns=[mem(k)]))
        view.write_all(lambda vi: ite(mem(zi(vi[0])), c, old.at(*vi)))
        self.note_write(view.store)

    def assign_masked(self, b, idx, v):
        if any(isinstance(i, Arr) and i.dtype == "i" for i in idx):
            return self.assign_positions(b, idx, v)
        view, mask = self.masked_view(b, idx)
        old = view.snapshot()
        if isinstance(v, MaskSel):
            k = z3.Int("?m")
            if not z3.is_true(z3.simplify(zb(b_iff(v.mask.at(k), mask.at(k))))):
                raise Unsupported("values selected by another mask")
            val = lambda i: v.a.at(i)
            if v.a.dtype != view.dtype:
                raise Unsupported("dtype of masked values")
        elif isinstance(v, Arr):
            raise Unsupported("masked assignment of an array")
        else:
            c = self.coerce(view.store, v)
            val = lambda i: c
        view.write_all(lambda vi: ite(mask.at(*vi), val(*vi), old.at(*vi)))
        self.note_write(view.store)

    def assign_view(self, view, v):
        if isinstance(v, Arr):
            v = v.snapshot()
            if v.ndim == 0:
                val = self.coerce(view.store, v.at())
                view.write_all(lambda vi: val)
                self.note_write(view.store)
                return
            if v.ndim != view.ndim:
                raise Unsupported("broadcast assignment")
            for x, y in zip(v.shape, view.shape):
                if not self.p.branch(ieq(x, y)):
                    raise RaiseExc("ValueError")
            dt = view.store.dtype
            if dt == v.dtype or (dt == "f" and v.dtype in "ib"):
                conv = (lambda x: tof(x)) if dt == "f" else (lambda x: x)
            elif dt == "i" and v.dtype == "b":
                conv = zi
            else:
                raise Unsupported("dtype conversion on assignment")
            if dt == "f" and not view.store.inf_ok:
                k = tuple(z3.Int(self.p.fresh_name("?w")) for _ in v.shape)
                t = tof(v.at(*k))
                if is_z3(t.inf) or t.inf:
                    self.allow_inf(view.store)
                    rng = b_and(*[b_and(ile(0, x), ilt(x, n)) for x, n in zip(k, v.shape)])
                    self.p.oblige("finite:" + view.store.key, b_implies(rng, b_not(t.inf)), None, "finite")
                view.write_all(lambda vi: (lambda t: F(t.r, t.nan, False))(tof(v.at(*vi))))
            else:
                view.write_all(lambda vi: conv(v.at(*vi)))
        else:
            val = self.coerce(view.store, v)
            view.write_all(lambda vi: val)
        self.note_write(view.store)

    def length(self, a):
        if isinstance(a, (Arr, RecArr, MaskSel)):
            return a.shape[0]
        if isinstance(a, NT):
            return len(a.f)
        return len(a)

    # ---------------------------------------------------------------- calls
    def e_Call(self, fr, e):
        f = self.ev(fr, e.func)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.ev(fr, a.value))
            else:
                args.append(self.ev(fr, a))
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("**kwargs")
            kw[k.arg] = self.ev(fr, k.value)
        return self.call(fr, f, args, kw)

    def call(self, fr, f, args, kw):
        from . import builtins_ as BI
        if isinstance(f, tuple) and len(f) == 3 and f[0] == "method":
            return BI.method(self, f[1], f[2], args, kw)
        if hasattr(f, "vc_call"):
            return f.vc_call(self, args, kw)
        h = BI.lookup(f)
        if h is not None:
            return h(self, *args, **kw)
        if isinstance(f, type) and issubclass(f, tuple) and hasattr(f, "_fields"):
            fields = dict(zip(f._fields, args))
            fields.update(kw)
            for k, d in getattr(f, "_field_defaults", {}).items():
                fields.setdefault(k, self.wrap_global(d))
            if set(fields) != set(f._fields):
                raise Unsupported("namedtuple fields")
            return NT(f.__name__, {k: fields[k] for k in f._fields})
        f = getattr(f, "py_func", f)
        if inspect.isfunction(f) and (f.__module__ or "").startswith("vectorbt"):
            return self.call_function(f, args, kw)
        raise Unsupported("call of %r" % (f,))

    def bind(self, f, node, args, kw):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        elif len(args) > len(names):
            raise Unsupported("too many arguments")
        for k, v in kw.items():
            env[k] = v
        defaults = f.__defaults__ or ()
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            if n not in env:
                env[n] = self.wrap_global(d)
        for n, d in (f.__kwdefaults__ or {}).items():
            env.setdefault(n, self.wrap_global(d))
        for n in names:
            if n not in env:
                raise Unsupported("missing argument %s" % n)
        return env

    def call_function(self, f, args, kw):
        node = func_ast(f)
        env = self.bind(f, node, args, kw)
        hook = self.eng.c.at_call.get(f.__name__)
        if hook is None:
            return self.call_bound(f, node, env)
        a = NS({k: (v.snapshot() if isinstance(v, (Arr, RecArr, RecRef)) else v) for k, v in env.items()})
        res = self.call_bound(f, node, env)
        S = self.eng.spec("prove", self.p, "at call of " + f.__name__, kind="assert")
        for k, v in (hook(S, View(self.top), a, res) or {}).items():
            self.set_ghost(k, v)
        return res

    def set_ghost(self, name, v):
        if name not in self.top.env:
            raise Unsupported("unknown ghost variable " + name)
        self.top.env[name] = v
        for key, _ in self.p.loops:
            if name not in self.eng.ghost_mods.setdefault(key, set()):
                self.eng.ghost_mods[key].add(name)
                self.eng.dirty = True

    def call_bound(self, f, node, env):
        use = self.eng.c.use.get(f.__name__)
        if callable(use):
            return use(self, NS(dict(env)))
        c = self.eng.contract_of(f) if use != "inline" else None
        if c is not None and not c.inline and (f is not self.eng.fn or True) and c.usable(self.eng):
            self.eng.callees.add(c.name)
            return self.apply_contract(c, f, env)
        if self.p.inline_depth > 12:
            raise Unsupported("inlining depth")
        self.eng.inlined.add("%s.%s" % (f.__module__, f.__name__))
        fr2 = Frame(f, node, env, contract=c or self.eng.contract_of(f))
        fr2.old = NS({k: (v.snapshot() if isinstance(v, (Arr, RecArr, RecRef)) else v) for k, v in env.items()})
        self.p.inline_depth += 1
        try:
            body = tail_form(node) if self.eng.merge and fr2.contract is None else None
            if body is not None:
                self.block(fr2, body)
                return fr2.env["result!"]
            return self.run_body(fr2)
        finally:
            self.p.inline_depth -= 1

    def apply_contract(self, c, f, env):
        p, eng = self.p, self.eng
        nm = f.__name__
        a = NS(dict(env))
        # namespaces hand the spec the entry values
        snap = NS({k: (v.snapshot() if isinstance(v, (Arr, RecArr, RecRef)) else v) for k, v in env.items()})
        a.old = snap
        if c.pre is not None:
            S = eng.spec("prove", p, "call:%s/pre" % nm, kind="call-pre")
            S.as_pre = True
            c.pre(S, a)
        opaque = nm in eng.c.opaque or nm + "!" in eng.c.opaque
        if not opaque:
            for k, sp in c.params.items():
                if type(sp).__name__ == "Arr_" and isinstance(env.get(k), Arr):
                    self.conforms(nm + "." + k, sp, env[k])
        if c.raises:
            for exc, cond in c.raises.items():
                S = eng.spec("assume", p, nm)
                co = True if nm + "!" in eng.c.opaque else cond(S, a)
                if co is False:
                    continue
                may = z3.Bool(p.fresh_name("raises:%s:%s" % (nm, exc)))
                if p.branch(b_and(may, co)):
                    raise RaiseExc(exc)
        for m in c.modifies:
            tgt = env[m.split(".")[0]]
            if tgt is None:
                continue
            if isinstance(tgt, NT) and "." in m:
                for part in m.split(".")[1:]:
                    tgt = tgt.f[part]
            self.havoc_target(tgt, "%s.%s" % (nm, m))
        S = eng.spec("assume", p, nm)
        if c.functional is not None and not opaque:
            res = c.functional(S, a)
            res = self.named(nm, res)
            p.results.setdefault(c.fname, []).append(res)
            return res
        if c.returns is None:
            res = None
        elif callable(c.returns):
            res = c.returns(self, a, nm + ".result")
        else:
            res = c.returns.make(self, nm + ".result")
        if opaque:
            p.calls.append((nm, a, res))
            return res
        p.results.setdefault(c.fname, []).append(res)
        S.every = nm in eng.c.every
        c.post(S, a, NoResult() if res is None and c.returns is None else res)
        if not p.feasible():
            raise PathEnd()
        return res

    def conforms(self, name, sp, a):
        """The callee's contract takes arrays without infinities (NaN) only."""
        if sp.dtype != "f" or a.dtype != "f" or (sp.inf and sp.nan):
            return
        p = self.p
        k = (p.arb("i"), p.arb("c"))[:a.ndim]       # one arbitrary element
        if len(k) < a.ndim:
            raise Unsupported("argument with three axes")
        p.bound += 1
        try:
            t = tof(a.at(*k))
        finally:
            p.bound -= 1
        rng = b_and(*[b_and(ile(0, x), ilt(x, n)) for x, n in zip(k, a.shape)])
        whole = a.snap is None and a.dims == tuple(("dim", j, 0, 1) for j in range(a.ndim)) and a.store.key.split("~")[0] == "st.expr"
        if not sp.inf and t.inf is not False:
            p.oblige("finite:" + name, b_implies(rng, b_not(t.inf)), None, "call-pre")
            p.assume(b_implies(rng, b_not(t.inf)))
            if whole:
                g = a.store.get
                a.store.get = lambda idx: (lambda t: F(t.r, t.nan, False))(tof(g(idx)))
        if not sp.nan and t.nan is not False:
            p.oblige("notnan:" + name, b_implies(rng, b_not(t.nan)), None, "call-pre")

    def havoc_target(self, tgt, name):
        p = self.p
        if isinstance(tgt, Arr):
            st = tgt.store
            nm = p.fresh_name(name)
            if not is_z3(tgt.inverse(tuple(z3.Int("?") for _ in range(st.ndim)))[0]) and st.ndim == tgt.ndim:
                pass
            g = fresh_get(nm, st.dtype, tgt.ndim, st.nan_ok, st.inf_ok)
            tgt.write_all(lambda vi: g(vi))
            self.note_write(st)
        elif isinstance(tgt, RecArr):
            for k, a in tgt.fields.items():
                self.havoc_target(a, name + "." + k)
        elif isinstance(tgt, RecRef):
            for k, a in tgt.arr.fields.items():
                nm = p.fresh_name(name + "." + k)
                v = fresh_get(nm, a.store.dtype, 0, a.store.nan_ok, a.store.inf_ok)(())
                a.write(tgt.idx, v)
                self.note_write(a.store)
        else:
            raise Unsupported("modifies %r" % type(tgt))


def _full_slice(s):
    return isinstance(s, slice) and s.start is None and s.stop is None and s.step is None

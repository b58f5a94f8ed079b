"""The engine: explores all paths of one function against its contract and collects its obligations."""
import hashlib
import importlib
import time
import traceback

import z3

from .values import *
from . import values as V
from .engine import *
from .spec import SymS
from .contract import REGISTRY, Contract, Inv


class RecDef:
    """f(k) (or f(k, p, ..) with parameters p): the value after steps lo..k-1."""

    def __init__(self, key, fns, lo, init, tmpl, svars, kvar, pvar=()):
        self.key, self.fns, self.lo, self.init, self.tmpl = key, fns, lo, init, tmpl
        self.svars, self.kvar, self.pvar = svars, kvar, pvar


class Engine:
    def __init__(self, contract, registry=REGISTRY, budget_s=240):
        self.c = contract
        self.fn = contract.function() if contract.module not in ("", None, "lemma") else None
        self.registry = registry
        self.merge = contract.merge
        self.unroll_const = 8
        self.obls = {}
        self.order = []
        self.trivials = {}
        self.loop_temps = {}
        self.loop_mods = {}
        self.ghost_mods = {}
        self.inf_tags = set()
        self.var_kinds = {}
        self.reached = set()
        self.callees, self.inlined, self.used_ufs = set(), set(), set()
        self.feas_time, self.feas_calls = 0.0, 0
        self.paths = 0
        self.errors = []
        self.ended = {"return": 0, "raise": 0, "cut": 0}
        self.recdefs = {}
        self._bound = 0
        self.t_end = time.time() + budget_s
        self._used_after = {}
        self.byfn = {}
        for c in registry.values():
            try:
                self.byfn[c.function()] = c
            except (AttributeError, ModuleNotFoundError):
                pass

    # ------------------------------------------------------------- services for the executor
    def next_bound(self):
        self._bound += 1
        return self._bound

    def contract_of(self, f):
        return self.byfn.get(f)

    def inv_for(self, fr, s):
        c = self.c if (fr.fn is self.fn) else self.byfn.get(fr.fn)
        if c is None:
            return None
        return c.loops.get(s._ord)

    def names_used_after(self, node, loop):
        key = id(loop)
        if key not in self._used_after:
            names, seen = set(), [False]
            inside = {id(n) for n in ast.walk(loop)}
            end = loop.end_lineno
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside and n.lineno > end:
                    names.add(n.id)
            # a loop around this one may read the variable in its next iteration only after re-binding; ignore
            self._used_after[key] = names
        return self._used_after[key]

    def new_store(self, p, tag, dtype, ndim, get, nan_ok=True, inf_ok=False, key=None):
        p.serial += 1
        st = V.Store(key or p.fresh_name("st." + tag), dtype, ndim, get, p.serial, nan_ok, inf_ok)
        self.path_stores.append(st)
        return st

    def spec(self, mode, p, prefix="", kind="post"):
        return SymS(self, p, mode, prefix, kind)

    def queue(self, trace):
        self.work.append(list(trace))

    # ------------------------------------------------------------- obligations
    def mark(self):
        return (len(self.order), dict(self._cnt))

    def rollback(self, m):
        n, cnt = m
        for k in self.order[n:]:
            self.obls.pop(k, None)
        del self.order[n:]
        self._cnt = cnt

    def _key(self, p, label):
        n = self._cnt.get(label, 0)
        self._cnt[label] = n + 1
        return (tuple(p.trace), label, n)

    def trivial(self, p, label, props, kind):
        self.trivials[self._key(p, label)] = (label, props, kind)

    def add_obligation(self, p, label, goal, props, kind):
        k = self._key(p, label)
        if k in self.obls:
            return
        o = self.obls[k] = Obligation(label, props, list(p.pc) + list(p.lin), goal, self.recdefs, kind)
        o.defs = list(p.defs)
        o.args = getattr(p, "args", None)
        self.order.append(k)

    # ------------------------------------------------------------- recursive spec functions
    def make_rec(self, p, init, step, lo, param=False):
        pv = tuple(z3.Int("?p" if n == 0 else "?p%d" % n) for n in range(int(param)))
        if param:
            step0 = step
            step = lambda s, k: step0(s, k, *pv)

        def flat(v, out):
            if isinstance(v, F):
                out.append(("f", v))
            elif isinstance(v, tuple):
                for x in v:
                    flat(x, out)
            elif is_boolv(v):
                out.append(("b", v))
            else:
                out.append(("i", v))
        kv = z3.Int("?k")
        p.bound += 1
        try:
            # find the fixpoint of component shapes (whether a NaN flag is needed)
            shape_nan = None
            proto = init
            for _ in range(3):
                svars = []

                def mk(v):
                    if isinstance(v, F):
                        n = len(svars)
                        r = z3.Real("?s%d" % n)
                        if is_z3(v.nan) or v.nan or (shape_nan and shape_nan.get(n)):
                            nn = z3.Bool("?s%dn" % n)
                            svars.append((r, nn))
                            return F(r, nn)
                        svars.append((r, None))
                        return F(r)
                    if isinstance(v, tuple):
                        return tuple(mk(x) for x in v)
                    n = len(svars)
                    x = z3.Bool("?s%d" % n) if is_boolv(v) else z3.Int("?s%d" % n)
                    svars.append((x, None))
                    return x
                st = mk(proto)
                nxt = step(st, kv)

                def norm(v, like):
                    if isinstance(like, F):
                        return tof(v)
                    if isinstance(like, tuple):
                        return tuple(norm(x, y) for x, y in zip(v, like))
                    return v
                nxt = norm(nxt, proto)
                fl0, fl1 = [], []
                flat(st, fl0)
                flat(nxt, fl1)
                need = {}
                for n, ((k0, a), (k1, b)) in enumerate(zip(fl0, fl1)):
                    if k0 != k1 and {k0, k1} != {"i", "b"}:
                        raise Unsupported("fold changes kind")
                    if k0 == "f" and not is_z3(a.nan) and (is_z3(b.nan) or b.nan):
                        need[n] = True
                if not need:
                    break
                shape_nan = {**(shape_nan or {}), **need}
            fli = []
            flat(norm(init, proto), fli)
        finally:
            p.bound -= 1
        tmpl, inits, sv = [], [], []
        for (k0, a), (k1, b), (ki, i0), (x, xn) in zip(fl0, fl1, fli, svars):
            if k0 == "f":
                tmpl.append(zr(b.r))
                inits.append(zr(i0.r))
                sv.append(x)
                if xn is not None:
                    tmpl.append(zb(b.nan))
                    inits.append(zb(i0.nan))
                    sv.append(xn)
            elif k0 == "b":
                tmpl.append(zb(b)); inits.append(zb(i0)); sv.append(x)
            else:
                tmpl.append(zi(b)); inits.append(zi(i0)); sv.append(x)
        if not pv and all(z3.eq(z3.simplify(t), x) for t, x in zip(tmpl, sv)):
            const = norm(init, proto)        # a step that never changes anything

            def P0(k):
                return const
            P0.rd = None
            return P0
        text = "|".join(t.sexpr() for t in tmpl) + "#" + "|".join(t.sexpr() for t in inits) + "#" + str(lo)
        if "?q" in text or "?e" in text:
            raise Unsupported("fold under a quantifier")
        key = "rec!" + hashlib.sha256(text.encode()).hexdigest()[:12]
        if key not in self.recdefs:
            dom = [z3.IntSort()] * (1 + len(pv))
            fns = [z3.Function("%s.%d" % (key, n), *dom, t.sort()) for n, t in enumerate(tmpl)]
            self.recdefs[key] = RecDef(key, fns, lo, inits, tmpl, sv, kv, pv)
        rd = self.recdefs[key]

        def P(k, *par):
            k = zi(k)
            args = (k,) + tuple(zi(x) for x in par)
            it = iter(rd.fns)

            def build(v, n=[0]):
                if isinstance(v, F):
                    f = next(it)
                    x, xn = svars[n[0]]
                    n[0] += 1
                    return F(f(*args), next(it)(*args) if xn is not None else False)
                if isinstance(v, tuple):
                    return tuple(build(x, n) for x in v)
                n[0] += 1
                return next(it)(*args)
            return build(proto, [0])
        P.rd = rd
        return P

    # ------------------------------------------------------------- exploration
    def run(self):
        t0 = time.time()
        for attempt in range(60):
            try:
                self._explore()
                break
            except Restart:
                continue
        else:
            self.errors.append("no stable set of loop effects after %d attempts" % (attempt + 1))
        self.explore_time = time.time() - t0
        return self

    def _explore(self):
        self.obls, self.order, self.trivials = {}, [], {}
        self.work = [[]]
        self.paths = 0
        self.ended = {"return": 0, "raise": 0, "cut": 0}
        self.errors = []
        self.reached = set()
        while self.work:
            prefix = self.work.pop()
            self.paths += 1
            if self.paths > self.c.max_paths:
                self.errors.append("more than %d paths" % self.c.max_paths)
                return
            if time.time() > self.t_end:
                self.errors.append("generation time budget exceeded after %d paths" % self.paths)
                return
            self.dirty = False
            try:
                try:
                    self._path(prefix)
                finally:
                    if self.dirty:
                        raise Restart()
            except Restart:
                raise
            except Unsupported as e:
                self.errors.append("unsupported: %s" % e)
                if len(self.errors) > 3:
                    return
            except SpecFork:
                self.errors.append("internal: stray speculation")
                return
            except (KeyError, AttributeError, TypeError, IndexError, ValueError, z3.Z3Exception, AssertionError,
                    RecursionError) as e:
                self.errors.append("generator error: %s: %s @ %s" % (
                    type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3:]))
                if len(self.errors) > 3:
                    return

    def _path(self, prefix):
        self.path_stores = []
        self._cnt = {}
        self._bound = 0
        p = Path(self, prefix)
        V._ctx[0] = p
        ex = Exec(self, p)
        self.ex = ex
        c = self.c
        try:
            if c.module == "lemma":
                a = NS({k: s.make(ex, k) for k, s in c.params.items()})
                a.old = a
                if c.pre is not None:
                    c.pre(self.spec("assume", p), a)
                if not p.feasible():
                    raise PathEnd()
                self.ended["return"] += 1
                c.post(self.spec("prove", p), a, None)
                return
            node = func_ast(self.fn)
            anames = [x.arg for x in node.args.posonlyargs + node.args.args]
            if node.args.vararg is not None:
                anames.append(node.args.vararg.arg)
            unknown = [k for k in c.params if k not in anames]
            if unknown:
                raise Unsupported("parameters %s are not in the current signature" % unknown)
            env = {}
            args = {k: s.make(ex, k) for k, s in c.params.items()}
            missing = [n for n in anames if n not in args]
            defaults = dict(zip([x.arg for x in node.args.args][len(node.args.args) - len(self.fn.__defaults__ or ()):],
                                self.fn.__defaults__ or ()))
            for n in anames:
                if n in args:
                    env[n] = args[n]
                elif n in defaults:
                    env[n] = ex.wrap_global(defaults[n])
                elif node.args.vararg is not None and n == node.args.vararg.arg:
                    env[n] = ()
                else:
                    raise Unsupported("no specification for parameter %s" % n)
            fr = Frame(self.fn, node, env, contract=c, rename=self.rename_map(node))
            ex.top = fr
            snap = {k: (v.snapshot() if isinstance(v, (Arr, RecArr, RecRef)) else v) for k, v in env.items()}
            snap2 = {k: _deep_snapshot(v) for k, v in env.items()}
            fr.old = NS(snap2)
            p.args = {k: snap2[k] for k in anames}
            a = NS(dict(env))
            a.old = fr.old
            if c.pre is not None:
                S = self.spec("assume", p)
                S.every = "pre" in c.every
                c.pre(S, a)
            if not p.feasible():
                raise PathEnd()
            if c.ghosts is not None:
                env.update(c.ghosts(self.spec("assume", p), a))
            try:
                res = ex.run_body(fr)
            except RaiseExc as e:
                if e.name in c.raises:
                    cond = c.raises[e.name](self.spec("prove", p), a)
                    p.oblige("raises:" + e.name, cond, None, "raise")
                    self.ended["raise"] += 1
                else:
                    self.ended["cut"] += 1
                    p.oblige("no-exception:" + e.name, False, None, "raise")
                return
            # parameters are the objects passed in, even if the locals were re-bound
            a = NS(dict(args, **{k: v for k, v in env.items() if k not in args}))
            for k in anames:
                setattr(a, k, args.get(k, snap.get(k)))
            a.old = fr.old
            self.ended["return"] += 1
            if c.hints is not None:
                # lemmas over the locals and callee results, each an obligation of its own, for what follows
                S = self.spec("prove", p)
                S.as_pre = True
                c.hints(S, View(fr), p.results, res)
            if c.functional is not None:
                want = c.functional(self.spec("assume", p), a)
                S = self.spec("prove", p)
                S.ensure("functional", self.same(S, res, want))
            if c.post is not None:
                c.post(self.spec("prove", p), a, res)
            self.check_frame(p, a, c)
        except PathEnd:
            self.ended["cut"] += 1

    def rename_map(self, node):
        """Names the invariants use that the current text does not bind, matched by order of first assignment."""
        base = self.c.names
        if not base:
            return {}
        curn = []
        for n in assigned_names(node.body):
            curn.append(n)
        params = {x.arg for x in node.args.args}
        missing = [b for b in base if b not in curn and b not in params]
        extra = [x for x in curn if x not in base and x not in params]
        return dict(zip(missing, extra)) if missing and len(missing) == len(extra) else {}

    def same(self, S, a, b):
        if isinstance(b, tuple) and not isinstance(a, NT):
            if not isinstance(a, tuple) or len(a) != len(b):
                return False
            return b_and(*[self.same(S, x, y) for x, y in zip(a, b)])
        if isinstance(b, NT):
            if not isinstance(a, NT) or set(a.f) != set(b.f):
                return False
            return b_and(*[self.same(S, a.f[k], b.f[k]) for k in b.f])
        if (a is None) != (b is None):
            return False
        return S.eq(a, b)

    def check_frame(self, p, a, c):
        """Arrays not listed under modifies are unchanged."""
        roots = {m.split(".")[0] for m in c.modifies}
        for k, v in vars(a.old).items():
            if k in roots:
                continue
            cur_v = getattr(a, k)
            for path, o, n in _arrays(k, v, cur_v):
                if o.snap is n.store.get:
                    self.trivial(p, "frame:" + path, None, "frame")
                else:
                    idx = tuple(z3.Int("?f%d" % d) for d in range(o.ndim))
                    rng = b_and(*[b_and(ile(0, x), ilt(x, m)) for x, m in zip(idx, o.shape)])
                    S = self.spec("prove", p)
                    p.oblige("frame:" + path, b_implies(rng, S.eq(n.at(*idx), o.at(*idx))), None, "frame")


def _deep_snapshot(v):
    if isinstance(v, (Arr, RecArr, RecRef)):
        return v.snapshot()
    if isinstance(v, NT):
        return NT(v.cls, {k: _deep_snapshot(x) for k, x in v.f.items()})
    if isinstance(v, tuple):
        return tuple(_deep_snapshot(x) for x in v)
    return v


def _arrays(name, old, new):
    if isinstance(old, Arr):
        yield name, old, new
    elif isinstance(old, RecArr):
        for k in old.fields:
            yield name + "." + k, old.fields[k], new.fields[k]
    elif isinstance(old, RecRef):
        for k in old.arr.fields:
            yield name + "." + k, old.arr.fields[k], new.arr.fields[k]
    elif isinstance(old, NT):
        for k in old.f:
            yield from _arrays(name + "." + k, old.f[k], new.f[k])
    elif isinstance(old, tuple):
        for i, x in enumerate(old):
            yield from _arrays("%s.%d" % (name, i), x, new[i])


# ------------------------------------------------------------------------------------------------- solving
def ground_apps(fs, names):
    out, seen = {}, set()
    todo = list(fs)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() >= 1:
                n = d.name()
                if n in names and not _has_var(x):
                    out[(names[n],) + tuple(a.get_id() for a in x.children())] = tuple(x.children())
            todo.extend(x.children())
    return out


def _has_var(x):
    todo, seen = [x], set()
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_var(y):
            return True
        todo.extend(y.children())
    return False


def instantiated(g, pos=True):
    """The goal with its outermost universal quantifiers replaced by fresh constants (equivalid)."""
    if z3.is_quantifier(g):
        if g.is_forall() == pos and not g.is_lambda():
            cs = [z3.FreshConst(g.var_sort(i), "sk") for i in range(g.num_vars())]
            return instantiated(z3.substitute_vars(g.body(), *reversed(cs)), pos)
        return g
    if z3.is_app(g):
        k = g.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            f = z3.And if k == z3.Z3_OP_AND else z3.Or
            return f(*[instantiated(c, pos) for c in g.children()])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(instantiated(g.arg(0), not pos), instantiated(g.arg(1), pos))
        if k == z3.Z3_OP_NOT:
            return z3.Not(instantiated(g.arg(0), not pos))
    return g


def unfold(fs, recdefs, depth=2):
    """Ground instances of the defining equations of the recursive spec functions that occur in fs."""
    if not recdefs:
        return []
    names = {}
    for rd in recdefs.values():
        for f in rd.fns:
            names[f.name()] = rd.key
    done, out = set(), []
    frontier = list(fs)
    for _ in range(depth):
        apps = ground_apps(frontier, names)
        frontier = []
        for tid, ts in apps.items():
            if tid in done:
                continue
            done.add(tid)
            rd = recdefs[tid[0]]
            t, par = ts[0], ts[1:]
            tm = z3.simplify(t - 1)
            sub = [(rd.kvar, tm)]
            sub += list(zip(rd.pvar, par))
            for v, f in zip(rd.svars, rd.fns):
                sub.append((v, f(tm, *par)))
            lo = zi(rd.lo)
            eqs, base = [], []
            for f, tmpl, i0 in zip(rd.fns, rd.tmpl, rd.init):
                eqs.append(f(t, *par) == z3.substitute(tmpl, *sub))
                base.append(f(t, *par) == (z3.substitute(i0, *zip(rd.pvar, par)) if par else i0))
            ax = z3.And(z3.Implies(t <= lo, z3.And(*base)), z3.Implies(t > lo, z3.And(*eqs)))
            out.append(ax)
            frontier.append(ax)
        if not frontier:
            break
    return out


_sk = [0]


def split_goal(goal, hyps):
    """Decompose a goal into (hyps, atomic goal) pairs: conjunctions, implications, universal quantifiers."""
    if z3.is_and(goal):
        for c in goal.children():
            yield from split_goal(c, hyps)
        return
    if z3.is_implies(goal):
        yield from split_goal(goal.arg(1), hyps + [goal.arg(0)])
        return
    if z3.is_or(goal):
        qs = [c for c in goal.children() if z3.is_quantifier(c) and c.is_forall()]
        if len(qs) == 1:
            rest = [c for c in goal.children() if not c.eq(qs[0])]
            yield from split_goal(qs[0], hyps + [z3.Not(c) for c in rest])
            return
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = []
        for k in range(goal.num_vars()):
            _sk[0] += 1
            vs.append(z3.Const("sk!%s!%d" % (goal.var_name(k).strip("?"), _sk[0]), goal.var_sort(k)))
        yield from split_goal(z3.substitute_vars(goal.body(), *reversed(vs)), hyps)
        return
    yield hyps, goal


def flatten(hyps):
    out = []
    for h in hyps:
        if z3.is_and(h):
            out.extend(flatten(h.children()))
        else:
            out.append(h)
    return out


def solve_one(hyps, goal, recdefs, timeout=8000, depth=2, want_model=True):
    """(status, model, solver name, seconds): status is 'unsat' (proved), 'sat' or 'unknown'."""
    if recdefs and _has_quant_(goal):
        goal = instantiated(goal)
    fs = flatten(hyps) + [z3.Not(goal)]
    ax = unfold(fs, recdefs, depth)
    fs = fs + ax
    quant = any(_has_quant_(f) for f in fs)
    t0 = time.time()
    tries = []
    if not quant and not ax and not _has_uf(fs):
        tries.append(("z3-default", lambda: z3.Solver(), 1500))
        tries.append(("z3-nlsat", lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "qfnra-nlsat").solver()
                      if not _has_int(fs) else z3.Solver(), timeout))
        tries.append(("z3-default-long", lambda: z3.Solver(), timeout))
    else:
        tries.append(("z3-default", lambda: z3.Solver(), timeout if not quant else max(1000, timeout // 4)))
        if quant:
            def nombqi():
                s = z3.Solver()
                s.set("smt.mbqi", False)
                s.set("auto_config", False)
                return s
            tries.insert(0, ("z3-ematch", nombqi, timeout))
    last = "unknown"
    model = None
    for name, mk, to in tries:
        s = mk()
        try:
            s.set("timeout", int(to))
        except z3.Z3Exception:
            pass
        for f in fs:
            s.add(f)
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return "unsat", None, name, time.time() - t0
        if r == z3.sat:
            return "sat", s.model(), name, time.time() - t0
        if want_model and model is None:
            try:
                model = s.model()
            except z3.Z3Exception:
                pass
    st = cvc5_check(fs, timeout)
    if st == "unsat":
        return "unsat", None, "cvc5", time.time() - t0
    return last, model, "z3+cvc5", time.time() - t0


def solve_again(hyps, goal, recdefs, timeout, t_end):
    """A second attempt at a goal no solver answered in time: longer limits, other seeds, other tactics."""
    import time as _t
    if recdefs and _has_quant_(goal):
        goal = instantiated(goal)
    base = flatten(hyps) + [z3.Not(goal)]
    for depth in (2, 3):
        fs = base + unfold(base, recdefs, depth)
        if depth == 3 and len(fs) == len(base):
            break
        for seed, mbqi, arith, to in ((7, False, None, timeout), (23, False, 2, timeout), (101, True, None, timeout), (0, False, 6, 3 * timeout)):
            left = t_end - _t.time()
            if left < 1:
                return None
            s = z3.Solver()
            s.set("timeout", int(min(to, 1000 * left)))
            s.set("smt.random_seed", seed)
            if not mbqi:
                s.set("smt.mbqi", False)
                s.set("auto_config", False)
            if arith is not None:
                s.set("smt.arith.solver", arith)
            for f in fs:
                s.add(f)
            try:
                if s.check() == z3.unsat:
                    return "z3-again"
            except z3.Z3Exception:
                pass
        if not any(_has_quant_(f) for f in fs) and not _has_uf(fs) and not _has_int(fs):
            s = z3.Then("simplify", "propagate-values", "solve-eqs", "qfnra-nlsat").solver()
            s.set("timeout", int(2 * timeout))
            for f in fs:
                s.add(f)
            try:
                if s.check() == z3.unsat:
                    return "z3-again"
            except z3.Z3Exception:
                pass
        if cvc5_check(fs, 2 * timeout) == "unsat":
            return "cvc5-again"
    return None


def prove_linear(hyps, goal, recdefs, timeout, depth=2):
    """First attempt with the products left uninterpreted (only sound answers count: unsat)."""
    fs = flatten(hyps) + [z3.Not(goal)]
    fs = fs + unfold(fs, recdefs, depth)
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.set("smt.mbqi", False)
    s.set("auto_config", False)
    for f in fs:
        s.add(f)
    try:
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


def discharge(eng, timeout=8000, t_end=None, want_model=True, props=None, park=None, only=None):
    """Solve every obligation (or those tagged with props, or untagged; or only the given ones), except those that
    park(obligation) sets aside; yields (obligation, failures, solver names, seconds)."""
    groups = {}
    for k in eng.order:
        o = eng.obls[k]
        if props is not None and o.props and not set(o.props.split()) & props:
            continue
        if only is not None and id(o) not in only:
            continue
        groups.setdefault((tuple(h.get_id() for h in o.hyps), len(o.defs)), []).append(o)
    for obls in groups.values():
        hyps, defs = obls[0].hyps, obls[0].defs
        fl = flatten(hyps)
        ground = not eng.recdefs and not any(_has_quant_(f) for f in fl)
        bases = []

        def base(n):
            while len(bases) <= n:
                s = z3.Solver()
                s.set("timeout", 250 if len(bases) == 0 else 600)
                for f in fl + (defs if len(bases) else []):
                    s.add(f)
                bases.append(s)
            return bases[n]
        for o in obls:
            if park is not None and park(o):
                continue
            t0 = time.time()
            bad, names = [], []
            for h, g in split_goal(o.goal, []):
                if t_end is not None and time.time() > t_end:
                    bad.append(("unknown", None, hyps + defs + h, g))
                    names.append("out-of-time")
                    continue
                done = False
                if ground and not any(_has_quant_(f) for f in h) and not _has_quant_(g):
                    for n in (0, 1) if defs else (0,):
                        s = base(n)
                        s.push()
                        for f in h:
                            s.add(f)
                        s.add(z3.Not(g))
                        try:
                            r = s.check()
                            m = s.model() if r == z3.sat else None
                        except z3.Z3Exception:
                            r = z3.unknown
                        s.pop()
                        if r == z3.unsat:
                            names.append("z3-inc%d" % n)
                            done = True
                            break
                        if r == z3.sat and (n == 1 or not defs):
                            bad.append(("sat", m, hyps + defs + h, g))
                            names.append("z3-inc%d" % n)
                            done = True
                            break
                if done:
                    continue
                if defs and prove_linear(hyps + h, g, eng.recdefs, timeout // 2):
                    names.append("z3-linear")
                    continue
                st, m, n, dt = solve_one(hyps + defs + h, g, eng.recdefs, timeout=timeout, want_model=want_model)
                names.append(n)
                if st != "unsat":
                    bad.append((st, m, hyps + defs + h, g))
            yield o, bad, names, time.time() - t0


def cvc5_check(fs, timeout):
    import subprocess
    s = z3.Solver()
    for f in fs:
        s.add(f)
    text = s.to_smt2()
    text = "(set-logic ALL)\n" + text
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % timeout, "-q"], input=text, capture_output=True,
                           text=True, timeout=timeout / 1000 + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"


def _has_quant_(f):
    from .engine import _has_quant
    return _has_quant(f)


def _scan(fs, pred):
    todo, seen = list(fs), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if pred(x):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def _has_uf(fs):
    return _scan(fs, lambda x: z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED)


def _has_int(fs):
    return _scan(fs, lambda x: z3.is_expr(x) and z3.is_int(x) if not z3.is_quantifier(x) else True)

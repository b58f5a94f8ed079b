"""The specification language, with two back ends: symbolic (prove / assume) and concrete (evaluate, three-valued)."""
import math
import z3
import numpy as np

from .values import *
from . import values as V


class Inconclusive(Exception):
    pass


REL, ABS = 1e-7, 1e-9


class SymS:
    symbolic = True
    nan = V.NAN
    inf = V.PINF

    def __init__(self, eng, path, mode, prefix="", kind="post"):
        self.eng, self.p, self.mode, self.prefix, self.kind = eng, path, mode, prefix, kind
        self.as_pre = False
        self.guards = []
        self.every = False        # assume `each` clauses for all indices, not for the arbitrary one alone
        self.collect = None

    @property
    def calls(self):
        return self.p.calls

    # -- clauses
    def ensure(self, label, f, props=None, lemma=False, hide=False):
        """hide: proved, but not made available to what follows."""
        if f is None:
            return
        if hide and self.mode != "prove":
            return
        if self.collect is not None:
            self.collect.append(f)
            return
        if self.guards:
            f = b_implies(b_and(*self.guards), f)
            if f is True:
                return
        if self.mode == "prove":
            self.p.oblige((self.prefix + ":" if self.prefix else "") + label, f, props, self.kind)
            if lemma or self.as_pre or self.kind.startswith("inv"):
                # proved here in its own right (untagged), hence available to what follows
                if lemma or self.as_pre:
                    self.p.assume(f)
        else:
            self.p.assume(f)

    def require(self, f, label="pre"):
        if isinstance(f, str):
            f, label = label, f
        self.ensure(label, f)

    def instance(self, name, *idx):
        """An instance of a precondition of the contract that holds for all indices."""
        self.p.assume(self.eng.c.schemas[name](self, self.entry_args(), *idx))

    def entry_args(self):
        class A:
            pass
        a = A()
        a.__dict__.update(self.p.args)
        return a

    def arb(self, name):
        return self.p.arb(name)

    def split(self, c):
        return self.p.branch(c)

    def name(self, x, tag="spec"):
        return self.eng.ex.named(tag, x)

    def hint(self, fn):
        """Mention terms so that the solver instantiates facts about them."""

    def induct(self, label, lo, hi, fn, props=None, every=False):
        """A lemma by induction on k: fn(lo), and fn(k) gives fn(k+1); afterwards fn(hi) is known (every: fn of all k in lo..hi)."""
        p = self.p
        k = z3.Int(p.fresh_name("?ind"))
        g = b_and(*self.guards)
        p.oblige("lemma " + label + "/base", b_implies(g, fn(lo)), props, "lemma")
        p.oblige("lemma " + label + "/step", b_implies(b_and(g, ile(lo, k), ilt(k, hi), fn(k)), fn(iadd(k, 1))), props, "lemma")
        p.assume(b_implies(b_and(g, ile(lo, hi)), fn(hi)))
        if every:
            p.assume(b_implies(g, self.forall(lo, iadd(hi, 1), fn)))

    def each(self, name, lo, hi, fn):
        """fn(K) for every K in [lo, hi): stated for one arbitrary, fixed K."""
        if self.every and self.mode == "assume":
            def body(k):
                old, self.collect = self.collect, []
                try:
                    fn(k)
                    return b_and(*self.collect)
                finally:
                    self.collect = old
            f = self.forall(lo, hi, body)
            if f is not True:
                self.ensure("each", f)
            if self.collect is not None:
                return
        K = self.p.arb(name)
        self.guards.append(b_and(ile(lo, K), ilt(K, hi)))
        try:
            if simp(self.guards[-1]) is not False:
                fn(K)
        finally:
            self.guards.pop()

    # -- logic
    def and_(self, *xs):
        return b_and(*xs)

    def or_(self, *xs):
        return b_or(*xs)

    def not_(self, x):
        return b_not(x)

    def implies(self, a, b):
        return b_implies(a, b)

    def iff(self, a, b):
        return b_iff(a, b)

    def ite(self, c, a, b):
        return ite(c, a, b)

    # -- comparison
    def _f(self, a, b):
        return isinstance(a, (F, float)) or isinstance(b, (F, float)) or (is_z3(a) and z3.is_real(a)) \
            or (is_z3(b) and z3.is_real(b))

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, NT):
            return b_and(*[self.eq(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, tuple):
            return b_and(*[self.eq(x, y) for x, y in zip(a, b)])
        if self._f(a, b):
            return fsame(tof(a), tof(b))
        if is_boolv(a) and is_boolv(b):
            return b_iff(a, b)
        return ieq(a, b)

    def ne(self, a, b):
        return b_not(self.eq(a, b))

    def lt(self, a, b):
        return flt(tof(a), tof(b)) if self._f(a, b) else ilt(a, b)

    def le(self, a, b):
        return fle(tof(a), tof(b)) if self._f(a, b) else ile(a, b)

    def gt(self, a, b):
        return self.lt(b, a)

    def ge(self, a, b):
        return self.le(b, a)

    def between(self, lo, x, hi):
        """lo <= x < hi on integers."""
        return b_and(ile(lo, x), ilt(x, hi))

    def isnan(self, x):
        return tof(x).nan

    def isinf(self, x):
        return tof(x).inf

    def isfin(self, x):
        x = tof(x)
        return b_and(b_not(x.nan), b_not(x.inf))

    def ispinf(self, x):
        x = tof(x)
        return b_and(x.inf, V._gt0(x.r))

    def isninf(self, x):
        x = tof(x)
        return b_and(x.inf, b_not(V._gt0(x.r)))

    # -- arithmetic
    def f(self, x):
        return tof(x)

    def nan_to(self, x, d):
        return V.nan_to(tof(x), Fraction(d))

    def abs(self, x):
        if is_int(x):
            return abs(x) if not is_z3(x) else z3.If(x >= 0, x, -x)
        x = tof(x)
        return ite(fle(ZERO, x), x, fneg(x))

    def min(self, a, b):
        return ite(self.le(a, b), a, b)

    def max(self, a, b):
        return ite(self.ge(a, b), a, b)

    def div(self, a, b):
        return fdiv(tof(a), tof(b))

    def ieee_div(self, a, b):
        return V.fdiv_ieee(tof(a), tof(b))

    def sqrt(self, a):
        return self.eng.ex.sqrt(tof(a))

    def pow(self, a, b):
        return self.eng.ex.power(tof(a), b if isinstance(b, int) else tof(b))

    def sign(self, x):
        x = tof(x)
        return ite(fle(ZERO, x), ite(flt(ZERO, x), F(Fraction(1)), ZERO), F(Fraction(-1)))

    def i(self, b):
        """0/1 of a Boolean."""
        return zi(b) if is_z3(b) else int(b)

    def is_multiple(self, x, g):
        x, g = tof(x), tof(g)
        if self.p.floors:
            # integers the code obtained by rounding down serve as witnesses
            return b_or(x.r == 0 if is_z3(x.r) else x.r == 0,
                        *[zr(x.r) == zr(V._rop("*", z3.ToReal(k), g.r)) for k in self.p.floors])
        q = zr(x.r) / zr(g.r)
        return z3.ToReal(z3.ToInt(q)) == q

    def close(self, a, b, rel=Fraction(1, 10 ** 9), ab=Fraction(1, 10 ** 12)):
        """The exact closeness predicate |a-b| <= max(rel*max(|a|,|b|), ab), as a formula."""
        a, b = tof(a), tof(b)
        if (not is_z3(a.nan) and a.nan) or (not is_z3(b.nan) and b.nan) or (not is_z3(a.inf) and a.inf) or \
                (not is_z3(b.inf) and b.inf):
            return False
        g = b_and(b_not(a.nan), b_not(b.nan), b_not(a.inf), b_not(b.inf))
        x, y = zr(a.r), zr(b.r)
        d = x - y
        rel, ab = z3.RealVal(str(rel)), z3.RealVal(str(ab))

        def within(t):
            return z3.And(d <= t, -t <= d)
        return b_and(g, z3.Or(within(ab), within(rel * x), within(-rel * x), within(rel * y), within(-rel * y)))

    # -- arrays
    def len(self, a, k=0):
        if isinstance(a, (tuple, list)):
            return len(a)
        return a.shape[k]

    def same_array(self, a, b, label=None):
        """a and b agree everywhere (same shape assumed)."""
        if a.ndim == 1:
            return self.forall(0, a.shape[0], lambda k: self.eq(a[k], b[k]))
        return self.forall(0, a.shape[0], lambda i: self.forall(0, a.shape[1], lambda j: self.eq(a[i, j], b[i, j])))

    def cached(self, d, keys, fn):
        """fn(key, value) for every entry of the dictionary: stated for its arbitrary key."""
        if d.present is False:
            return
        self.guards.append(d.present)
        try:
            fn(d.key.comps, d.value)
        finally:
            self.guards.pop()

    def holds(self, d, key):
        """The dictionary has the key."""
        h = V.HashV(key if isinstance(key, tuple) else (key,))
        if d.key is None:
            return False
        return b_implies(d.key.same(h), d.present)

    def rev(self, a):
        """a[::-1]"""
        m = {k: ("dim", k, 0, 1) for k in range(1, a.ndim)}
        m[0] = ("dim", 0, isub(a.shape[0], 1), -1)
        return V.compose_view(a, m, a.shape)

    def col(self, a, c):
        return V.compose_view(a, {0: ("dim", 0, 0, 1), 1: ("fix", c)}, (a.shape[0],))

    # -- quantifiers
    def forall(self, lo, hi, fn, pats=None):
        p = self.p
        k = z3.Int("?q%d" % p.eng.next_bound())
        p.bound += 1
        try:
            body = fn(k)
            pt = [zb_(t) for t in pats(k)] if pats else None
        finally:
            p.bound -= 1
        body = b_implies(b_and(ile(lo, k), ilt(k, hi)), body)
        if not is_z3(body):
            return body
        if pt:
            return z3.ForAll([k], body, patterns=pt)
        ps = infer_patterns(body, [k])
        return z3.ForAll([k], body, patterns=ps) if ps else z3.ForAll([k], body)

    def forall2(self, lo1, hi1, lo2, hi2, fn, guard=None):
        """For all i in [lo1,hi1), j in [lo2(i),hi2(i)); the bounds of j may be functions of i."""
        p = self.p
        n = p.eng.next_bound()
        i, j = z3.Int("?q%di" % n), z3.Int("?q%dj" % n)
        p.bound += 1
        try:
            l2 = lo2(i) if callable(lo2) else lo2
            h2 = hi2(i) if callable(hi2) else hi2
            body = fn(i, j)
        finally:
            p.bound -= 1
        body = b_implies(b_and(ile(lo1, i), ilt(i, hi1), ile(l2, j), ilt(j, h2)), body)
        if not is_z3(body):
            return body
        ps = infer_patterns(body, [i, j])
        return z3.ForAll([i, j], body, patterns=ps) if ps else z3.ForAll([i, j], body)

    def exists(self, lo, hi, fn):
        p = self.p
        k = z3.Int("?e%d" % p.eng.next_bound())
        p.bound += 1
        try:
            body = fn(k)
        finally:
            p.bound -= 1
        body = b_and(ile(lo, k), ilt(k, hi), body)
        return z3.Exists([k], body) if is_z3(body) else body

    # -- recursive spec functions
    def fold(self, init, step, lo=0):
        """P with P(k)=init for k<=lo and P(k+1)=step(P(k), k). Returns a function of k."""
        return self.p.eng.make_rec(self.p, init, step, lo)

    def foldp(self, init, step, lo=0, n=1):
        """The same with n parameters: P(k, p, ..), step(P(k, p, ..), k, p, ..)."""
        return self.p.eng.make_rec(self.p, init, step, lo, param=n)

    def over(self, a, init, fn):
        """Left fold of fn(s, x) over the elements of a 1-dim array (or of a selection by a mask)."""
        from .builtins_ import over
        return over(self.p.eng.ex, a, init, fn)

    def map(self, fn, *arrs):
        """The array of fn(x, y, ..) over the elements of the arrays."""
        return self.p.eng.ex.elementwise(lambda *t: tof(fn(*t)), *arrs)

    def map_mask(self, fn, *arrs):
        return self.p.eng.ex.elementwise(fn, *arrs, dtype="b")

    def select(self, a, mask):
        from .engine import MaskSel
        return MaskSel(a.snapshot(), mask, self.p.eng, self.p)

    def percentile(self, a, q):
        from .builtins_ import abstract_reduction
        return abstract_reduction(self.p.eng.ex, "percentile", a, q)

    def sum(self, fn, lo=0):
        return self.fold(V.ZERO, lambda s, k: s + tof(fn(k)), lo)

    def count(self, fn, lo=0):
        return self.fold(0, lambda s, k: iadd(s, self.i(fn(k))), lo)


def zb_(t):
    if isinstance(t, F):
        return t.r
    return t


def infer_patterns(body, vs):
    """Applications of uninterpreted functions whose arguments are exactly bound variables / ground terms."""
    ids = {v.get_id() for v in vs}
    cand = {}

    def has(t):
        todo = [t]
        while todo:
            x = todo.pop()
            if x.get_id() in ids:
                return True
            todo.extend(x.children())
        return False

    bad = (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)

    def unusable(t):
        """conditionals and formulas cannot occur in a pattern"""
        todo = [t]
        while todo:
            x = todo.pop()
            if z3.is_quantifier(x) or (z3.is_app(x) and x.decl().kind() in bad):
                return True
            todo.extend(x.children())
        return False

    def arith_over_bound(t):
        return t.get_id() not in ids and has(t)
    todo, seen = [body], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            if has(x) and not any(arith_over_bound(a) for a in x.children()) and not unusable(x):
                mine = frozenset(a.get_id() for a in x.children() if a.get_id() in ids)
                cand.setdefault(mine, []).append(x)
        todo.extend(x.children())
    full = frozenset(ids)
    if full in cand:
        return cand[full][:6]
    if len(vs) == 2:
        a, b = frozenset([vs[0].get_id()]), frozenset([vs[1].get_id()])
        if a in cand and b in cand:
            return [z3.MultiPattern(x, y) for x in cand[a][:2] for y in cand[b][:2]]
    return None


# ------------------------------------------------------------------------------------------------ concrete
def _num(x):
    return float(x)


class ConcS:
    """Three-valued evaluation on concrete values: True, False or None (within rounding tolerance)."""
    symbolic = False
    nan = float("nan")
    inf = float("inf")

    def __init__(self):
        self.results = []
        self.calls = []
        self.rejected = False

    def ensure(self, label, f, props=None, lemma=False, hide=False):
        self.results.append((label, f, props))

    def require(self, f, label="pre"):
        if isinstance(f, str):
            f, label = label, f
        self.results.append((label, f, None))

    def induct(self, label, lo, hi, fn, props=None, every=False):
        pass

    def each(self, name, lo, hi, fn):
        for K in range(int(lo), int(hi)):
            fn(K)

    def split(self, c):
        if c is None:
            raise Inconclusive()
        return bool(c)

    def name(self, x, tag="spec"):
        return x

    def hint(self, fn):
        pass

    def and_(self, *xs):
        r = True
        for x in xs:
            if x is None:
                r = None if r is not False else False
            elif not x:
                return False
        return r

    def or_(self, *xs):
        return self.not_(self.and_(*[self.not_(x) for x in xs]))

    def not_(self, x):
        return None if x is None else not x

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        if a is None or b is None:
            return None
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        if c is None:
            raise Inconclusive()
        return a if c else b

    def _close(self, a, b):
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= max(ABS, REL * max(abs(a), abs(b)))

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, tuple):
            return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            a, b = _num(a), _num(b)
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            if a == b:
                return True
            return None if self._close(a, b) else False
        return bool(a == b)

    def ne(self, a, b):
        return self.not_(self.eq(a, b))

    def lt(self, a, b):
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            a, b = _num(a), _num(b)
            if math.isnan(a) or math.isnan(b):
                return False
            if a == b:
                return False
            if self._close(a, b):
                return None
            return a < b
        return bool(a < b)

    def le(self, a, b):
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            a, b = _num(a), _num(b)
            if math.isnan(a) or math.isnan(b):
                return False
            if a == b:
                return True
            if self._close(a, b):
                return None
            return a < b
        return bool(a <= b)

    def gt(self, a, b):
        return self.lt(b, a)

    def ge(self, a, b):
        return self.le(b, a)

    def between(self, lo, x, hi):
        return bool(lo <= x < hi)

    def isnan(self, x):
        return math.isnan(x)

    def isinf(self, x):
        return math.isinf(x)

    def isfin(self, x):
        return math.isfinite(x)

    def ispinf(self, x):
        return x == math.inf

    def isninf(self, x):
        return x == -math.inf

    def f(self, x):
        return float(x)

    def nan_to(self, x, d):
        return d if math.isnan(x) else x

    def abs(self, x):
        return abs(x)

    def min(self, a, b):
        return a if a <= b else b

    def max(self, a, b):
        return a if a >= b else b

    def div(self, a, b):
        if b == 0:
            raise Inconclusive()
        return float(a) / float(b)

    def ieee_div(self, a, b):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))

    def sqrt(self, a):
        return math.sqrt(a) if a >= 0 else float("nan")

    def pow(self, a, b):
        with np.errstate(all="ignore"):
            return float(np.power(np.float64(a), float(b)))

    def sign(self, x):
        return float((x > 0) - (x < 0))

    def i(self, b):
        if b is None:
            raise Inconclusive()
        return int(b)

    def is_multiple(self, x, g):
        q = float(x) / float(g)
        d = abs(q - round(q))
        if d == 0:
            return True
        return None if d < 1e-6 * max(1, abs(q)) else False

    def close(self, a, b, rel=1e-9, ab=1e-12):
        if not (math.isfinite(a) and math.isfinite(b)):
            return False
        if a == b:
            return True
        d, t = abs(a - b), max(rel * max(abs(a), abs(b)), ab)
        if d <= t / 2:
            return True
        if d >= t * 4:
            return False
        return None

    def len(self, a, k=0):
        return a.shape[k] if hasattr(a, "shape") else len(a)

    def same_array(self, a, b, label=None):
        if a.shape != b.shape:
            return False
        r = True
        for x, y in zip(a.ravel(), b.ravel()):
            r = self.and_(r, self.eq(x, y))
        return r

    def cached(self, d, keys, fn):
        for k in keys:
            if hash(k) in d:
                fn(k if isinstance(k, tuple) else (k,), d[hash(k)])

    def holds(self, d, key):
        return hash(key) in d

    def rev(self, a):
        return a[::-1]

    def col(self, a, c):
        return a[:, c]

    def forall(self, lo, hi, fn, pats=None):
        r = True
        for k in range(int(lo), int(hi)):
            r = self.and_(r, fn(k))
            if r is False:
                return False
        return r

    def forall2(self, lo1, hi1, lo2, hi2, fn, guard=None):
        return self.forall(lo1, hi1, lambda i: self.forall(lo2(i) if callable(lo2) else lo2,
                                                           hi2(i) if callable(hi2) else hi2, lambda j: fn(i, j)))

    def exists(self, lo, hi, fn):
        r = False
        for k in range(int(lo), int(hi)):
            r = self.or_(r, fn(k))
            if r is True:
                return True
        return r

    def fold(self, init, step, lo=0):
        memo = {lo: init}

        def P(k):
            k = int(k)
            if k <= lo:
                return init
            if k not in memo:
                j = k
                while j > lo and j not in memo:
                    j -= 1
                s = memo[j]
                while j < k:
                    s = step(s, j)
                    j += 1
                    memo[j] = s
            return memo[k]
        return P

    def foldp(self, init, step, lo=0, n=1):
        memo = {}

        def P(k, *p):
            if p not in memo:
                memo[p] = self.fold(init, lambda s, j: step(s, j, *p), lo)
            return memo[p](k)
        return P

    def over(self, a, init, fn):
        for x in a:
            init = fn(init, x)
        return init

    def map(self, fn, *arrs):
        return np.array([fn(*t) for t in zip(*arrs)], dtype=float)

    def map_mask(self, fn, *arrs):
        return np.array([fn(*t) for t in zip(*arrs)], dtype=bool)

    def select(self, a, mask):
        return a[mask]

    def percentile(self, a, q):
        s = sorted(float(x) for x in a)          # linear interpolation between the two neighbours
        t = (len(s) - 1) * q / 100
        i = min(int(t), len(s) - 1)
        j = min(i + 1, len(s) - 1)
        return s[i] + (s[j] - s[i]) * (t - i)

    def sum(self, fn, lo=0):
        return self.fold(0.0, lambda s, k: s + fn(k), lo)

    def count(self, fn, lo=0):
        return self.fold(0, lambda s, k: s + self.i(fn(k)), lo)

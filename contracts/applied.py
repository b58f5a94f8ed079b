"""C15, C16, C23: functions that apply a user function (vectorbt/generic/nb.py): which slice it gets, and where its result goes.

The user function is arbitrary: an uninterpreted function of the indices it is called with. Each call obliges the array it is
given to be exactly the slice the contract names, and the further arguments to be passed on."""
from .generic import *
from .windows import win_lo, the_minp
from .records import zi_

EXTRA = dict(args=Tup(Float("fin")))


class Applied:
    """An arbitrary function called with nidx indices, one slice, and the extra arguments.
    want(A, idx) gives the slice: (lengths, element function)."""

    def __init__(self, name, nidx, want, length=None, scalar=False):
        import z3
        self.name, self.nidx, self.want, self.length, self.scalar = name, nidx, want, length, scalar
        dom = [z3.IntSort()] * (nidx + (1 if length else 0))
        self.f = z3.Function(name, *dom, z3.RealSort())
        self.nan = z3.Function(name + ".nan", *dom, z3.BoolSort())

    def sym(self, ex, args):
        import z3
        from pyvc.values import F, b_and, b_implies, ile, ilt, ieq, fsame
        A = ex.p.args
        idx, x, rest = args[:self.nidx], args[self.nidx], args[self.nidx + 1:]
        extra = A.get("args", A.get("apply_args", ()))
        ex.p.oblige("further arguments are passed on", b_and(len(rest) == len(extra), *[fsame(tof(p), tof(q)) for p, q in zip(rest, extra)]), None)
        dims, at = self.want(NSp(**A), idx)
        if self.scalar:
            ex.p.oblige("called with the element", fsame(tof(x), tof(at())), None)
        else:
            if x.ndim != len(dims):
                ex.p.oblige("called with a slice of that many dimensions", False, None)
            ex.p.oblige("called with a slice of the right size", b_and(*[ieq(m, n) for m, n in zip(x.shape, dims)]), None)
            ks = [z3.Int(ex.p.fresh_name("?r")) for _ in dims]
            ex.p.oblige("called with the right elements in order", b_implies(b_and(*[b_and(ile(0, k), ilt(k, n)) for k, n in zip(ks, dims)]), fsame(
                tof(x.at(*ks)), tof(at(*ks)))), None)
        zs = [zi_(i) for i in idx]
        if self.length is None:
            return F(self.f(*zs), self.nan(*zs))
        from pyvc.builtins_ import alloc
        return alloc(ex, self.name, "f", (self.length(NSp(**A)),), lambda i: F(self.f(*zs, zi_(i[0])), self.nan(*zs, zi_(i[0]))))

    def at(self, S, fn, a, *idx, k=None):
        """the value the function returns for these indices"""
        from pyvc.values import F
        if S.symbolic:
            zs = [zi_(i) for i in idx] + ([zi_(k)] if k is not None else [])
            return F(self.f(*zs), self.nan(*zs))
        dims, at = self.want(a, idx)
        if self.scalar:
            r = fn(*idx, at(), *extra_args(a))
        else:
            x = np.empty(tuple(int(d) for d in dims))
            for t in np.ndindex(*x.shape):
                x[t] = at(*t)
            r = fn(*idx, x, *extra_args(a))
        return r if k is None else r[k]


def extra_args(a):
    return getattr(a, "args", None) or getattr(a, "apply_args", ())


def AT(x, *i):
    return x.at(*i) if hasattr(x, "at") else x[tuple(int(t) for t in i)] if not isinstance(i[0], slice) else x[i]


def size(x, k=0):
    return x.shape[k]


def weights(rng, n=200):
    return rng.normal(size=n)


def g_fn(nidx, array=0):
    """a function that depends on the indices, every element, the order and the extra argument"""
    def mk(rng):
        w = weights(rng)

        def f(*args):
            idx, x, rest = args[:nidx], np.atleast_1d(np.asarray(args[nidx], dtype=float)), args[nidx + 1:]
            v = sum((3 + k) * int(i) for k, i in enumerate(idx)) + 0.01 * x.ndim + sum(rest)
            flat = np.nan_to_num(x.ravel(), nan=7.0)
            v = v + float(np.sum(w[:flat.size] * flat)) + 0.1 * x.shape[0]
            return v if not array else np.array([v * (j + 1) for j in range(array)])
        return f
    return mk


def g_apply(nidx, fname="apply_func_nb", array=0, lo=0, **extra):
    def g(rng):
        n, m = int(rng.integers(lo, 7)), int(rng.integers(1, 4))
        a = rng.integers(-8, 9, (n, m)) / 4
        a[rng.random((n, m)) < 0.25] = np.nan
        d = dict(a=a, args=(float(rng.integers(1, 5)),))
        d[fname] = g_fn(nidx, array)(rng)
        for k, f in extra.items():
            d[k] = f(rng, n, m, d) if callable(f) else f
        return d
    return g


# --------------------------------------------------------------------------------------- rolling windows
def roll_want(A, idx):
    i, c = idx
    if hasattr(A.a, "at"):
        from pyvc.values import ite, ilt, iadd
        import z3
        i = zi_(i)
        lo = z3.If(i - A.window + 1 > 0, i - A.window + 1, z3.IntVal(0)) if "window" in A.__dict__ else z3.IntVal(0)
    else:
        lo = max(0, i - A.window + 1) if "window" in A.__dict__ else 0
    return (i + 1 - lo,), lambda k: AT(A.a, lo + k, c)


ROLLF = Applied("window_fn", 2, roll_want)


def valid_in_col(S, a):
    """valid values before row k of column c"""
    return S.foldp(0, lambda s, k, c: s + S.i(S.not_(S.isnan(a[k, c]))))


def win(S, v):
    return v.window if hasattr(v, "window") else S.len(v.a)


def roll_value(S, v, i, c):
    w = v.window if isinstance(v, NSp) or hasattr(v, "window") else S.len(v.a)
    n = valid_in_col(S, v.a)
    cnt = n(i + 1, c) - n(win_lo(S, i, w), c)
    minp = w if v.minp is None else v.minp
    if not S.symbolic:
        return math.nan if cnt < minp else ROLLF.at(S, v.apply_func_nb, v, i, c)
    return S.ite(S.lt(cnt, minp), S.f(S.nan), ROLLF.at(S, v.apply_func_nb, v, i, c))


def roll_outer(S, v):
    S.each("c", 0, v.it, lambda c: S.each("i", 0, S.len(v.a), lambda i: S.ensure("windows of earlier columns", S.eq(v.out[i, c], roll_value(S, v, i, c)))))


def roll_inner(S, v):
    n = valid_in_col(S, v.a)
    it = v.it
    S.ensure("missing so far", S.eq(v.nancnt, it - n(it, v.col)))
    S.ensure("missing recorded", S.forall(0, it, lambda k: S.eq(v.nancnt_arr[k], k + 1 - n(k + 1, v.col))))
    S.each("c", 0, v.col, lambda c: S.each("i", 0, S.len(v.a), lambda i: S.ensure("earlier columns kept", S.eq(v.out[i, c], roll_value(S, v, i, c)))))
    S.each("i", 0, it, lambda i: S.ensure("windows so far", S.eq(v.out[i, v.col], roll_value(S, v, i, v.col))))


def roll_post2(S, a, r):
    S.ensure("shape", S.and_(S.eq(S.len(r), S.len(a.a)), S.eq(S.len(r, 1), S.len(a.a, 1))), "C15")
    S.each("c", 0, S.len(a.a, 1), lambda c: S.each("i", 0, S.len(a.a), lambda i: S.ensure(
        "function of exactly the window, missing when too few values", S.eq(r[i, c], roll_value(S, a, i, c)), "C15")))


Contract(G + "rolling_apply_nb", dict(a=Arr_("f", "n", "m"), window=Int(1), minp=OneOf(Const(None), Int(0)), apply_func_nb=Func(ROLLF.sym, None), **EXTRA),
         post=roll_post2, loops={0: Inv(roll_outer, arb="c"), 1: Inv(roll_inner, arb="i")}, props="C15 C18", trials=400,
         gen=g_apply(2, window=lambda rng, n, m, d: int(rng.integers(1, n + 3)), minp=lambda rng, n, m, d: pick(rng, None, 0, 1, 2, 3)))


# --------------------------------------------------------------------------------------- element by element
ELEMF = Applied("element_fn", 2, lambda A, idx: ((), lambda: AT(A.a, *idx)), scalar=True)


def elem_value(S, v, i, c):
    x = v.a[i, c]
    if not S.symbolic:
        return math.nan if math.isnan(x) else ELEMF.at(S, v.map_func_nb, v, i, c)
    return S.ite(S.isnan(x), S.f(S.nan), ELEMF.at(S, v.map_func_nb, v, i, c))


def map_outer(S, v):
    S.each("c", 0, S.len(v.a, 1), lambda c: S.each("i", 0, S.len(v.a), lambda i: S.ensure(
        "columns so far", S.eq(v.out[i, c], S.ite(S.lt(c, v.it), elem_value(S, v, i, c), S.f(S.nan))))))


def map_inner(S, v):
    it, z = v.it, v.idxs
    S.each("c", 0, S.len(v.a, 1), lambda c: S.each("i", 0, S.len(v.a), lambda i: S.ensure("valid elements so far", S.eq(
        v.out[i, c], S.ite(S.or_(S.lt(c, v.col), S.and_(S.eq(c, v.col), S.exists(0, it, lambda k: S.eq(z[k], i)))), elem_value(S, v, i, c), S.f(S.nan))))))


def map_post(S, a, r):
    S.ensure("shape", S.and_(S.eq(S.len(r), S.len(a.a)), S.eq(S.len(r, 1), S.len(a.a, 1))), "C16")
    S.each("c", 0, S.len(a.a, 1), lambda c: S.each("i", 0, S.len(a.a), lambda i: S.ensure(
        "each valid element mapped, missing kept", S.eq(r[i, c], elem_value(S, a, i, c)), "C16 C23")))


Contract(G + "applymap_nb", dict(a=Arr_("f", "n", "m"), map_func_nb=Func(ELEMF.sym, None), **EXTRA), post=map_post, props="C16 C23",
         loops={0: map_outer, 1: map_inner}, gen=g_apply(2, "map_func_nb"), trials=300)


# --------------------------------------------------------------------------------------- column by column
def col_want(A, idx):
    return (size(A.a),), lambda k: AT(A.a, k, idx[0])


COLF = Applied("column_fn", 1, col_want)


def some_cols(S, a):
    S.require(S.ge(S.len(a.a, 1), 1), "a column")


def red_inv(fn, f, n_label="columns so far"):
    return lambda S, v: S.each("c", 0, v.it, lambda c: S.ensure(n_label, S.eq(v.out[c], f.at(S, getattr(v, fn), v, c))))


def red_post(fn, f, count):
    def post(S, a, r):
        S.ensure("one value per column or group", S.eq(S.len(r), count(S, a)), "C23")
        S.each("c", 0, count(S, a), lambda c: S.ensure("function of exactly that column or group", S.eq(r[c], f.at(S, getattr(a, fn), a, c)), "C23"))
    return post


Contract(G + "reduce_nb", dict(a=Arr_("f", "n", "m"), reduce_func_nb=Func(COLF.sym, None), **EXTRA), pre=some_cols,
         post=red_post("reduce_func_nb", COLF, lambda S, a: S.len(a.a, 1)), loops={0: Inv(red_inv("reduce_func_nb", COLF), arb="c", peel=True)},
         props="C23 C16", gen=g_apply(1, "reduce_func_nb"), trials=300)


# --------------------------------------------------------------------------------------- columns to columns, rows to rows
COLARR = Applied("column_array_fn", 1, col_want, length=lambda A: size(A.a))
ROWARR = Applied("row_array_fn", 1, lambda A, idx: ((size(A.a, 1),), lambda k: AT(A.a, idx[0], k)), length=lambda A: size(A.a, 1))


def cells(S, v, out, lim_rows, lim_cols, val, label, props=None):
    S.each("c", 0, lim_cols, lambda c: S.each("i", 0, lim_rows, lambda i: S.ensure(label, S.eq(out[i, c], val(i, c)), props)))


def shape_is(S, r, n, m, props):
    S.ensure("shape", S.and_(S.eq(S.len(r), n), S.eq(S.len(r, 1), m)), props)


def full_at(S, v, f, fn, i, c, k):
    if S.symbolic or True:
        return f.at(S, getattr(v, fn), v, i, k=k)


def arr_gen(rng_len):
    return None


Contract(G + "apply_nb", dict(a=Arr_("f", "n", "m"), apply_func_nb=Func(COLARR.sym, None), **EXTRA), pre=some_cols, props="C23", trials=200,
         loops={0: Inv(lambda S, v: cells(S, v, v.out, S.len(v.a), v.it, lambda i, c: COLARR.at(S, v.apply_func_nb, v, c, k=i), "columns so far"), arb="c", peel=True)},
         post=lambda S, a, r: (shape_is(S, r, S.len(a.a), S.len(a.a, 1), "C23"), cells(
             S, a, r, S.len(a.a), S.len(a.a, 1), lambda i, c: COLARR.at(S, a.apply_func_nb, a, c, k=i), "function of exactly that column", "C23"))[0],
         gen=lambda rng: (lambda d: dict(d, apply_func_nb=g_fn(1, array=len(d["a"]))(rng)))(g_apply(1, lo=1)(rng)))
Contract(G + "row_apply_nb", dict(a=Arr_("f", "n", "m"), apply_func_nb=Func(ROWARR.sym, None), **EXTRA),
         pre=lambda S, a: S.require(S.ge(S.len(a.a), 1), "a row"), props="C23", trials=200,
         loops={0: Inv(lambda S, v: cells(S, v, v.out, v.it, S.len(v.a, 1), lambda i, c: ROWARR.at(S, v.apply_func_nb, v, i, k=c), "rows so far"), arb="i", peel=True)},
         post=lambda S, a, r: (shape_is(S, r, S.len(a.a), S.len(a.a, 1), "C23"), cells(
             S, a, r, S.len(a.a), S.len(a.a, 1), lambda i, c: ROWARR.at(S, a.apply_func_nb, a, i, k=c), "function of exactly that row", "C23"))[0],
         gen=lambda rng: (lambda d: dict(d, apply_func_nb=g_fn(1, array=d["a"].shape[1])(rng)))(g_apply(1, lo=1)(rng)))

COLK = Applied("column_to_k_fn", 1, col_want, length=lambda A: zdim("k"))


def zdim(n):
    import z3
    return z3.Int("dim." + n)


def k_known(S, a):
    some_cols(S, a)
    if S.symbolic:
        S.require(S.ge(zdim("k"), 0), "array length")


def rta_at(S, v, c, j):
    return COLK.at(S, v.reduce_func_nb, v, c, k=j)


Contract(G + "reduce_to_array_nb", dict(a=Arr_("f", "n", "m"), reduce_func_nb=Func(COLK.sym, None), **EXTRA), pre=k_known, props="C23", trials=200,
         loops={0: Inv(lambda S, v: cells(S, v, v.out, S.len(v.out), v.it, lambda j, c: rta_at(S, v, c, j), "columns so far"), arb="c", peel=True)},
         post=lambda S, a, r: (shape_is(S, r, zdim("k") if S.symbolic else 3, S.len(a.a, 1), "C23"), cells(
             S, a, r, S.len(r), S.len(a.a, 1), lambda j, c: rta_at(S, a, c, j), "function of exactly that column", "C23"))[0],
         gen=g_apply(1, "reduce_func_nb", array=3))


# --------------------------------------------------------------------------------------- groups of columns
from .replay import gstart, groups_pre, gsum  # noqa: E402


def before(A, g):
    """columns before group g"""
    if hasattr(A.a, "at"):
        import pyvc.values as V
        ex = V._ctx[0].eng.ex
        return gstart(ex.eng.spec("prove", ex.p), _Get(A.group_lens))(g)
    return int(np.sum(A.group_lens[:g]))


class _Get:
    def __init__(self, a):
        self.a, self.shape = a, a.shape

    def __getitem__(self, k):
        return self.a.at(k)


def group_want(A, idx):
    s = before(A, idx[0])
    return (size(A.a), AT(A.group_lens, idx[0])), lambda k, j: AT(A.a, k, s + j)


def row_of_group_want(A, idx):
    i, g = idx
    s = before(A, g)
    return (AT(A.group_lens, g),), lambda j: AT(A.a, i, s + j)


GROUPF = Applied("group_fn", 1, group_want)
GROUPK = Applied("group_to_k_fn", 1, group_want, length=lambda A: zdim("k"))
SQUEEZEF = Applied("squeeze_fn", 2, row_of_group_want)
GLENS = dict(group_lens=Arr_("i", "g"))


def grp_pre(S, a):
    groups_pre(S, a.group_lens, S.len(a.a, 1))
    S.require(S.ge(S.len(a.group_lens), 1), "a group")
    S.require(S.eq(gstart(S, a.group_lens)(S.len(a.group_lens)), S.len(a.a, 1)), "the groups cover the columns")
    if S.symbolic:
        S.require(S.ge(zdim("k"), 0), "array length")


def g_grp(nidx, fname, array=0, lo=1, **kw):
    def g(rng):
        lens = rng.integers(1, 4, int(rng.integers(1, 4)))
        d = g_apply(nidx, fname, array, lo=lo)(rng)
        a = rng.integers(-8, 9, (len(d["a"]), int(lens.sum()))) / 4
        a[rng.random(a.shape) < 0.25] = np.nan
        d.update(a=a, group_lens=lens)
        for k, f in kw.items():
            d[k] = f(rng)
        return d
    return g


FROM = dict(from_col=lambda S, v: gstart(S, v.group_lens)(v.it))
Contract(G + "reduce_grouped_nb", dict(a=Arr_("f", "n", "m"), reduce_func_nb=Func(GROUPF.sym, None), **GLENS, **EXTRA), pre=grp_pre,
         post=red_post("reduce_func_nb", GROUPF, lambda S, a: S.len(a.group_lens)), props="C23 C11", gen=g_grp(1, "reduce_func_nb"), trials=200,
         loops={0: Inv(red_inv("reduce_func_nb", GROUPF, "groups so far"), arb="g", peel=True, define=FROM)})
Contract(G + "reduce_grouped_to_array_nb", dict(a=Arr_("f", "n", "m"), reduce_func_nb=Func(GROUPK.sym, None), **GLENS, **EXTRA), pre=grp_pre, props="C23", trials=200,
         loops={0: Inv(lambda S, v: cells(S, v, v.out, S.len(v.out), v.it, lambda j, c: GROUPK.at(S, v.reduce_func_nb, v, c, k=j), "groups so far"), arb="c", peel=True,
                       define=FROM)},
         post=lambda S, a, r: (shape_is(S, r, zdim("k") if S.symbolic else 3, S.len(a.group_lens), "C23"), cells(
             S, a, r, S.len(r), S.len(a.group_lens), lambda j, c: GROUPK.at(S, a.reduce_func_nb, a, c, k=j), "function of exactly that group", "C23"))[0],
         gen=g_grp(1, "reduce_func_nb", array=3))


def sq_at(S, v, i, g):
    return SQUEEZEF.at(S, v.squeeze_func_nb, v, i, g)


Contract(G + "squeeze_grouped_nb", dict(a=Arr_("f", "n", "m"), squeeze_func_nb=Func(SQUEEZEF.sym, None), **GLENS, **EXTRA),
         pre=lambda S, a: (grp_pre(S, a), S.require(S.ge(S.len(a.a), 1), "a row"))[0], props="C23 C11", trials=200,
         loops={0: Inv(lambda S, v: cells(S, v, v.out, S.len(v.a), v.it, lambda i, g: sq_at(S, v, i, g), "groups so far"), arb="c", peel=True, define=FROM),
                1: Inv(lambda S, v: (cells(S, v, v.out, S.len(v.a), v.group, lambda i, g: sq_at(S, v, i, g), "earlier groups kept"),
                                     S.each("i", 0, v.it, lambda i: S.ensure("rows so far", S.eq(v.out[i, v.group], sq_at(S, v, i, v.group)))))[0], arb="i", peel=True)},
         post=lambda S, a, r: (shape_is(S, r, S.len(a.a), S.len(a.group_lens), "C23"), cells(
             S, a, r, S.len(a.a), S.len(a.group_lens), lambda i, g: sq_at(S, a, i, g), "function of exactly that row of the group", "C23"))[0],
         gen=g_grp(2, "squeeze_func_nb"))


# --------------------------------------------------------------------------------------- filtering, two stages
FILTERF = Applied("filter_fn", 2, lambda A, idx: ((), lambda: AT(A.a, *idx)), scalar=True)


def keep(S, v, i, c):
    if not S.symbolic:
        return bool(FILTERF.at(S, v.filter_func_nb, v, i, c))
    return S.ne(FILTERF.at(S, None, v, i, c), 0.0)


def filt_value(S, v, i, c):
    x = (v.old.a if hasattr(v, "old") else v.a)[i, c]
    if not S.symbolic:
        return x if not math.isnan(x) and keep(S, v, i, c) else math.nan
    return S.ite(S.or_(S.isnan(x), S.not_(keep(S, v, i, c))), S.f(S.nan), x)


def filt_outer(S, v):
    S.each("c", 0, S.len(v.a, 1), lambda c: S.each("i", 0, S.len(v.a), lambda i: S.ensure(
        "columns so far", S.eq(v.out[i, c], S.ite(S.lt(c, v.it), filt_value(S, v, i, c), v.old.a[i, c])))))


def filt_inner(S, v):
    it, z = v.it, v.idxs
    S.each("c", 0, S.len(v.a, 1), lambda c: S.each("i", 0, S.len(v.a), lambda i: S.ensure("valid elements so far", S.eq(
        v.out[i, c], S.ite(S.or_(S.lt(c, v.col), S.and_(S.eq(c, v.col), S.exists(0, it, lambda k: S.eq(z[k], i)))), filt_value(S, v, i, c), v.old.a[i, c])))))


def filt_post(S, a, r):
    shape_is(S, r, S.len(a.a), S.len(a.a, 1), "C16")
    S.each("c", 0, S.len(a.a, 1), lambda c: S.each("i", 0, S.len(a.a), lambda i: S.ensure(
        "kept or missing", S.eq(r[i, c], filt_value(S, a, i, c)), "C16 C23")))


def g_filter(rng):
    d = g_apply(2, "filter_func_nb")(rng)
    f = d["filter_func_nb"]
    d["filter_func_nb"] = lambda *a: f(*a) > 3
    return d


Contract(G + "filter_nb", dict(a=Arr_("f", "n", "m"), filter_func_nb=Func(FILTERF.sym, None), **EXTRA), post=filt_post, props="C16 C23",
         loops={0: filt_outer, 1: filt_inner}, gen=g_filter, trials=300)

STAGE1 = Applied("stage1_fn", 1, col_want, length=lambda A: zdim("k"))


def stage2_want(A, idx):
    if hasattr(A.a, "at"):
        from pyvc.values import F
        c = zi_(idx[0])
        return (zdim("k"),), lambda k: F(STAGE1.f(c, zi_(k)), STAGE1.nan(c, zi_(k)))
    x = A.apply_func_nb(idx[0], A.a[:, idx[0]], *A.apply_args)
    return (len(x),), lambda k: x[int(k)]


class Stage2(Applied):
    def at(self, S, fn, a, *idx, k=None):
        if S.symbolic:
            return super().at(S, fn, a, *idx)
        dims, at = self.want(a, idx)
        return fn(*idx, np.array([at(k) for k in range(dims[0])]), *a.reduce_args)

    def sym(self, ex, args):
        A = ex.p.args
        return super().sym(_With(ex, dict(A, args=A["reduce_args"])), args)


class _With:
    """the same execution with other arguments visible"""

    def __init__(self, ex, args):
        self._ex, self.p = ex, _P(ex.p, args)

    def __getattr__(self, k):
        return getattr(self._ex, k)


class _P:
    def __init__(self, p, args):
        self._p, self.args = p, args

    def __getattr__(self, k):
        return getattr(self._p, k)


STAGE2 = Stage2("stage2_fn", 1, stage2_want)
Contract(G + "apply_and_reduce_nb", dict(a=Arr_("f", "n", "m"), apply_func_nb=Func(STAGE1.sym, None), apply_args=Tup(Float("fin")),
                                         reduce_func_nb=Func(STAGE2.sym, None), reduce_args=Tup(Float("fin"))), pre=k_known, props="C23", trials=200,
         loops={0: Inv(red_inv("reduce_func_nb", STAGE2), arb="c", peel=True)}, post=red_post("reduce_func_nb", STAGE2, lambda S, a: S.len(a.a, 1)),
         gen=lambda rng: (lambda d: dict(a=d["a"], apply_func_nb=d["apply_func_nb"], apply_args=d["args"], reduce_func_nb=g_fn(1)(rng), reduce_args=(2.5,)))(
             g_apply(1, array=3)(rng)))

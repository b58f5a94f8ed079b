"""C15, C16: windows, shifts, fills, differences, reductions and crossings (vectorbt/generic/nb.py)."""
from .common import *

G = "vectorbt.generic.nb:"


class NSp:
    def __init__(self, **k):
        self.__dict__.update(k)


def like_a2(a):
    return a.a.shape


def like_a(a):
    return (a.a.shape[0],)


def two_d(target, one_d, props, arr="a", others=None, post=None, out="out", gen=None, dtype="f", nan=True, pre=None, trials=200, out_dtype="f",
          cases=None, raises=None, params=None, **kw):
    """Contract of the 2-dim version: every column holds what the 1-dim contract says about that column alone.
    Stated for one arbitrary column, so it holds for each of them."""
    others = others or {}

    def col_ns(S, v, c):
        d = {k: getattr(v, k) for k in others}
        d[arr] = S.col(getattr(v, arr), c)
        return NSp(**d)

    def inv(S, v):
        S.each("c", 0, v.it, lambda c: post(S, col_ns(S, v, c), S.col(getattr(v, out), c)))

    def post2(S, a, r):
        x = getattr(a, arr)
        S.ensure("shape", S.and_(S.eq(S.len(r, 0), S.len(x, 0)), S.eq(S.len(r, 1), S.len(x, 1))), props)
        S.each("c", 0, S.len(x, 1), lambda c: post(S, col_ns(S, a, c), S.col(r, c)))

    def pre2(S, a):
        if pre is not None:
            pre(S, NSp(**dict({k: getattr(a, k) for k in others}, **{arr: getattr(a, arr)})))
    Contract(target, dict({arr: Arr_(dtype, "n", "m", nan=nan)}, **others), pre=pre2 if pre else None, post=post2,
             loops={0: Inv(inv, arb="c")}, props=props, gen=gen, trials=trials, cases=cases, raises=raises, **kw)


def elem(S, r, n, fn, label, props, name="i"):
    """r has length n and r[i] = fn(i), stated for one arbitrary i."""
    S.each(name, 0, n, lambda i: S.ensure(label, S.eq(r[i], fn(i)), props))


# --------------------------------------------------------------------------------------- shifts and differences
def fshift_val(S, a, i):
    k = i - a.n
    if not S.symbolic:
        return a.arr[k] if k >= 0 else a.fill_value
    return S.ite(S.ge(k, 0), a.arr[k], S.f(a.fill_value))


def bshift_val(S, a, i):
    n = S.len(a.arr)
    k = i + a.n
    if not S.symbolic:
        return a.arr[k] if k < n else a.fill_value
    return S.ite(S.lt(k, n), a.arr[k], S.f(a.fill_value))


def g_shift(two):
    def g(rng):
        n = int(rng.integers(0, 7))
        sh = (n, int(rng.integers(1, 4))) if two else (n,)
        x = rng.integers(-3, 9, sh).astype(float)
        x[rng.random(sh) < 0.2] = np.nan
        return dict(arr=x, n=int(rng.integers(0, n + 3)), fill_value=pick(rng, math.nan, 0.0, -1.5))
    return g


SHIFT = dict(n=Int(0), fill_value=Float("fin|nan"))
for nm, val in (("fshift", fshift_val), ("bshift", bshift_val)):
    def post1(S, a, r, val=val):
        n = S.len(a.arr)
        S.ensure("length", S.eq(S.len(r), n), "C16")
        S.ensure("element shifted by n, or the fill value", S.forall(0, n, lambda i: S.eq(r[i], val(S, a, i))), "C16")

    def inv1(S, v, val=val):
        S.ensure("shifted so far", S.forall(0, v.it, lambda i: S.eq(v.out[i], val(S, v, i))))
    Contract(G + "_%s_1d_nb" % nm, dict(arr=Arr_("f", "k"), **SHIFT), post=post1, loops={0: inv1}, props="C16", gen=g_shift(False),
             returns=ret_arr("f", lambda a: (a.arr.shape[0],)), trials=200)
    Contract(G + "%s_1d_nb" % nm, dict(arr=Arr_("f", "k"), **SHIFT), post=post1, props="C16", gen=g_shift(False),
             returns=ret_arr("f", lambda a: (a.arr.shape[0],)), trials=200)
    two_d(G + "_%s_nb" % nm, None, "C16", arr="arr", others=SHIFT, post=post1, gen=g_shift(True), trials=200,
          returns=ret_arr("f", lambda a: a.arr.shape))

    def post2(S, a, r, post1=post1):
        S.ensure("shape", S.and_(S.eq(S.len(r, 0), S.len(a.arr, 0)), S.eq(S.len(r, 1), S.len(a.arr, 1))), "C16")
        S.each("c", 0, S.len(a.arr, 1), lambda c: post1(S, NSp(arr=S.col(a.arr, c), n=a.n, fill_value=a.fill_value), S.col(r, c)))
    Contract(G + "%s_nb" % nm, dict(arr=Arr_("f", "k", "m"), **SHIFT), post=post2, props="C16", gen=g_shift(True), trials=200,
             returns=ret_arr("f", lambda a: a.arr.shape))


def g_a(two=False, lo=0, nanp=0.25, **extra):
    def g(rng):
        n = int(rng.integers(lo, 8))
        sh = (n, int(rng.integers(1, 4))) if two else (n,)
        x = rng.integers(-3, 9, sh).astype(float)
        if rng.random() < 0.3:
            x = x + rng.integers(0, 8, sh) / 8
        if rng.random() < 0.7:
            x[rng.random(sh) < pick(rng, nanp, 0.6)] = np.nan
        d = dict(a=x)
        for k, f in extra.items():
            d[k] = f(rng, n)
        return d
    return g


def diff_post(S, a, r):
    n = S.len(a.a)
    S.ensure("length", S.eq(S.len(r), n), "C16")
    S.ensure("no value before the lag", S.forall(0, S.min(a.n, n), lambda i: S.isnan(r[i])), "C16")
    S.ensure("difference to the lagged value", S.forall(a.n, n, lambda i: S.eq(r[i], a.a[i] - a.a[i - a.n])), "C16")


def pct_post(S, a, r):
    n = S.len(a.a)
    S.ensure("length", S.eq(S.len(r), n), "C16")
    S.ensure("no value before the lag", S.forall(0, S.min(a.n, n), lambda i: S.isnan(r[i])), "C16")
    S.each("i", a.n, n, lambda i: S.ensure("relative change to the lagged value", S.implies(
        S.ne(a.a[i - a.n], 0.0), S.eq(r[i], S.ieee_div(a.a[i], a.a[i - a.n]) - 1.0)), "C16"))


LAG = dict(n=Int(1))
lag_gen = dict(n=lambda rng, n: int(rng.integers(1, n + 3)))
for nm, post in (("diff", diff_post), ("pct_change", pct_post)):
    inf = nm == "pct_change"
    lag_pre = lambda S, a: S.require(S.le(a.n, S.len(a.a)), "lag inside the array")
    lg = lambda rng, n: int(rng.integers(1, max(n, 1) + 1))
    Contract(G + nm + "_1d_nb", dict(a=Arr_("f", "k"), **LAG), pre=lag_pre, post=post, props="C16", gen=g_a(n=lg), trials=300,
             returns=ret_arr("f", like_a, inf=inf))
    two_d(G + nm + "_nb", None, "C16", others=LAG, post=post, pre=lag_pre, gen=g_a(True, n=lg), trials=200,
          returns=ret_arr("f", like_a2, inf=inf))


# --------------------------------------------------------------------------------------- fills
def last_valid(S, a):
    """fold: the last non-NaN value among the first k, NaN when there is none."""
    return S.fold(S.f(S.nan), lambda s, k: S.ite(S.isnan(a[k]), s, a[k]))


def ffill_post(S, a, r):
    n = S.len(a.a)
    L = last_valid(S, a.a)
    S.ensure("length", S.eq(S.len(r), n), "C16")
    S.ensure("last valid value so far", S.forall(0, n, lambda i: S.eq(r[i], L(i + 1))), "C16")


def ffill_inv(S, v):
    L = last_valid(S, v.a)
    S.ensure("carried value", S.implies(S.gt(v.it, 0), S.eq(v.lastval, L(v.it))))
    S.ensure("entry value", S.implies(S.eq(v.it, 0), S.eq(v.lastval, v.a[0])))
    S.ensure("filled so far", S.forall(0, v.it, lambda i: S.eq(v.out[i], L(i + 1))))


Contract(G + "ffill_1d_nb", dict(a=Arr_("f", "k")), pre=lambda S, a: S.require(S.ge(S.len(a.a), 1), "not empty"), post=ffill_post,
         loops={0: ffill_inv}, props="C16", gen=g_a(lo=1), returns=ret_arr("f", like_a))
two_d(G + "ffill_nb", None, "C16", post=ffill_post, pre=lambda S, a: S.require(S.ge(S.len(a.a), 1), "not empty"), gen=g_a(True, lo=1))


def next_valid(S, a):
    """fold from the end: k counts the positions n-1, n-2, ... already seen."""
    n = S.len(a)
    return S.fold(S.f(S.nan), lambda s, k: S.ite(S.isnan(a[n - 1 - k]), s, a[n - 1 - k]))


def bfill_post(S, a, r):
    n = S.len(a.a)
    L = next_valid(S, a.a)
    S.ensure("length", S.eq(S.len(r), n), "C16")
    S.each("i", 0, n, lambda i: S.ensure("next valid value from here", S.eq(r[i], L(n - i)), "C16"))


def bfill_inv(S, v):
    n = S.len(v.a)
    L = next_valid(S, v.a)
    done = n - 1 - v.it
    S.ensure("carried value", S.implies(S.gt(done, 0), S.eq(v.lastval, L(done))))
    S.ensure("entry value", S.implies(S.eq(done, 0), S.eq(v.lastval, v.a[n - 1])))
    S.each("i", 0, n, lambda i: S.ensure("filled so far", S.implies(S.gt(i, v.it), S.eq(v.out[i], L(n - i)))))


Contract(G + "bfill_1d_nb", dict(a=Arr_("f", "k")), pre=lambda S, a: S.require(S.ge(S.len(a.a), 1), "not empty"), post=bfill_post,
         loops={0: bfill_inv}, props="C16", gen=g_a(lo=1), returns=ret_arr("f", like_a))
two_d(G + "bfill_nb", None, "C16", post=bfill_post, pre=lambda S, a: S.require(S.ge(S.len(a.a), 1), "not empty"), gen=g_a(True, lo=1))


# --------------------------------------------------------------------------------------- fillna / set by mask
def g_mask(two, mult=False):
    def g(rng):
        n = int(rng.integers(0, 7))
        sh = (n, int(rng.integers(1, 4))) if two else (n,)
        x = rng.integers(-3, 9, sh).astype(float)
        d = dict(arr=x, mask=rng.random(sh) < 0.4)
        if mult:
            d["values"] = rng.integers(10, 99, sh).astype(float)
        else:
            d["value"] = pick(rng, math.nan, 0.0, 7.5)
        return d
    return g


for mult in (False, True):
    suffix = "_mult" if mult else ""
    w = (lambda a, *i: a.values[i]) if mult else (lambda a, *i: a.value)
    par1 = dict(arr=Arr_("f", "n"), mask=Arr_("b", "n"), **({"values": Arr_("f", "n")} if mult else {"value": Float("fin|nan")}))
    par2 = dict(arr=Arr_("f", "n", "m"), mask=Arr_("b", "n", "m"), **({"values": Arr_("f", "n", "m")} if mult else {"value": Float("fin|nan")}))

    def m1(S, a, r, w=w):
        n = S.len(a.arr)
        S.ensure("length", S.eq(S.len(r), n), "C16")
        S.ensure("only masked elements replaced", S.forall(0, n, lambda i: S.eq(r[i], S.ite(
            S.eq(a.mask[i], True), S.f(w(a, i)), a.arr[i]))), "C16")

    def m2(S, a, r, w=w, lim=None):
        n, m = S.len(a.arr, 0), S.len(a.arr, 1)
        S.ensure("shape", S.and_(S.eq(S.len(r, 0), n), S.eq(S.len(r, 1), m)), "C16")
        S.each("c", 0, m, lambda c: S.ensure("only masked elements replaced", S.forall(0, n, lambda i: S.eq(r[i, c], S.ite(
            S.eq(a.mask[i, c], True), S.f(w(a, i, c)), a.arr[i, c]))), "C16"))

    def m2inv(S, v, w=w):
        n, m = S.len(v.arr, 0), S.len(v.arr, 1)
        S.each("c", 0, m, lambda c: S.ensure("columns so far", S.forall(0, n, lambda i: S.eq(v.out[i, c], S.ite(
            S.and_(S.lt(c, v.it), S.eq(v.mask[i, c], True)), S.f(w(v, i, c)), v.arr[i, c])))))
    Contract(G + "set_by_mask%s_1d_nb" % suffix, par1, post=m1, props="C16", gen=g_mask(False, mult), returns=ret_arr("f", lambda a: a.arr.shape))
    Contract(G + "_set_by_mask%s_1d_nb" % suffix, par1, post=m1, props="C16", gen=g_mask(False, mult), returns=ret_arr("f", lambda a: a.arr.shape))
    Contract(G + "set_by_mask%s_nb" % suffix, par2, post=m2, props="C16", gen=g_mask(True, mult), returns=ret_arr("f", lambda a: a.arr.shape))
    Contract(G + "_set_by_mask%s_nb" % suffix, par2, post=m2, loops={0: Inv(m2inv, arb="c")}, props="C16", gen=g_mask(True, mult),
             returns=ret_arr("f", lambda a: a.arr.shape))


def fillna_post(S, a, r):
    n = S.len(a.a)
    S.ensure("length", S.eq(S.len(r), n), "C16")
    S.ensure("NaNs replaced, the rest kept", S.forall(0, n, lambda i: S.eq(r[i], S.ite(S.isnan(a.a[i]), S.f(a.value), a.a[i]))), "C16")


def fillna_post2(S, a, r):
    S.ensure("shape", S.and_(S.eq(S.len(r, 0), S.len(a.a, 0)), S.eq(S.len(r, 1), S.len(a.a, 1))), "C16")
    S.each("c", 0, S.len(a.a, 1), lambda c: fillna_post(S, NSp(a=S.col(a.a, c), value=a.value), S.col(r, c)))


vg = dict(value=lambda rng, n: pick(rng, 0.0, 5.5))
Contract(G + "fillna_1d_nb", dict(a=Arr_("f", "n"), value=Float("fin")), post=fillna_post, props="C16", gen=g_a(**vg),
         returns=ret_arr("f", like_a))
Contract(G + "fillna_nb", dict(a=Arr_("f", "n", "m"), value=Float("fin")), post=fillna_post2, props="C16", gen=g_a(True, **vg),
         returns=ret_arr("f", lambda a: a.a.shape))


# --------------------------------------------------------------------------------------- NaN-aware reductions
def nan0(S, x, d=0.0):
    return S.nan_to(x, int(d))


def nansum(S, a):
    return S.fold(S.f(0.0), lambda s, k: s + nan0(S, a[k]))


def nanprod(S, a):
    return S.fold(S.f(1.0), lambda s, k: s * nan0(S, a[k], 1.0))


def nancount(S, a):
    return S.count(lambda k: S.not_(S.isnan(a[k])))


def nansq(S, a):
    return S.fold(S.f(0.0), lambda s, k: s + nan0(S, a[k]) * nan0(S, a[k]))


def smallest(S, a, lo=0, less=True):
    """fold: smallest (largest) non-NaN value among a[lo..k-1], NaN when there is none."""
    f = S.lt if less else S.gt
    return S.fold(S.f(S.nan), lambda s, k: S.ite(S.isnan(a[k]), s, S.ite(S.or_(S.isnan(s), f(a[k], s)), a[k], s)), lo)


def red(S, name, x):
    """The reduction `name` of the 1-dim array x, as specified."""
    n = S.len(x)
    if name in ("nansum", "sum"):
        return nansum(S, x)(n)
    if name == "nanprod":
        return nanprod(S, x)(n)
    if name == "nancnt":
        return nancount(S, x)(n)
    if name == "nanmean":
        c = nancount(S, x)(n)
        if not S.symbolic:
            return nansum(S, x)(n) / c if c else math.nan
        return S.ite(S.eq(c, 0), S.f(S.nan), S.div(nansum(S, x)(n), S.f(c)))
    raise KeyError(name)


def red_col(target, name, dtype="f", **kw):
    def inv(S, v):
        arr = v.arr if v.has("arr") else v.a
        S.each("c", 0, v.it, lambda c: S.ensure("columns so far", S.eq(v.out[c], red(S, name, S.col(arr, c)))))

    def post(S, a, r):
        arr = a.arr if hasattr(a, "arr") else a.a
        S.ensure("one value per column", S.eq(S.len(r), S.len(arr, 1)), "C16")
        S.each("c", 0, S.len(arr, 1), lambda c: S.ensure("reduction of the column's valid values", S.eq(r[c], red(S, name, S.col(arr, c))), "C16"))
    return post, inv


def g_arr(two=True, **kw):
    f = g_a(two, **kw)

    def g(rng):
        d = f(rng)
        d["arr"] = d.pop("a")
        return d
    return g


for nm in ("nansum", "nanprod"):
    post, inv = red_col(None, nm)
    Contract(G + "_%s_nb" % nm, dict(arr=Arr_("f", "n", "m")), post=post, loops={0: Inv(inv, arb="c")}, props="C16", gen=g_arr(),
             returns=ret_arr("f", lambda a: (a.arr.shape[1],)))
    Contract(G + "%s_nb" % nm, dict(arr=Arr_("f", "n", "m")), post=post, props="C16", gen=g_arr())
for nm in ("nancnt", "nanmean"):
    post, inv = red_col(None, nm)
    Contract(G + "%s_nb" % nm, dict(a=Arr_("f", "n", "m")), post=post, loops={0: Inv(inv, arb="c")}, props="C16", gen=g_a(True))

for nm, P in (("nancumsum", nansum), ("nancumprod", nanprod)):
    def post(S, a, r, P=P):
        S.ensure("shape", S.and_(S.eq(S.len(r, 0), S.len(a.arr, 0)), S.eq(S.len(r, 1), S.len(a.arr, 1))), "C16")

        def one(c):
            X = P(S, S.col(a.arr, c))
            S.ensure("running value of the valid entries", S.forall(0, S.len(a.arr, 0), lambda i: S.eq(r[i, c], X(i + 1))), "C16")
        S.each("c", 0, S.len(a.arr, 1), one)

    def inv(S, v, P=P):
        def one(c):
            X = P(S, S.col(v.arr, c))
            S.ensure("columns so far", S.forall(0, S.len(v.arr, 0), lambda i: S.eq(v.out[i, c], X(i + 1))))
        S.each("c", 0, v.it, one)
    Contract(G + "_%s_nb" % nm, dict(arr=Arr_("f", "n", "m")), post=post, loops={0: Inv(inv, arb="c")}, props="C16", gen=g_arr(),
             returns=ret_arr("f", lambda a: a.arr.shape))
    Contract(G + "%s_nb" % nm, dict(arr=Arr_("f", "n", "m")), post=post, props="C16", gen=g_arr(), returns=ret_arr("f", lambda a: a.arr.shape))


def extreme_is(S, x, v, less=True):
    """v is the smallest (largest) valid value of x, NaN when x has none."""
    n = S.len(x)
    cmp_ = S.le if less else S.ge
    S.ensure("bounds every valid value", S.forall(0, n, lambda k: S.or_(S.isnan(x[k]), cmp_(v, x[k]))), "C16")
    S.ensure("is one of the values", S.exists(0, n, lambda k: S.eq(v, x[k])), "C16")


for nm, less in (("nanmin", True), ("nanmax", False)):
    def post(S, a, r, less=less):
        S.ensure("one value per column", S.eq(S.len(r), S.len(a.a, 1)), "C16")
        S.each("c", 0, S.len(a.a, 1), lambda c: extreme_is(S, S.col(a.a, c), r[c], less))

    def inv(S, v, less=less):
        S.each("c", 0, v.it, lambda c: extreme_is(S, S.col(v.a, c), v.out[c], less))
    Contract(G + nm + "_nb", dict(a=Arr_("f", "n", "m")), pre=lambda S, a: S.require(S.ge(S.len(a.a), 1), "not empty"), post=post,
             loops={0: Inv(inv, arb="c")}, props="C16", gen=g_a(True, lo=1))
    Contract(G + nm[3:] + "_reduce_nb", dict(col=Int(0), a=Arr_("f", "n")), pre=lambda S, a: S.require(S.ge(S.len(a.a), 1), "not empty"),
             post=lambda S, a, r, less=less: extreme_is(S, a.a, r, less), props="C16", gen=g_a(lo=1, col=lambda rng, n: 0))
Contract(G + "sum_reduce_nb", dict(col=Int(0), a=Arr_("f", "n")), functional=lambda S, a: red(S, "sum", a.a), props="C16",
         gen=g_a(col=lambda rng, n: 0))
Contract(G + "mean_reduce_nb", dict(col=Int(0), a=Arr_("f", "n")), functional=lambda S, a: red(S, "nanmean", a.a), props="C16",
         gen=g_a(col=lambda rng, n: 0))
Contract(G + "count_reduce_nb", dict(col=Int(0), a=Arr_("f", "n")), functional=lambda S, a: red(S, "nancnt", a.a), props="C16",
         gen=g_a(col=lambda rng, n: 0))


def nth_raise(S, a):
    n = S.len(a.a)
    return S.or_(S.ge(a.n, n), S.lt(a.n, 0 - n))


nth_gen = g_a(lo=1, col=lambda rng, n: 0, n=lambda rng, n: int(rng.integers(-n - 2, n + 2)))
Contract(G + "nth_reduce_nb", dict(col=Int(0), a=Arr_("f", "k"), n=Int()), props="C16", gen=nth_gen, raises={"ValueError": nth_raise},
         post=lambda S, a, r: S.ensure("n-th element", S.eq(r, a.a[S.ite(S.ge(a.n, 0), a.n, S.len(a.a) + a.n)]), "C16"))
Contract(G + "nth_index_reduce_nb", dict(col=Int(0), a=Arr_("f", "k"), n=Int()), props="C16", gen=nth_gen, raises={"ValueError": nth_raise},
         post=lambda S, a, r: S.ensure("index of the n-th element", S.eq(r, S.ite(S.ge(a.n, 0), a.n, S.len(a.a) + a.n)), "C16"))


def arg_post(less):
    def post(S, a, r):
        n = S.len(a.a)
        S.ensure("inside", S.and_(S.le(0, r), S.lt(r, n)), "C16")
        x = a.old.a
        cmp_, strict = (S.le, S.lt) if less else (S.ge, S.gt)
        S.ensure("position of a valid value", S.not_(S.isnan(x[r])), "C16")
        S.ensure("no value beyond it", S.forall(0, n, lambda k: S.or_(S.isnan(x[k]), cmp_(x[r], x[k]))), "C16")
        S.ensure("first such position", S.forall(0, r, lambda k: S.or_(S.isnan(x[k]), strict(x[r], x[k]))), "C16")
    return post


for nm, less in (("argmin", True), ("argmax", False)):
    Contract(G + nm + "_reduce_nb", dict(col=Int(0), a=Arr_("f", "n")), pre=lambda S, a: S.require(S.ge(S.len(a.a), 1), "not empty"),
             post=arg_post(less), props="C16", gen=g_a(lo=1, col=lambda rng, n: 0),
             raises={"ValueError": lambda S, a: S.forall(0, S.len(a.a), lambda k: S.isnan(a.a[k]))})


# --------------------------------------------------------------------------------------- crossings
def cross_state(S, a1, a2):
    """fold: (seen strictly below since the last missing value, length of the run above that ends here)."""
    def step(s, k):
        bad = S.or_(S.isnan(a1[k]), S.isnan(a2[k]))
        above = S.and_(S.not_(bad), S.gt(a1[k], a2[k]))
        below = S.and_(S.not_(bad), S.lt(a1[k], a2[k]))
        was, run = s
        return (S.and_(S.not_(bad), S.or_(was, below)), S.ite(above, run + 1, 0))
    return S.fold((False, 0), step)


def cross_post(S, a, r):
    n = S.len(a.arr1)
    X = cross_state(S, a.arr1, a.arr2)
    S.ensure("length", S.eq(S.len(r), n), "C16")
    S.ensure("above for exactly wait+1 bars, below before, nothing missing since", S.forall(0, n, lambda i: S.iff(
        S.eq(r[i], True), S.and_(X(i + 1)[0], S.eq(X(i + 1)[1], a.wait + 1)))), "C16")


def cross_inv(S, v):
    X = cross_state(S, v.arr1, v.arr2)
    i = v.it
    S.ensure("was below", S.iff(v.was_below, X(i)[0]))
    S.ensure("bars above", S.and_(S.ge(X(i)[1], 0), S.ge(v.crossed_ago, -1), S.implies(X(i)[0], S.eq(v.crossed_ago, X(i)[1] - 1)),
                                  S.implies(S.not_(X(i)[0]), S.eq(v.crossed_ago, -1))))
    S.ensure("marked so far", S.forall(0, i, lambda k: S.iff(S.eq(v.out[k], True), S.and_(X(k + 1)[0], S.eq(X(k + 1)[1], v.wait + 1)))))


def g_cross(two=False):
    def g(rng):
        n = int(rng.integers(0, 10))
        sh = (n, int(rng.integers(1, 3))) if two else (n,)
        x, y = rng.integers(0, 3, sh).astype(float), rng.integers(0, 3, sh).astype(float)
        for z in (x, y):
            if rng.random() < 0.4:
                z[rng.random(sh) < 0.15] = np.nan
        return dict(arr1=x, arr2=y, wait=int(rng.integers(0, 3)))
    return g


Contract(G + "crossed_above_1d_nb", dict(arr1=Arr_("f", "n"), arr2=Arr_("f", "n"), wait=Int(0)), post=cross_post, loops={0: cross_inv},
         props="C16", gen=g_cross(), trials=600, returns=ret_arr("b", lambda a: (a.arr1.shape[0],)))


def cross2(S, v, c):
    return NSp(arr1=S.col(v.arr1, c), arr2=S.col(v.arr2, c), wait=v.wait)


Contract(G + "crossed_above_nb", dict(arr1=Arr_("f", "n", "m"), arr2=Arr_("f", "n", "m"), wait=Int(0)), props="C16", gen=g_cross(True),
         post=lambda S, a, r: S.each("c", 0, S.len(a.arr1, 1), lambda c: cross_post(S, cross2(S, a, c), S.col(r, c))),
         loops={0: Inv(lambda S, v: S.each("c", 0, v.it, lambda c: cross_post(S, cross2(S, v, c), S.col(v.out, c))), arb="c")}, trials=300)

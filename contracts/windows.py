"""C15: rolling, expanding and exponential windows (vectorbt/generic/nb.py)."""
from .generic import *

# --------------------------------------------------------------------------------------- rolling minimum, maximum, mean
def win_lo(S, i, w):
    return S.max(i - w + 1, 0)


def in_window(S, x, i, w):
    """Number of valid values among the last w values up to i."""
    c = nancount(S, x)
    return c(i + 1) - c(win_lo(S, i, w))


def the_minp(S, a):
    return a.window if a.minp is None else a.minp


def roll_elem(S, a, i, stat):
    return S.ite(S.lt(in_window(S, a.a, i, a.window), the_minp(S, a)), S.f(S.nan), stat(S, a, i))


def min_stat(less):
    return lambda S, a, i: smallest(S, a.a, win_lo(S, i, a.window), less)(i + 1)


def mean_stat(S, a, i):
    s = nansum(S, a.a)
    lo = win_lo(S, i, a.window)
    return S.div(s(i + 1) - s(lo), S.f(in_window(S, a.a, i, a.window)))


def roll_post(stat):
    def post(S, a, r):
        n = S.len(a.a)
        S.ensure("length", S.eq(S.len(r), n), "C15")
        S.each("i", 0, n, lambda i: S.ensure("missing exactly when too few values are in the window", S.iff(
            S.isnan(r[i]), S.lt(in_window(S, a.a, i, a.window), the_minp(S, a))) if stat is not None else True, "C15"))
        S.each("i", 0, n, lambda i: S.ensure("statistic of the window", S.or_(
            S.lt(in_window(S, a.a, i, a.window), the_minp(S, a)), S.eq(r[i], stat(S, a, i))), "C15"))
    return post


def roll_pre(S, a):
    S.require(S.ge(a.window, 1), "window")
    S.require(S.ge(the_minp(S, a), 1), "minp")


def minp_raises(S, a):
    return False if a.minp is None else S.gt(a.minp, a.window)


ROLL = dict(window=Int(1), minp=OneOf(Const(None), Int(1)))
roll_gen = dict(window=lambda rng, n: int(rng.integers(1, n + 3)), minp=lambda rng, n: pick(rng, None, 1, 2, int(rng.integers(1, n + 2))))


def minmax_outer(less):
    def inv(S, v):
        S.each("i", 0, v.it, lambda i: S.ensure("window statistic so far", S.and_(
            S.implies(S.lt(in_window(S, v.a, i, v.window), v.minp), S.isnan(v.out[i])),
            S.implies(S.ge(in_window(S, v.a, i, v.window), v.minp), S.and_(S.not_(S.isnan(v.out[i])), S.eq(v.out[i], min_stat(less)(S, v, i)))))))
    return inv


def minmax_inner(less):
    var = "minv" if less else "maxv"
    f = S_lt = None

    def comb(S, s, x):
        f = S.lt if less else S.gt
        return S.ite(S.isnan(x), s, S.ite(S.or_(S.isnan(s), f(x, s)), x, s))

    def inv(S, v):
        i, j = v.i, v.it
        lo = win_lo(S, i, v.window)
        P = smallest(S, v.a, lo, less)
        c = nancount(S, v.a)
        S.ensure("counted", S.eq(v.cnt, c(j) - c(lo)))
        S.ensure("counts are not negative", S.ge(v.cnt, 0))
        S.ensure("has a value exactly when one was counted", S.iff(S.isnan(P(j)), S.eq(v.cnt, 0)))
        S.ensure("best so far", S.eq(getattr(v, var), comb(S, P(j), v.a[i])))
    return inv


def minp_set(S, v):
    pass


for nm, less in (("min", True), ("max", False)):
    Contract(G + "rolling_%s_1d_nb" % nm, dict(a=Arr_("f", "n"), **ROLL), pre=roll_pre, post=roll_post(min_stat(less)),
             loops={0: Inv(minmax_outer(less), arb="i"), 1: minmax_inner(less)}, props="C15", gen=g_a(**roll_gen), trials=500,
             raises={"ValueError": minp_raises}, returns=ret_arr("f", like_a))
    two_d(G + "rolling_%s_nb" % nm, None, "C15", others=ROLL, pre=roll_pre, post=roll_post(min_stat(less)), gen=g_a(True, **roll_gen),
          raises={"ValueError": minp_raises}, returns=ret_arr("f", lambda a: a.a.shape))


def mean_inv(S, v):
    c, s = nancount(S, v.a), nansum(S, v.a)
    it = v.it
    S.ensure("missing so far", S.eq(v.nancnt, it - c(it)))
    S.ensure("sum so far", S.eq(S.f(v.cumsum), s(it)))
    S.ensure("recorded", S.forall(0, it, lambda k: S.and_(S.eq(v.cumsum_arr[k], s(k + 1)), S.eq(v.nancnt_arr[k], S.f(k + 1 - c(k + 1))))))
    S.each("i", 0, it, lambda i: S.ensure("window mean so far", S.and_(
        S.implies(S.lt(in_window(S, v.a, i, v.window), v.minp), S.isnan(v.out[i])),
        S.implies(S.ge(in_window(S, v.a, i, v.window), v.minp), S.and_(S.not_(S.isnan(v.out[i])), S.eq(v.out[i], mean_stat(S, v, i)))))))


Contract(G + "rolling_mean_1d_nb", dict(a=Arr_("f", "n"), **ROLL), pre=roll_pre, post=roll_post(mean_stat), loops={0: Inv(mean_inv, arb="i")},
         props="C15", gen=g_a(**roll_gen), trials=500, raises={"ValueError": minp_raises}, returns=ret_arr("f", like_a))
two_d(G + "rolling_mean_nb", None, "C15", others=ROLL, pre=roll_pre, post=roll_post(mean_stat), gen=g_a(True, **roll_gen),
      raises={"ValueError": minp_raises}, returns=ret_arr("f", lambda a: a.a.shape))


# --------------------------------------------------------------------------------------- expanding
def exp_ns(S, a):
    return NSp(a=a.a, window=S.len(a.a), minp=a.minp)


EXP = dict(minp=Int(1))
exp_gen = dict(minp=lambda rng, n: int(rng.integers(1, max(n, 1) + 1)))


def expand_post(stat):
    p = roll_post(stat)
    return lambda S, a, r: p(S, exp_ns(S, a), r)


def exp_inv(less):
    var = "minv" if less else "maxv"

    def inv(S, v):
        P = smallest(S, v.a, 0, less)
        c = nancount(S, v.a)
        it = v.it
        S.ensure("counted", S.and_(S.eq(v.cnt, c(it)), S.ge(v.cnt, 0)))
        S.ensure("has a value exactly when one was counted", S.iff(S.isnan(P(it)), S.eq(c(it), 0)))
        S.ensure("best so far", S.implies(S.gt(it, 0), S.eq(getattr(v, var), P(it))))
        S.ensure("entry value", S.implies(S.eq(it, 0), S.eq(getattr(v, var), v.a[0])))
        S.each("i", 0, it, lambda i: S.ensure("statistic so far", S.eq(v.out[i], S.ite(S.lt(c(i + 1), v.minp), S.f(S.nan), P(i + 1)))))
        S.each("i", 0, it, lambda i: S.ensure("valid when enough", S.implies(S.ge(c(i + 1), v.minp), S.not_(S.isnan(v.out[i])))))
    return inv


def not_empty(S, a):
    S.require(S.ge(S.len(a.a), 1), "not empty")


for nm, less in (("min", True), ("max", False)):
    def post(S, a, r, less=less):
        n = S.len(a.a)
        P, c = smallest(S, a.a, 0, less), nancount(S, a.a)
        S.ensure("length", S.eq(S.len(r), n), "C15")
        S.each("i", 0, n, lambda i: S.ensure("statistic of all values so far", S.eq(
            r[i], S.ite(S.lt(c(i + 1), a.minp), S.f(S.nan), P(i + 1))), "C15"))
        S.each("i", 0, n, lambda i: S.ensure("valid when enough", S.implies(S.ge(c(i + 1), a.minp), S.not_(S.isnan(r[i]))), "C15"))
    Contract(G + "expanding_%s_1d_nb" % nm, dict(a=Arr_("f", "n"), **EXP), pre=not_empty, post=post, loops={0: Inv(exp_inv(less), arb="i")},
             props="C15", gen=g_a(lo=1, **exp_gen), returns=ret_arr("f", like_a), trials=400)
    two_d(G + "expanding_%s_nb" % nm, None, "C15", others=EXP, pre=not_empty, post=post, gen=g_a(True, lo=1, **exp_gen))


def exp_pre(S, a):
    S.require(S.ge(S.len(a.a), 1), "not empty")


exp_raises = {"ValueError": lambda S, a: S.gt(a.minp, S.len(a.a))}
Contract(G + "expanding_mean_1d_nb", dict(a=Arr_("f", "n"), **EXP), pre=exp_pre, post=expand_post(mean_stat), props="C15",
         gen=g_a(lo=1, **exp_gen), raises=exp_raises)
Contract(G + "expanding_mean_nb", dict(a=Arr_("f", "n", "m"), **EXP), pre=exp_pre, props="C15", gen=g_a(True, lo=1, **exp_gen), raises=exp_raises,
         post=lambda S, a, r: S.each("c", 0, S.len(a.a, 1), lambda c: expand_post(mean_stat)(S, NSp(a=S.col(a.a, c), minp=a.minp), S.col(r, c))))


# --------------------------------------------------------------------------------------- rolling standard deviation
def moments(S, s):
    """(count, sum, sum of squares) carried by the Welford state (nobs, mean, m2)."""
    n, mean, m2 = s
    return n, n * mean, m2 + (n * mean) * mean


VAR = dict(val=Float("fin|nan"), nobs=Float("fin"), mean=Float("fin"), m2=Float("fin"), compensation=Const(0.0), numerically_unstable=Bool())


def var_gen(remove):
    def g(rng):
        k = int(rng.integers(1 if remove else 0, 6))
        x = rng.integers(-4, 9, k) / 2.0
        val = pick(rng, math.nan, float(x[0]) if remove else 2.5, float(x[-1]) if remove else float(rng.integers(-3, 7)))
        if k == 1 and remove and not math.isnan(val):
            pass
        return dict(val=val, nobs=float(k), mean=float(np.mean(x)) if k else 0.0, m2=float(np.var(x) * k) if k else 0.0,
                    compensation=0.0, numerically_unstable=bool(rng.integers(2)))
    return g


def var_pre(remove):
    def pre(S, a):
        S.require(S.eq(a.compensation, 0.0), "no compensation in exact arithmetic")
        if remove:
            S.require(S.or_(S.isnan(a.val), S.ge(a.nobs, 1.0)), "something to remove")
            # the only remaining value is the one removed
            S.require(S.or_(S.isnan(a.val), S.gt(a.nobs, 1.0), S.and_(S.eq(a.nobs, 1.0))), "whole counts")
        else:
            S.require(S.ge(a.nobs, 0.0), "count")
            S.require(S.implies(S.eq(a.nobs, 0.0), S.and_(S.eq(a.mean, 0.0), S.eq(a.m2, 0.0))), "empty state")
    return pre


def var_post(remove):
    def post(S, a, r):
        nobs, mean, m2, comp, unst = r
        S.ensure("no compensation in exact arithmetic", S.eq(comp, 0.0), "C15")
        if S.split(S.isnan(a.val)):
            S.ensure("NaN changes nothing", S.and_(S.eq(nobs, a.nobs), S.eq(mean, a.mean), S.eq(m2, a.m2), S.iff(unst, a.numerically_unstable)), "C15")
            return
        n0, s0, q0 = moments(S, (S.f(a.nobs), S.f(a.mean), S.f(a.m2)))
        if remove and S.split(S.eq(a.nobs, 1.0)):
            S.ensure("empty state", S.and_(S.eq(nobs, 0.0), S.eq(mean, 0.0), S.eq(m2, 0.0)), "C15")
            return
        sg = -1 if remove else 1
        S.ensure("count", S.eq(nobs, n0 + 1.0 if not remove else n0 - 1.0), "C15")
        S.ensure("mean", S.eq(nobs * mean, s0 + a.val if not remove else s0 - a.val), "C15")
        v2 = S.f(a.val) * S.f(a.val)
        S.ensure("squares", S.eq(m2 + (nobs * mean) * mean, q0 + v2 if not remove else q0 - v2), "C15")
    return post


for nm, rem in (("_add_var_nb", False), ("_remove_var_nb", True)):
    Contract(G + nm, VAR, pre=var_pre(rem), post=var_post(rem), props="C15", gen=var_gen(rem), trials=300,
             returns=Tup(Float("fin"), Float("fin"), Float("fin"), Const(0.0), Bool()))


def nansq_(S, a):
    return nansq(S, a)


def std_stat(S, a, i):
    lo = win_lo(S, i, a.window)
    n = S.f(in_window(S, a.a, i, a.window))
    s, q = nansum(S, a.a), nansq(S, a.a)
    sm, sq = s(i + 1) - s(lo), q(i + 1) - q(lo)
    return sm, sq, n


def std_elem(S, a, i, x, props=None, lab="deviation of the window"):
    """x is the standard deviation: x >= 0 and x^2 * (n - ddof) = sum of squared deviations from the mean."""
    n = in_window(S, a.a, i, a.window)
    few = S.or_(S.lt(n, S.max(the_minp(S, a), 1)), S.le(n, a.ddof))
    S.ensure(lab + ": missing when too few", S.implies(few, S.isnan(x)), props)
    if not S.symbolic:
        if not few:
            w = np.asarray(a.a[max(0, i - a.window + 1):i + 1])
            w = w[~np.isnan(w)]
            S.ensure(lab, S.eq(x, float(np.sqrt(((w - w.mean()) ** 2).sum() / (len(w) - a.ddof)))), props)
        return
    sm, sq, nf = std_stat(S, a, i)
    m = S.div(sm, nf)
    S.ensure(lab, S.implies(S.not_(few), S.eq(x, S.sqrt(S.div(sq - sm * m, nf - S.f(a.ddof))))), props)


def std_post(S, a, r):
    n = S.len(a.a)
    S.ensure("length", S.eq(S.len(r), n), "C15")
    S.each("i", 0, n, lambda i: std_elem(S, a, i, r[i], "C15"))


def empty_window(S, a, lo, hi):
    """No valid value among a[lo..hi-1]: the sums do not change. And counts grow."""
    c, s, q = nancount(S, a), nansum(S, a), nansq(S, a)
    S.induct("sums of an empty window", lo, hi, lambda k: S.and_(S.ge(c(k) - c(lo), 0), S.implies(
        S.eq(c(k), c(lo)), S.and_(S.eq(s(k), s(lo)), S.eq(q(k), q(lo)))), S.implies(
        S.and_(S.gt(k, lo), S.not_(S.isnan(a[lo]))), S.ge(c(k) - c(lo), 1))))


def win_state(S, v, lo, hi, unstable=False):
    """The Welford state describes exactly the valid values of a[lo..hi-1]."""
    c, s, q = nancount(S, v.a), nansum(S, v.a), nansq(S, v.a)
    S.ensure("count", S.eq(v.nobs, S.f(c(hi) - c(lo))))
    S.ensure("sum", S.eq(v.nobs * v.mean, s(hi) - s(lo)))
    S.ensure("squares", S.eq(v.m2 + (v.nobs * v.mean) * v.mean, q(hi) - q(lo)))
    S.ensure("empty", S.implies(S.eq(v.nobs, 0.0), S.and_(S.eq(v.mean, 0.0), S.eq(v.m2, 0.0))))
    S.ensure("state is a number", S.not_(S.or_(S.isnan(v.nobs), S.isnan(v.mean), S.isnan(v.m2))))
    S.ensure("no compensation", S.eq(v.compensation_add, 0.0))


def std_outer(S, v):
    it = v.it
    if S.symbolic and S.mode == "assume":
        empty_window(S, v.a, S.max(it - v.window, 0), it)
        empty_window(S, v.a, S.max(it - v.window + 1, 0), it)
    S.ensure("no compensation in removal", S.eq(v.compensation_remove, 0.0))
    win_state(S, v, S.max(it - v.window, 0), it)
    S.each("i", 0, it, lambda i: std_elem(S, v, i, v.out[i]))


def std_inner(S, v):
    win_state(S, v, S.max(v.i - v.window + 1, 0), v.it)


STD = dict(ROLL, ddof=Int(0))
std_gen = dict(roll_gen, ddof=lambda rng, n: int(rng.integers(0, 3)))
zz = dict(compensation_add=Const(0.0), compensation_remove=Const(0.0), mean=Float("fin"), m2=Float("fin"), nobs=Float("fin"))
Contract(G + "rolling_std_1d_nb", dict(a=Arr_("f", "n"), **STD), pre=roll_pre, post=std_post,
         loops={0: Inv(std_outer, arb="i", havoc=zz), 1: Inv(std_inner, havoc=zz)}, props="C15", gen=g_a(**std_gen), trials=1500, assumed=True,
         raises={"ValueError": minp_raises}, returns=ret_arr("f", like_a))
two_d(G + "rolling_std_nb", None, "C15", others=STD, pre=roll_pre, post=std_post, gen=g_a(True, **std_gen),
      raises={"ValueError": minp_raises}, returns=ret_arr("f", lambda a: a.a.shape))


Contract(G + "expanding_std_1d_nb", dict(a=Arr_("f", "n"), ddof=Int(0), **EXP), pre=exp_pre, props="C15", raises=exp_raises, trials=300,
         gen=g_a(lo=1, ddof=std_gen["ddof"], **exp_gen), post=lambda S, a, r: std_post(S, NSp(a=a.a, window=S.len(a.a), minp=a.minp, ddof=a.ddof), r))
Contract(G + "expanding_std_nb", dict(a=Arr_("f", "n", "m"), ddof=Int(0), **EXP), pre=exp_pre, props="C15", raises=exp_raises,
         gen=g_a(True, lo=1, ddof=std_gen["ddof"], **exp_gen),
         post=lambda S, a, r: S.each("c", 0, S.len(a.a, 1), lambda c: std_post(
             S, NSp(a=S.col(a.a, c), window=S.len(a.a, 0), minp=a.minp, ddof=a.ddof), S.col(r, c))))


# --------------------------------------------------------------------------------------- exponential windows
def ewm_consts(S, a):
    com = S.f(a.span - 1) / 2.0 if not S.symbolic else S.div(S.f(a.span - 1), 2.0)
    alpha = S.div(S.f(1.0), 1.0 + com)
    return alpha, 1.0 - alpha


def ewm_state(S, a):
    """fold: (average, weight of the past) after the first k values; the definition of pandas' ewm mean."""
    alpha, decay = ewm_consts(S, a)
    new = S.ite(S.eq(a.adjust, True), S.f(1.0), alpha) if S.symbolic else (1.0 if a.adjust else alpha)

    def step(st, k):
        avg, w = st
        x = a.a[k]
        w2 = w * decay
        mixed = S.div(w2 * avg + new * x, w2 + new)
        first = S.isnan(avg)
        miss = S.isnan(x)
        if not S.symbolic:
            if first:
                return (x, 1.0)
            if miss:
                return (avg, w2)
            return (mixed, w2 + new if a.adjust else 1.0)
        return (S.ite(first, x, S.ite(miss, avg, mixed)), S.ite(first, S.f(1.0), S.ite(miss, w2, S.ite(S.eq(a.adjust, True), w2 + new, S.f(1.0)))))
    return S.fold((S.f(S.nan), S.f(1.0)), step)


def ewm_minp(S, a):
    return a.span if a.minp is None else a.minp


def ewm_post(S, a, r):
    n = S.len(a.a)
    E, c = ewm_state(S, a), nancount(S, a.a)
    S.ensure("length", S.eq(S.len(r), n), "C15")
    S.each("i", 0, n, lambda i: S.ensure("recursive average, missing when too few values", S.eq(
        r[i], S.ite(S.lt(c(i + 1), ewm_minp(S, a)), S.f(S.nan), E(i + 1)[0])), "C15"))


def ewm_inv(S, v):
    E, c = ewm_state(S, v), nancount(S, v.a)
    it = v.it
    S.ensure("count", S.eq(v.nobs, c(it)))
    S.ensure("average", S.eq(v.weighted_avg, E(it)[0]))
    S.ensure("weight", S.eq(v.old_wt, E(it)[1]))
    S.ensure("weight not negative", S.ge(v.old_wt, 0.0))
    S.each("i", 0, it, lambda i: S.ensure("so far", S.eq(v.out[i], S.ite(S.lt(c(i + 1), v.minp), S.f(S.nan), E(i + 1)[0]))))


EWM = dict(span=Int(1), minp=OneOf(Const(None), Int(0)), adjust=Bool(split=True))
ewm_gen = dict(span=lambda rng, n: int(rng.integers(1, n + 4)), minp=lambda rng, n: pick(rng, None, 0, 1, 2),
               adjust=lambda rng, n: bool(rng.integers(2)))
ewm_raises = {"ValueError": lambda S, a: False if a.minp is None else S.gt(a.minp, a.span)}
ewm_pre = lambda S, a: S.require(S.ge(a.span, 1), "span")
Contract(G + "ewm_mean_1d_nb", dict(a=Arr_("f", "n"), **EWM), pre=ewm_pre, post=ewm_post, loops={0: Inv(ewm_inv, arb="i")}, props="C15",
         gen=g_a(**ewm_gen), trials=600, raises=ewm_raises, returns=ret_arr("f", like_a))
two_d(G + "ewm_mean_nb", None, "C15", others=EWM, pre=ewm_pre, post=ewm_post, gen=g_a(True, **ewm_gen), raises=ewm_raises, returns=ret_arr("f", lambda a: a.a.shape))


# --------------------------------------------------------------------------------------- exponential deviation
def ewv_state(S, a):
    """fold: (mean, covariance, sum of weights, sum of squared weights, weight of the past) after the first k values (West's update)."""
    alpha, decay = ewm_consts(S, a)
    new = (S.ite(S.eq(a.adjust, True), S.f(1.0), alpha)) if S.symbolic else (1.0 if a.adjust else alpha)

    def step(st, k):
        mean, cov, sw, sw2, w = st
        x = a.a[k]
        w2, d1, d2 = w * decay, sw * decay, sw2 * (decay * decay)
        tot = w2 + new
        mean2 = S.ite(S.eq(mean, x), mean, S.div(w2 * mean + new * x, tot)) if not S.symbolic else S.ite(S.eq(mean, x), mean, S.div(w2 * mean + new * x, tot))
        cov2 = S.div(w2 * (cov + (mean - mean2) * (mean - mean2)) + new * ((x - mean2) * (x - mean2)), tot)
        s1, s2 = d1 + new, d2 + new * new
        if not S.symbolic:
            if math.isnan(mean):
                return (x, cov, sw, sw2, w)
            if math.isnan(x):
                return (mean, cov, d1, d2, w2)
            return (mean2, cov2, s1, s2, tot) if a.adjust else (mean2, cov2, s1 / tot, s2 / (tot * tot), 1.0)
        adj = S.eq(a.adjust, True)
        first, miss = S.isnan(mean), S.isnan(x)

        def sel(f, m, u):
            return S.ite(first, f, S.ite(miss, m, u))
        return (sel(x, mean, mean2), sel(cov, cov, cov2), sel(sw, d1, S.ite(adj, s1, S.div(s1, tot))),
                sel(sw2, d2, S.ite(adj, s2, S.div(s2, tot * tot))), sel(w, w2, S.ite(adj, tot, S.f(1.0))))
    return S.fold((S.f(S.nan), S.f(0.0), S.f(1.0), S.f(1.0), S.f(1.0)), step)


def ewv_elem(S, a, i):
    E, c = ewv_state(S, a), nancount(S, a.a)
    mean, cov, sw, sw2, w = E(i + 1)
    num = sw * sw
    den = num - sw2
    if not S.symbolic:
        return math.nan if i == 0 or c(i + 1) < ewm_minp(S, a) or not den > 0 else num / den * cov
    return S.ite(S.or_(S.eq(i, 0), S.lt(c(i + 1), ewm_minp(S, a)), S.le(den, 0.0)), S.f(S.nan), S.div(num, den) * cov)


def ewv_inv(S, v):
    E, c = ewv_state(S, v), nancount(S, v.a)
    it = v.it
    S.ensure("count", S.eq(v.nobs, c(it)))
    for x, k, lab in ((v.mean_x, 0, "mean"), (v.mean_y, 0, "mean"), (v.cov, 1, "cov"), (v.sum_wt, 2, "weights"), (v.sum_wt2, 3, "squared weights"), (v.old_wt, 4, "weight")):
        S.ensure(lab, S.eq(x, E(it)[k]))
    S.ensure("weight not negative", S.ge(v.old_wt, 0.0))
    S.each("i", 0, it, lambda i: S.ensure("so far", S.eq(v.out[i], ewv_elem(S, v, i))))


def ewv_post(S, a, r):
    n = S.len(a.a)
    S.ensure("length", S.eq(S.len(r), n), "C15")
    S.each("i", 0, n, lambda i: S.ensure("square root of the debiased recursive variance", S.eq(r[i], S.sqrt(ewv_elem(S, a, i))), "C15"))


EWS = dict(EWM, ddof=Const(0))
Contract(G + "ewm_std_1d_nb", dict(a=Arr_("f", "n"), **EWS), pre=ewm_pre, post=ewv_post, loops={0: Inv(ewv_inv, arb="i")}, props="C15",
         gen=g_a(ddof=lambda rng, n: 0, **ewm_gen), trials=1500, raises=ewm_raises, returns=ret_arr("f", like_a), assumed=True)
two_d(G + "ewm_std_nb", None, "C15", others=EWS, pre=ewm_pre, post=ewv_post, gen=g_a(True, ddof=lambda rng, n: 0, **ewm_gen), raises=ewm_raises,
      returns=ret_arr("f", lambda a: a.a.shape))

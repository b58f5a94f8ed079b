"""C18: returns and risk metrics (vectorbt/returns/nb.py)."""
from .common import *
import vectorbt  # noqa: F401
from .generic import two_d, nancount, elem, g_a, nan0, smallest, NSp
from . import windows  # noqa: F401  (expanding_max_1d_nb)

R = "vectorbt.returns.nb:"
G = "vectorbt.generic.nb:"
ONE = lambda S: S.f(1.0)
P = "C18"


# --------------------------------------------------------------------------------------- vocabulary
def val(S, x):
    return S.f(x)


def cnt(S, a):
    """number of valid elements"""
    return S.over(a, 0, lambda s, x: s + S.i(S.not_(S.isnan(x))))


def total(S, a, f=None):
    """sum of f over the valid elements"""
    g = f or (lambda x: x)
    return S.over(a, S.f(0.0), lambda s, x: s + S.nan_to(g(x), 0))


def growth(S, a):
    """product of 1 + r over the valid returns"""
    return S.over(a, S.f(1.0), lambda s, x: s * S.nan_to(x + 1, 1))


def mean_of(S, a, f=None):
    n = cnt(S, a)
    if not S.symbolic:
        return total(S, a, f) / n if n else math.nan
    return S.ite(S.eq(n, 0), S.f(S.nan), S.div(total(S, a, f), S.f(n)))


def dev_of(S, a, f, ddof):
    """standard deviation of f over the valid elements, with ddof taken off the count"""
    n = cnt(S, a)
    m = S.div(total(S, a, f), S.f(n)) if S.symbolic else mean_of(S, a, f)
    sq = S.over(a, S.f(0.0), lambda s, x: s + S.nan_to(f(x) - m, 0) * S.nan_to(f(x) - m, 0))
    if not S.symbolic:
        return math.sqrt(sq / (n - ddof)) if n > ddof else math.nan
    c = S.len(a) - S.over(a, 0, lambda s, x: s + S.i(S.isnan(f(x))))     # as many as n (std_hints)
    var = S.div(sq, S.f(n))
    return S.ite(S.gt(c - ddof, 0), S.sqrt(S.div(var * S.f(c), S.f(c - ddof))), S.f(S.nan))


def when(S, *pairs):
    """first value whose condition holds; the last entry is the default (thunks)"""
    *conds, last = pairs
    if not S.symbolic:
        for c, v in conds:
            if c:
                return v()
        return last()
    out = last()
    for c, v in reversed(conds):
        out = S.ite(c, v(), out)
    return out


def quot(S, x, y):
    """x / y for y not zero"""
    return S.div(x, y) if S.symbolic else (x / y if y else math.nan)


# --------------------------------------------------------------------------------------- generic deviation
def gstd(S, a):
    return dev_of(S, a.a, lambda x: x, a.ddof)


def nonneg(S, a, f, n=None):
    """sums of squares and counts are not negative"""
    S.induct("squares add up", 0, S.len(a), lambda k: S.and_(
        S.ge(S.fold(0, lambda s, j: s + S.i(S.not_(S.isnan(a[j]))))(k), 0),
        S.ge(S.fold(S.f(0.0), lambda s, j: s + S.nan_to(f(a[j]), 0) * S.nan_to(f(a[j]), 0))(k), 0.0)))


def std_hints(S, v, results, r):
    a = v.a
    S.induct("valid and missing make all", 0, S.len(a), lambda k: S.eq(S.count(lambda j: S.isnan(a[j]))(k) + S.fold(
        0, lambda s, j: s + S.i(S.not_(S.isnan(a[j]))))(k), k))
    m = S.div(total(S, a), S.f(cnt(S, a)))
    nonneg(S, a, lambda x: x - m)


Contract(G + "nanstd_1d_nb", dict(a=Arr_("f", "n"), ddof=Int(0)), functional=gstd, hints=std_hints, props="C16 C18", trials=300,
         gen=g_a(ddof=lambda rng, n: int(rng.integers(0, 3))))


# --------------------------------------------------------------------------------------- simple returns
def one_return(S, a):
    x, y = S.f(a.input_value), S.f(a.output_value)
    if not S.symbolic:
        if x == 0:
            return 0.0 if y == 0 else math.nan if math.isnan(y) else math.copysign(math.inf, y)
        r = (y - x) / x
        return -r if x < 0 else r
    if S.split(S.eq(x, 0.0)):
        if S.split(S.eq(y, 0.0)):
            return S.f(0.0)
        return S.f(S.nan) if S.split(S.isnan(y)) else S.f(S.inf) if S.split(S.gt(y, 0.0)) else S.f(0.0) - S.f(S.inf)
    r = S.div(y - x, x)
    return -r if S.split(S.lt(x, 0.0)) else r


Contract(R + "get_return_nb", dict(input_value=Float("fin|nan"), output_value=Float("fin|nan")), functional=one_return, props=P, trials=400)


def step_ok(S, prev, cur, r):
    """r is the return from prev to cur"""
    if not S.symbolic:
        w = one_return(S, NSp(input_value=prev, output_value=cur))
        return (math.isnan(w) and math.isnan(r)) or w == r or abs(w - r) < 1e-9
    x, y = S.f(prev), S.f(cur)
    q = S.div(y - x, S.ite(S.eq(x, 0.0), S.f(1.0), x))
    fin = S.eq(r, S.ite(S.lt(x, 0.0), -q, q))
    zero = S.and_(S.implies(S.eq(y, 0.0), S.eq(r, 0.0)), S.implies(S.isnan(y), S.isnan(r)),
                  S.implies(S.gt(y, 0.0), S.eq(r, S.inf)), S.implies(S.lt(y, 0.0), S.eq(r, -S.inf)))
    return S.ite(S.eq(x, 0.0), zero, fin)


def ret_post(S, a, r):
    n = S.len(a.value)
    S.ensure("length", S.eq(S.len(r), n), P)
    S.each("i", 0, n, lambda i: S.ensure("return over the previous value", S.and_(
        S.implies(S.eq(i, 0), step_ok(S, a.init_value, a.value[i], r[i])), S.implies(S.gt(i, 0), step_ok(S, a.value[S.ite(S.gt(i, 0), i - 1, 0)], a.value[i], r[i]))), P))


def ret_inv(S, v):
    i = v.it
    S.ensure("previous value", S.and_(S.implies(S.eq(i, 0), S.eq(v.input_value, v.init_value)), S.implies(S.gt(i, 0), S.eq(v.input_value, v.value[S.ite(S.gt(i, 0), i - 1, 0)]))))
    S.each("i", 0, i, lambda i: S.ensure("returns so far", S.and_(
        S.implies(S.eq(i, 0), step_ok(S, v.init_value, v.value[i], v.out[i])), S.implies(S.gt(i, 0), step_ok(S, v.value[S.ite(S.gt(i, 0), i - 1, 0)], v.value[i], v.out[i])))))


def g_val(two=False):
    def g(rng):
        n, m = int(rng.integers(0, 6)), int(rng.integers(1, 4))
        v = rng.choice([0.0, 1.0, 2.0, 4.0, -2.0, 0.5, np.nan], (n, m), p=[.1, .2, .2, .2, .1, .1, .1])
        iv = rng.choice([1.0, 2.0, 0.0, -1.0, 100.0], m)
        return dict(value=v, init_value=iv) if two else dict(value=v[:, 0].copy(), init_value=float(iv[0]))
    return g


Contract(R + "returns_1d_nb", dict(value=Arr_("f", "n"), init_value=Float("fin|nan")), post=ret_post, loops={0: Inv(ret_inv, arb="i")}, props=P,
         gen=g_val(), trials=300, returns=ret_arr("f", lambda a: (a.value.shape[0],), inf=True))


def col_ret(S, v, r, c):
    ret_post(S, NSp(value=S.col(v.value, c), init_value=v.init_value[c]), S.col(r, c))


Contract(R + "returns_nb", dict(value=Arr_("f", "n", "m"), init_value=Arr_("f", "m")), props=P, gen=g_val(True), trials=300,
         post=lambda S, a, r: S.each("c", 0, S.len(a.value, 1), lambda c: col_ret(S, a, r, c)),
         loops={0: Inv(lambda S, v: S.each("c", 0, v.it, lambda c: col_ret(S, v, v.out, c)), arb="c")})


# --------------------------------------------------------------------------------------- compounding
def cum(S, a):
    """growth after the first k returns"""
    return S.fold(S.f(1.0), lambda s, k: S.ite(S.isnan(a[k]), s, s * (a[k] + 1)))


def cum_value(S, a, k):
    c = cum(S, a.returns)(k)
    return S.ite(S.eq(a.start_value, 0.0), c - 1, c * a.start_value)


def cum_post(S, a, r):
    S.ensure("length", S.eq(S.len(r), S.len(a.returns)), P)
    S.each("i", 0, S.len(a.returns), lambda i: S.ensure("compounded return", S.eq(r[i], cum_value(S, a, i + 1)), P))


def cum_inv(S, v):
    C = cum(S, v.returns)
    S.ensure("growth so far", S.eq(v.cumprod, C(v.it)))
    S.each("i", 0, v.it, lambda i: S.ensure("growth at each bar", S.eq(v.out[i], C(i + 1))))


def g_ret(two=False, nanp=0.25, lo=0, **extra):
    def g(rng):
        n, m = int(rng.integers(lo, 8)), int(rng.integers(1, 4))
        r = rng.integers(-4, 5, (n, m)) / 8
        if rng.random() < nanp:
            r[rng.random((n, m)) < 0.25] = np.nan
        d = dict(returns=r if two else r[:, 0].copy())
        for k, f in extra.items():
            d[k] = f(rng, n, m) if callable(f) else f
        return d
    return g


START = dict(start_value=Float("fin"))
gs = dict(start_value=lambda rng, n, m: float(rng.choice([0.0, 1.0, 100.0, 0.5])))
Contract(R + "cum_returns_1d_nb", dict(returns=Arr_("f", "n"), **START), post=cum_post, loops={0: Inv(cum_inv, arb="i")}, props=P, gen=g_ret(**gs),
         trials=300, returns=ret_arr("f", lambda a: (a.returns.shape[0],)))
two_d(R + "cum_returns_nb", None, P, arr="returns", others=START, post=cum_post, gen=g_ret(True, **gs))


def cum_final(S, a):
    g = growth(S, a.returns)
    return when(S, (S.eq(a.start_value, 0.0), lambda: g - 1), lambda: g * S.f(a.start_value))


def total_is_last(S, a):
    """the product over the valid returns is the last compounded value"""
    r = a.returns
    if S.symbolic:
        C = cum(S, r)
        S.induct("product is the compounded value", 0, S.len(r), lambda k: S.eq(
            S.fold(S.f(1.0), lambda s, j: s * S.nan_to(r[j] + 1, 1))(k), C(k)))


def fin_post(S, a, r):
    if S.symbolic and S.mode == "prove":
        total_is_last(S, a)
    if S.symbolic and not hasattr(a.returns, "mask") or not S.symbolic:
        S.ensure("the last compounded value", S.eq(r, cum_value(S, a, S.len(a.returns))), P)


def reducer(name, params, fn, gen, props=P, pre=None, post=None, raises=None, trials=200, arrs=("returns",), lo=0, **kw):
    """The 1-dim metric and its 2-dim version, which is the metric of every column alone."""
    one = {k: Arr_("f", "n") for k in arrs}
    two = {k: Arr_("f", "n", "m") for k in arrs}

    def pos(S, a):
        for k in ("ann_factor", "levy_alpha"):
            if k in params:
                S.require(S.gt(getattr(a, k), 0.0), k)
        if pre is not None:
            pre(S, a)
    Contract(R + name + "_1d_nb", dict(one, **params), functional=fn, post=post, pre=pos, gen=gen(False), props=props, trials=trials, **kw)

    def ns(S, v, c):
        d = {k: getattr(v, k) for k in params}
        d.update({k: S.col(getattr(v, k), c) for k in arrs})
        return NSp(**d)

    def inv(S, v):
        S.each("c", 0, v.it, lambda c: S.ensure("metric of each column so far", S.eq(v.out[c], fn(S, ns(S, v, c)))))

    def post2(S, a, r):
        m = S.len(getattr(a, arrs[0]), 1)
        S.ensure("one value per column", S.eq(S.len(r), m), props)
        S.each("c", 0, m, lambda c: S.ensure("metric of the column alone", S.eq(r[c], fn(S, ns(S, a, c))), props))
    kw2 = dict(every=("pre",)) if pre is not None else {}
    Contract(R + name + "_nb", dict(two, **params), post=post2, **kw2, loops={0: Inv(inv, arb="c")}, gen=gen(True), props=props, trials=trials,
             pre=lambda S, a: (pos(S, NSp(**{k: getattr(a, k) for k in params})) if pre is None else S.each("c", 0, S.len(a.returns, 1), lambda c: pos(S, ns(S, a, c)))))


def gr(nanp=0.25, lo=0, bench=False, **extra):
    def mk(two):
        if bench:
            extra2 = dict(extra, benchmark_rets=lambda rng, n, m: b_arr(rng, n, m, two))
        else:
            extra2 = extra
        return g_ret(two, nanp, lo, **extra2)
    return mk


def b_arr(rng, n, m, two):
    b = rng.integers(-4, 5, (n, m)) / 8
    return b if two else b[:, 0].copy()


def pick_(*xs):
    return lambda rng, n, m: xs[int(rng.integers(len(xs)))]


reducer("cum_returns_final", START, cum_final, gr(**gs), post=fin_post)
ANN = dict(ann_factor=Float("fin"))
ga = dict(ann_factor=pick_(1.0, 2.0, 252.0, 365.0))


def annual(S, returns, ann):
    n = S.len(returns)
    g = growth(S, returns)
    g = when(S, (S.eq(S.f(1.0), 0.0), lambda: g - 1), lambda: g * S.f(1.0)) if False else g
    return when(S, (S.eq(n, 0), lambda: S.f(S.nan)), lambda: S.pow(g, quot(S, S.f(ann), S.f(n))) - 1)


reducer("annualized_return", ANN, lambda S, a: annual(S, a.returns, a.ann_factor), gr(**ga))


def volatility(S, a):
    return when(S, (S.lt(S.len(a.returns), 2), lambda: S.f(S.nan)), lambda: dev_of(S, a.returns, lambda x: x, a.ddof) * S.pow(
        S.f(a.ann_factor), quot(S, S.f(1.0), S.f(a.levy_alpha))))


DD = dict(ddof=Int(0))
gd = dict(ddof=pick_(0, 1, 2))
reducer("annualized_volatility", dict(ANN, levy_alpha=Float("fin"), **DD), volatility, gr(levy_alpha=pick_(2.0, 1.5), **ga, **gd))

RF = dict(risk_free=Float("fin"))
RQ = dict(required_return=Float("fin"))
gf, gq = dict(risk_free=pick_(0.0, 0.125, -0.0625)), dict(required_return=pick_(0.0, 0.125, -0.0625))


def sharpe(S, a):
    f = lambda x: x - S.f(a.risk_free)
    std = dev_of(S, a.returns, f, a.ddof)
    return when(S, (S.lt(S.len(a.returns), 2), lambda: S.f(S.nan)), (S.eq(std, 0.0), lambda: S.f(S.inf)),
                lambda: quot(S, mean_of(S, a.returns, f), std) * S.sqrt(S.f(a.ann_factor)))


reducer("sharpe_ratio", dict(ANN, **RF, **DD), sharpe, gr(**ga, **gf, **gd))


def below(S, req):
    def f(x):
        d = x - S.f(req)
        return S.ite(S.gt(d, 0.0), S.f(0.0), d)
    return f


def downside(S, returns, ann, req):
    f = below(S, req)
    return S.sqrt(mean_of(S, returns, lambda x: f(x) * f(x))) * S.sqrt(S.f(ann))


def down_hints(S, v, results, r):
    a, adj, f = v.old.returns, v.adj_returns, below(S, v.required_return)
    S.induct("same squares", 0, S.len(a), lambda k: S.and_(
        S.eq(S.fold(0, lambda s, j: s + S.i(S.not_(S.isnan(adj[j] * adj[j]))))(k), S.fold(0, lambda s, j: s + S.i(S.not_(S.isnan(a[j]))))(k)),
        S.eq(S.fold(S.f(0.0), lambda s, j: s + S.nan_to(adj[j] * adj[j], 0))(k), S.fold(S.f(0.0), lambda s, j: s + S.nan_to(f(a[j]) * f(a[j]), 0))(k)),
        S.ge(S.fold(0, lambda s, j: s + S.i(S.not_(S.isnan(a[j]))))(k), 0),
        S.ge(S.fold(S.f(0.0), lambda s, j: s + S.nan_to(f(a[j]) * f(a[j]), 0))(k), 0.0)))


reducer("downside_risk", dict(ANN, **RQ), lambda S, a: downside(S, a.returns, a.ann_factor, a.required_return), gr(**ga, **gq), hints=down_hints)


def sortino(S, a):
    d = downside(S, a.returns, a.ann_factor, a.required_return)
    return when(S, (S.lt(S.len(a.returns), 2), lambda: S.f(S.nan)), (S.eq(d, 0.0), lambda: S.f(S.inf)),
                lambda: quot(S, mean_of(S, a.returns, lambda x: x - S.f(a.required_return)) * S.f(a.ann_factor), d))


reducer("sortino_ratio", dict(ANN, **RQ), sortino, gr(**ga, **gq))


# --------------------------------------------------------------------------------------- drawdown
def value_at(S, returns):
    """value after bar k of 100 units compounding the returns"""
    C = cum(S, returns)
    return lambda k: C(k + 1) * 100


def top_of(S, x):
    """largest valid value of x(0..k-1)"""
    return S.fold(S.f(S.nan), lambda s, k: S.ite(S.isnan(x(k)), s, S.ite(S.or_(S.isnan(s), S.gt(x(k), s)), x(k), s)))


def dd_at(S, returns):
    x = value_at(S, returns)
    T = top_of(S, x)
    return lambda k: S.ieee_div(x(k), T(k + 1)) - 1


def dd_post(S, a, r):
    n = S.len(a.returns)
    d = dd_at(S, a.returns)
    S.ensure("length", S.eq(S.len(r), n), P)
    S.each("i", 0, n, lambda i: S.ensure("fall from the running maximum", S.eq(r[i], d(i)), P))


def some(S, a):
    S.require(S.ge(S.len(a.returns), 1), "not empty")


def dd_hints(S, v, results, r):
    """the running maximum of the compounded values is the fold of the specification"""
    x = results["cum_returns_1d_nb"][-1]
    n = S.len(v.returns)
    xs = value_at(S, v.returns)
    m, m2 = top_of(S, lambda k: x[k]), top_of(S, xs)
    c = nancount(S, x)
    S.each("i", 0, n, lambda i: S.induct("same running maximum", 0, S.ite(S.lt(i, n), i + 1, n), lambda k: S.and_(
        S.not_(S.isnan(xs(k - 1))), S.eq(c(k), k), S.eq(m(k), m2(k)))))


gl = lambda two: g_ret(two, lo=1)
Contract(R + "drawdown_1d_nb", dict(returns=Arr_("f", "n")), pre=some, post=dd_post, hints=dd_hints, every=("cum_returns_1d_nb", "expanding_max_1d_nb"), props=P, gen=gl(False), trials=300,
         returns=ret_arr("f", lambda a: (a.returns.shape[0],), inf=True))
two_d(R + "drawdown_nb", None, P, arr="returns", pre=some, post=dd_post, gen=gl(True))


def solvent(S, a):
    """no return takes away more than everything, and the first one leaves something"""
    some(S, a)
    r = a.returns
    S.require(S.forall(0, S.len(r), lambda k: S.or_(S.isnan(r[k]), S.ge(r[k], -1.0))), "returns not below -1")
    S.require(S.or_(S.isnan(r[0]), S.gt(r[0], -1.0)), "something is left after the first bar")


def mdd(S, returns):
    d = dd_at(S, returns)
    return S.fold(S.f(0.0), lambda s, k: S.ite(S.lt(d(k), s), d(k), s))


def mdd_hints(S, v, results, r):
    n = S.len(v.returns)
    d, F = dd_at(S, v.returns), mdd(S, v.returns)
    x = value_at(S, v.returns)
    T = top_of(S, x)
    w = results["extreme at"][-1]
    r = S.f(r)
    S.induct("values are covered by their maximum", 0, n, lambda k: S.and_(
        S.ge(x(k - 1), 0.0), S.not_(S.isnan(x(k - 1))), S.implies(S.eq(k, 0), S.gt(x(k - 1), 0.0)),
        S.implies(S.gt(k, 0), S.and_(S.gt(T(k), 0.0), S.not_(S.isnan(T(k))), S.ge(T(k), x(k - 1)), S.ge(d(k - 1), -1.0), S.le(d(k - 1), 0.0)))), every=True)
    S.induct("fall bounded", 0, n, lambda k: S.and_(S.le(F(k), 0.0), S.ge(F(k), -1.0)), every=True)
    S.ensure("result is one of the falls", S.and_(S.eq(r, d(w)), S.le(r, 0.0), S.ge(r, -1.0)), lemma=True)
    arr = results["drawdown_1d_nb"][-1]
    A = S.fold(S.f(0.0), lambda s, k: S.ite(S.lt(arr[k], s), arr[k], s))
    S.induct("same falls", 0, n, lambda k: S.eq(A(k), F(k)))
    S.induct("not above the smallest", 0, n, lambda k: S.and_(S.le(r, A(k)), S.not_(S.isnan(A(k)))))
    S.induct("reached", 0, n, lambda k: S.and_(S.le(A(k), 0.0), S.implies(S.gt(k, w), S.le(A(k), r))))


def mdd_post(S, a, r):
    d = dd_at(S, a.returns)
    S.ensure("between -1 and 0", S.and_(S.ge(r, -1.0), S.le(r, 0.0)), P)
    S.each("i", 0, S.len(a.returns), lambda i: S.ensure("no bar falls further", S.le(r, d(i)), P))


def g_solv(two):
    def g(rng):
        d = g_ret(two, lo=1)(rng)
        r = d["returns"]
        r[:] = np.where(rng.random(r.shape) < 0.05, -1.0, r)
        r[0] = np.where(r[0] == -1.0, 0.5, r[0])
        return d
    return g


reducer("max_drawdown", {}, lambda S, a: mdd(S, a.returns)(S.len(a.returns)), g_solv, pre=solvent, post=mdd_post, hints=mdd_hints, every=("drawdown_1d_nb",))


def calmar(S, a):
    m = mdd(S, a.returns)(S.len(a.returns))
    g = annual(S, a.returns, a.ann_factor)
    return when(S, (S.eq(m, 0.0), lambda: S.f(S.nan)), lambda: quot(S, g, S.abs(m)))


reducer("calmar_ratio", ANN, calmar, lambda two: (lambda rng: dict(g_solv(two)(rng), ann_factor=ga["ann_factor"](rng, 1, 1))), pre=solvent)


# --------------------------------------------------------------------------------------- gains over losses
def omega(S, a):
    def value(th):
        up = S.over(a.returns, S.f(0.0), lambda s, x: S.ite(S.gt(x - S.f(a.risk_free) - th, 0.0), s + (x - S.f(a.risk_free) - th), s))
        down = S.over(a.returns, S.f(0.0), lambda s, x: S.ite(S.lt(x - S.f(a.risk_free) - th, 0.0), s + (x - S.f(a.risk_free) - th), s)) * -1.0
        return when(S, (S.eq(down, 0.0), lambda: S.f(S.inf)), lambda: quot(S, up, down))
    req = S.f(a.required_return)
    return when(S, (S.eq(a.ann_factor, 1), lambda: value(req)),
                lambda: value(S.pow(S.f(1.0) + req, quot(S, S.f(1.0), S.f(a.ann_factor))) - 1))


reducer("omega_ratio", dict(ANN, **RF, **RQ), omega, gr(**ga, **gf, **gq), pre=lambda S, a: S.require(S.gt(a.required_return, -1.0), "required return"))


# --------------------------------------------------------------------------------------- against a benchmark
TWO = ("returns", "benchmark_rets")


def info(S, a):
    d = S.map(lambda x, y: x - y, a.returns, a.benchmark_rets)
    std = dev_of(S, d, lambda x: x, a.ddof)
    return when(S, (S.lt(S.len(a.returns), 2), lambda: S.f(S.nan)), (S.eq(std, 0.0), lambda: S.f(S.inf)),
                lambda: quot(S, mean_of(S, d), std))


reducer("information_ratio", DD, info, gr(bench=True, **gd), arrs=TWO)


def mean_raw(S, x):
    """mean of the valid elements, when there is one"""
    return S.div(total(S, x), S.f(cnt(S, x))) if S.symbolic else mean_of(S, x)


def beta(S, r, b):
    """covariance with the benchmark over its variance, over the bars where the return is valid"""
    ind = S.map(lambda x, y: S.ite(S.isnan(x), S.f(S.nan), y), r, b)
    m = mean_raw(S, ind)
    both, res = S.map(lambda x, y: (x - m) * y, ind, r), S.map(lambda x: (x - m) * (x - m), ind)
    var = mean_raw(S, res)
    return when(S, (S.lt(S.len(b), 2), lambda: S.f(S.nan)), (S.or_(*[S.eq(cnt(S, x), 0) for x in (ind, both, res)]), lambda: S.f(S.nan)),
                (S.lt(var, 1.0e-30), lambda: S.f(S.nan)), lambda: quot(S, mean_raw(S, both), var))


reducer("beta", {}, lambda S, a: beta(S, a.returns, a.benchmark_rets), gr(bench=True), arrs=TWO)


def excess(S, a, be):
    rf = S.f(a.risk_free)
    return S.map(lambda x, y: x - rf - be * (y - rf), a.returns, a.benchmark_rets)


def alpha(S, a, be=None):
    x = excess(S, a, beta(S, a.returns, a.benchmark_rets) if be is None else be)
    return when(S, (S.lt(S.len(a.returns), 2), lambda: S.f(S.nan)), (S.eq(cnt(S, x), 0), lambda: S.f(S.nan)),
                lambda: S.pow(mean_raw(S, x) + 1, S.f(a.ann_factor)) - 1)


def alpha_hints(S, v, results, r):
    if "beta_1d_nb" not in results:
        return
    be, n = results["beta_1d_nb"][-1], S.len(v.returns)
    x, y = v.alpha_series, excess(S, v, beta(S, v.returns, v.benchmark_rets))
    for f in (lambda s, t: s + S.i(S.not_(S.isnan(t))), lambda s, t: s + S.nan_to(t, 0)):
        i = 0 if f(0, S.f(0.0)).__class__ is int else S.f(0.0)
        S.induct("same excess", 0, n, lambda k: S.eq(S.fold(i, lambda s, j: f(s, x[j]))(k), S.fold(i, lambda s, j: f(s, y[j]))(k)))


reducer("alpha", dict(ANN, **RF), alpha, gr(bench=True, ann_factor=pick_(1.0, 2.0, 4.0), risk_free=pick_(0.0, 0.125)), arrs=TWO, hints=alpha_hints)
gpos = dict(ann_factor=pick_(1.0, 2.0, 12.0))


def capture(S, a, mask=None):
    r, b = a.returns, a.benchmark_rets
    if mask is not None:
        m = S.map_mask(mask, b)
        r, b = S.select(r, m), S.select(b, m)
    x, y = annual(S, r, a.ann_factor), annual(S, b, a.ann_factor)
    v = lambda: when(S, (S.eq(y, 0.0), lambda: S.f(S.inf)), lambda: quot(S, x, y))
    return when(S, (S.lt(S.len(r), 1), lambda: S.f(S.nan)), v) if mask else v()


reducer("capture", ANN, capture, gr(bench=True, **gpos), arrs=TWO)
reducer("up_capture", ANN, lambda S, a: capture(S, a, lambda y: S.gt(y, 0.0)), gr(bench=True, **gpos), arrs=TWO)
reducer("down_capture", ANN, lambda S, a: capture(S, a, lambda y: S.lt(y, 0.0)), gr(bench=True, **gpos), arrs=TWO)


# --------------------------------------------------------------------------------------- tails
def valid_part(S, r):
    return S.select(r, S.map_mask(lambda x: S.not_(S.isnan(x)), r))


def tail(S, a):
    x = valid_part(S, a.returns)
    hi, lo = lambda: S.abs(S.percentile(x, 95)), lambda: S.abs(S.percentile(x, 5))
    return when(S, (S.lt(S.len(x), 1), lambda: S.f(S.nan)), (S.eq(lo() if S.symbolic or len(x) else 1.0, 0.0), lambda: S.f(S.inf)), lambda: quot(S, hi(), lo()))


reducer("tail_ratio", {}, tail, gr())


def var_(S, a):
    x = valid_part(S, a.returns)
    return when(S, (S.lt(S.len(x), 1), lambda: S.f(S.nan)), lambda: S.percentile(x, S.f(a.cutoff) * 100))


CUT = dict(cutoff=Float("fin"))


def in_unit(S, a):
    S.require(S.and_(S.ge(a.cutoff, 0.0), S.le(a.cutoff, 1.0)), "cutoff")


reducer("value_at_risk", CUT, var_, gr(cutoff=pick_(0.05, 0.5, 0.25)), pre=in_unit)


# the mean of the partitioned part is the library's (np.partition): checked by the trials only
def cvar(S, a):
    n = S.len(a.returns)
    if not n:
        return math.nan
    k = int((n - 1) * a.cutoff) + 1
    s = sorted((float(x) for x in a.returns), key=lambda x: (math.isnan(x), x))[:k]
    return sum(s) / k


Contract(R + "cond_value_at_risk_1d_nb", dict(returns=Arr_("f", "n"), **CUT), functional=cvar, props=P, assumed=True, trials=300,
         gen=gr(nanp=0.1, cutoff=pick_(0.05, 0.5, 0.25, 0.75))(False), note="np.partition: bounded only")


# --------------------------------------------------------------------------------------- the returns compound back to the values
def back_pre(S, a):
    v, r = a.value, a.returns
    n = S.len(v)
    prev = lambda k: S.ite(S.eq(k, 0), S.f(a.init_value), v[S.ite(S.gt(k, 0), k - 1, 0)])
    S.require(S.gt(a.init_value, 0.0), "positive start")
    S.require(S.forall(0, n, lambda k: S.gt(v[k], 0.0)), "positive values")
    S.require(S.forall(0, n, lambda k: step_ok(S, prev(k), v[k], r[k])), "each return is over the previous value")     # returns_1d_nb's postcondition


def back_post(S, a, r):
    v = a.value
    C = cum(S, a.returns)
    S.induct("compounding", 0, S.len(v), lambda k: S.and_(S.not_(S.isnan(C(k))), S.eq(
        C(k) * S.f(a.init_value), S.ite(S.eq(k, 0), S.f(a.init_value), v[S.ite(S.gt(k, 0), k - 1, 0)]))), P, every=True)
    S.each("i", 0, S.len(v), lambda i: S.ensure("compounding the returns gives back the value", S.eq(C(i + 1) * S.f(a.init_value), v[i]), P))


Contract("lemma:returns_compound_back", dict(value=Arr_("f", "n", nan=False), init_value=Float("fin"), returns=Arr_("f", "n")), pre=back_pre, post=back_post, props=P)

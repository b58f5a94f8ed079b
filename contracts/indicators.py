"""C19: the kernels of the built-in indicators (vectorbt/indicators/nb.py)."""
from .windows import *

I = "vectorbt.indicators.nb:"


def win_ns(S, a, window, **kw):
    return NSp(a=a, window=window, minp=window, **kw)


def ewm_ns(S, a, span, adjust, **kw):
    return NSp(a=a, span=span, minp=span, adjust=adjust, **kw)


def ma_is(S, x, window, ewm, adjust, r):
    """r is the simple (exponential) moving average of the 1-dim array x, missing until the window is full."""
    if S.split(ewm) if S.symbolic else ewm:
        ewm_post(S, ewm_ns(S, x, window, adjust), r)
    else:
        roll_post(mean_stat)(S, win_ns(S, x, window), r)


def std_is(S, x, window, ewm, adjust, ddof, r):
    if S.split(ewm) if S.symbolic else ewm:
        ewv_post(S, ewm_ns(S, x, window, adjust, ddof=ddof), r)
    else:
        std_post(S, win_ns(S, x, window, ddof=ddof), r)


def shape_of(S, r, a):
    S.ensure("shape", S.and_(S.eq(S.len(r, 0), S.len(a, 0)), S.eq(S.len(r, 1), S.len(a, 1))), "C19")


def ma_post(S, a, r):
    shape_of(S, r, a.a)
    S.each("c", 0, S.len(a.a, 1), lambda c: ma_is(S, S.col(a.a, c), a.window, a.ewm, a.adjust, S.col(r, c)))


def mstd_post(S, a, r):
    shape_of(S, r, a.a)
    S.each("c", 0, S.len(a.a, 1), lambda c: std_is(S, S.col(a.a, c), a.window, a.ewm, a.adjust, a.ddof, S.col(r, c)))


MA = dict(window=Int(1), ewm=Bool(split=True), adjust=Bool(split=True))
ma_gen = dict(window=lambda rng, n: int(rng.integers(1, n + 3)), ewm=lambda rng, n: bool(rng.integers(2)), adjust=lambda rng, n: bool(rng.integers(2)))
same_shape = lambda a: a.a.shape
Contract(I + "ma_nb", dict(a=Arr_("f", "n", "m"), **MA), post=ma_post, props="C19", gen=g_a(True, **ma_gen), trials=300,
         returns=ret_arr("f", same_shape))
Contract(I + "mstd_nb", dict(a=Arr_("f", "n", "m"), ddof=Int(0), **MA), post=mstd_post, props="C19", trials=300,
         pre=lambda S, a: S.require(S.or_(S.not_(a.ewm), S.eq(a.ddof, 0)), "no correction of the exponential deviation"),
         gen=(lambda g: lambda rng: (lambda d: dict(d, ddof=0 if d["ewm"] else d["ddof"]))(g(rng)))(g_a(True, ddof=std_gen["ddof"], **ma_gen)),
         returns=ret_arr("f", same_shape))


# --------------------------------------------------------------------------------------- true range
def true_range(S, a, i, c):
    tr1 = a.high[i, c] - a.low[i, c]
    if not S.symbolic and i == 0:
        return tr1
    p = a.close[i - 1, c]
    t = S.max(S.max(tr1, S.abs(a.high[i, c] - p)), S.abs(a.low[i, c] - p))
    return t if not S.symbolic else S.ite(S.eq(i, 0), tr1, t)


def tr_post(S, a, r):
    n, m = S.len(a.high, 0), S.len(a.high, 1)
    S.ensure("shape", S.and_(S.eq(S.len(r, 0), n), S.eq(S.len(r, 1), m)), "C19")
    S.each("c", 0, m, lambda c: S.each("i", 0, n, lambda i: S.ensure("range of the bar and of its gaps", S.eq(r[i, c], true_range(S, a, i, c)), "C19")))
    S.each("c", 0, m, lambda c: S.each("i", 0, n, lambda i: S.ensure(
        "at least the range of the bar", S.ge(r[i, c], a.high[i, c] - a.low[i, c]), "C19")))
    S.each("c", 0, m, lambda c: S.each("i", 1, n, lambda i: S.ensure("at least the gap from the previous close", S.and_(
        S.ge(r[i, c], S.abs(a.high[i, c] - a.close[i - 1, c])), S.ge(r[i, c], S.abs(a.low[i, c] - a.close[i - 1, c]))), "C19")))


def tr_outer(S, v):
    S.each("c", 0, v.it, lambda c: S.each("i", 0, S.len(v.high, 0), lambda i: S.ensure("columns so far", S.eq(v.tr[i, c], true_range(S, v, i, c)))))


def tr_inner(S, v):
    S.each("c", 0, v.col, lambda c: S.each("i", 0, S.len(v.high, 0), lambda i: S.ensure("columns before", S.eq(v.tr[i, c], true_range(S, v, i, c)))))
    S.each("c", v.col, v.col + 1, lambda c: S.each("i", 0, v.it, lambda i: S.ensure("bars so far", S.eq(v.tr[i, c], true_range(S, v, i, c)))))


def tr_gen(rng):
    n, m = int(rng.integers(0, 7)), int(rng.integers(1, 4))
    low = rng.integers(1, 9, (n, m)).astype(float)
    high = low + rng.integers(0, 5, (n, m))
    return dict(high=high, low=low, close=low + (high - low) * rng.random((n, m)).round(1))


Contract(I + "true_range_nb", dict(high=Arr_("f", "n", "m", nan=False), low=Arr_("f", "n", "m", nan=False), close=Arr_("f", "n", "m", nan=False)),
         post=tr_post, loops={0: Inv(tr_outer, arb="c"), 1: Inv(tr_inner, arb="i")}, props="C19", gen=tr_gen, returns=ret_arr("f", lambda a: a.high.shape))


# --------------------------------------------------------------------------------------- on-balance volume
def obv_post(S, a, r):
    n, m = S.len(a.close, 0), S.len(a.close, 1)
    S.ensure("shape", S.and_(S.eq(S.len(r, 0), n), S.eq(S.len(r, 1), m)), "C19")

    def col(c):
        P = obv_fold(S, a, c)
        S.each("i", 0, n, lambda i: S.ensure("volume of rising minus volume of falling bars", S.eq(r[i, c], P(i + 1)), "C19"))
    S.each("c", 0, m, col)


def obv_fold(S, a, c):
    def signed(k):
        if not S.symbolic:
            return -a.volume_ts[k, c] if k and a.close[k, c] < a.close[k - 1, c] else a.volume_ts[k, c]
        prev = S.ite(S.ge(k - 1, 0), a.close[k - 1, c], S.f(S.nan))
        return S.ite(S.lt(a.close[k, c], prev), -a.volume_ts[k, c], a.volume_ts[k, c])
    return S.fold(S.f(0.0), lambda s, k: s + signed(k))


def obv_hint(S, v, results, res):
    sv = results["set_by_mask_mult_nb"][0]

    def col(c):
        P, X = obv_fold(S, v, c), nansum(S, S.col(sv, c))
        S.each("i", 0, S.len(v.close, 0), lambda i: S.induct("running volume", 0, i + 1, lambda k: S.implies(S.le(k, S.len(v.close, 0)), S.eq(X(k), P(k)))))
    S.each("c", 0, S.len(v.close, 1), col)


def obv_gen(rng):
    n, m = int(rng.integers(1, 7)), int(rng.integers(1, 4))
    close = rng.integers(1, 6, (n, m)).astype(float)
    close[rng.random((n, m)) < .1] = np.nan
    return dict(close=close, volume_ts=rng.integers(0, 9, (n, m)).astype(float))


Contract(I + "obv_custom_nb", dict(close=Arr_("f", "n", "m"), volume_ts=Arr_("f", "n", "m", nan=False)), post=obv_post, props="C19", gen=obv_gen,
         hints=obv_hint)


# --------------------------------------------------------------------------------------- caches of the averages
def ma_content(arr):
    return lambda S, a, key, val: ma_post(S, NSp(a=arr(S, a), window=key[0], ewm=key[1], adjust=a.adjust), val)


def mstd_content(S, a, key, val):
    mstd_post(S, NSp(a=a.close, window=key[0], ewm=key[1], adjust=a.adjust, ddof=a.ddof), val)


def all_keys(S, a, names, n=None):
    if S.symbolic:
        return None
    ls = [list(getattr(a, k)) for k in names]
    return list(zip(*ls)) if len(names) > 1 else ls[0]


def key_at(a, names, i):
    k = tuple(getattr(a, x)[i] for x in names)
    return k if len(k) > 1 else k[0]


def cache_post(names, content, get=lambda r: r):
    """Every requested combination has an entry, and every entry is what its key says."""
    def post(S, a, r):
        d = get(r)
        S.each("k", 0, S.len(getattr(a, names[0])), lambda k: S.ensure("every combination is cached", S.holds(d, key_at(a, names, k)), "C19"))
        S.cached(d, all_keys(S, a, names), lambda key, val: content(S, a, key, val))
    return post


def cache_inv(names, content, var="cache_dict"):
    def inv(S, v):
        d = getattr(v, var)
        S.each("k", 0, v.it, lambda k: S.ensure("combinations so far are cached", S.holds(d, key_at(v, names, k))))
        S.cached(d, None, lambda key, val: content(S, v, key, val))
    return inv


def windows_ok(*names):
    def pre(S, a):
        for k in names:
            S.require(S.forall(0, S.len(getattr(a, k)), lambda i: S.ge(getattr(a, k)[i], 1)), k)
    return pre


def lists_gen(arrays, ints, bools, more=None):
    def g(rng):
        n, m, k = int(rng.integers(1, 7)), int(rng.integers(1, 3)), int(rng.integers(1, 4))
        d = {}
        for x in arrays:
            d[x] = rng.integers(1, 9, (n, m)).astype(float)
        if set(arrays) >= {"high", "low", "close"}:
            d["high"] = d["low"] + rng.integers(0, 4, (n, m))
            d["close"] = np.minimum(d["high"], d["low"] + 1)
        elif rng.random() < .4:
            d[arrays[0]][rng.random((n, m)) < .2] = np.nan
        for x in ints:
            d[x] = [int(rng.integers(1, 5)) for _ in range(k)]
        for x in bools:
            d[x] = [bool(rng.integers(2)) for _ in range(k)]
        d["adjust"] = bool(rng.integers(2))
        if more:
            d.update(more(rng, d))
        return d
    return g


MAT = Arr_("f", "n", "m")
LISTS = dict(windows=Arr_("i", "k"), ewms=Arr_("b", "k"))
WE = ["windows", "ewms"]
CACHE = Dict_(MAT, "i", "b")
AD = Bool(split=True)
the_close = lambda S, a: a.close
Contract(I + "ma_cache_nb", dict(close=MAT, adjust=AD, **LISTS), pre=windows_ok("windows"), post=cache_post(WE, ma_content(the_close)),
         loops={0: Inv(cache_inv(WE, ma_content(the_close)), havoc=dict(cache_dict=CACHE), arb="k")}, props="C19",
         gen=lists_gen(["close"], ["windows"], ["ewms"]), returns=CACHE)
Contract(I + "mstd_cache_nb", dict(close=MAT, adjust=AD, ddof=Const(0), **LISTS), pre=windows_ok("windows"), post=cache_post(WE, mstd_content),
         loops={0: Inv(cache_inv(WE, mstd_content), havoc=dict(cache_dict=CACHE), arb="k")}, props="C19",
         gen=lists_gen(["close"], ["windows"], ["ewms"], lambda rng, d: dict(ddof=0)), returns=CACHE)
Contract(I + "bb_cache_nb", dict(close=MAT, adjust=AD, ddof=Const(0), alphas=Const(None), **LISTS), pre=windows_ok("windows"), props="C19",
         post=lambda S, a, r: (cache_post(WE, ma_content(the_close), lambda r: r[0])(S, a, r), cache_post(WE, mstd_content, lambda r: r[1])(S, a, r)),
         gen=lists_gen(["close"], ["windows"], ["ewms"], lambda rng, d: dict(ddof=0)))
FS = dict(fast_windows=Arr_("i", "k"), slow_windows=Arr_("i", "k"), signal_windows=Const(None), macd_ewms=Arr_("b", "k"), signal_ewms=Const(None))


def macd_cache_post(S, a, r):
    ws = list(zip(a.fast_windows, a.macd_ewms)) + list(zip(a.slow_windows, a.macd_ewms)) if not S.symbolic else None
    n = S.len(a.fast_windows)
    S.each("k", 0, 2 * n, lambda k: S.ensure("fast averages are cached", S.implies(S.lt(k, n), S.holds(
        r, (a.fast_windows[k], a.macd_ewms[k]))) if S.symbolic or k < n else True, "C19"))
    S.each("k", 0, 2 * n, lambda k: S.ensure("slow averages are cached", S.implies(S.ge(k, n), S.holds(
        r, (a.slow_windows[k - n], a.macd_ewms[k - n]))) if S.symbolic or k >= n else True, "C19"))
    S.cached(r, ws, lambda key, val: ma_content(the_close)(S, a, key, val))


Contract(I + "macd_cache_nb", dict(close=MAT, adjust=AD, **FS), pre=windows_ok("fast_windows", "slow_windows"), props="C19", post=macd_cache_post,
         gen=lists_gen(["close"], ["fast_windows", "slow_windows", "signal_windows"], ["macd_ewms", "signal_ewms"]))


# --------------------------------------------------------------------------------------- one combination, from the cache
def given(names, content, value=MAT):
    return GivenDict(value, lambda a: [tuple(getattr(a, n) for n in k) if isinstance(k, tuple) else getattr(a, k) for k in names], content)


def apply_gen(arrays, ints, bools, cache, extra=None):
    """Arguments of an apply function, with the caches its cache function really builds."""
    base = lists_gen(arrays, [], [])

    def g(rng):
        d = base(rng)
        for x in ints:
            d[x] = int(rng.integers(1, 5))
        for x in bools:
            d[x] = bool(rng.integers(2))
        if extra:
            d.update(extra(rng, d))
        d.update(cache(d))
        return d
    return g


def nbf(name):
    import importlib
    f = getattr(importlib.import_module("vectorbt.indicators.nb"), name)
    return getattr(f, "py_func", f)


W1 = dict(window=Int(1), ewm=Bool(split=True), adjust=AD)
KEY = [("window", "ewm")]
ma_c = given(KEY, ma_content(the_close))
sd_c = given(KEY, mstd_content)
build_ma = lambda d, arr="close": nbf("ma_cache_nb")(d[arr], [d["window"]], [d["ewm"]], d["adjust"])
Contract(I + "ma_apply_nb", dict(close=MAT, cache_dict=ma_c, **W1), props="C19",
         post=lambda S, a, r: ma_post(S, NSp(a=a.close, window=a.window, ewm=a.ewm, adjust=a.adjust), r),
         gen=apply_gen(["close"], ["window"], ["ewm"], lambda d: dict(cache_dict=build_ma(d))))
build_sd = lambda d: nbf("mstd_cache_nb")(d["close"], [d["window"]], [d["ewm"]], d["adjust"], 0)
Contract(I + "mstd_apply_nb", dict(close=MAT, cache_dict=sd_c, ddof=Const(0), **W1), props="C19",
         post=lambda S, a, r: mstd_post(S, NSp(a=a.close, window=a.window, ewm=a.ewm, adjust=a.adjust, ddof=0), r),
         gen=apply_gen(["close"], ["window"], ["ewm"], lambda d: dict(cache_dict=build_sd(d), ddof=0)))


def avg_elem(S, x, window, ewm, adjust, i):
    """The moving average at i, as a term."""
    if S.split(ewm) if S.symbolic else ewm:
        a = ewm_ns(S, x, window, adjust)
        E, c = ewm_state(S, a), nancount(S, x)
        return S.ite(S.lt(c(i + 1), window), S.f(S.nan), E(i + 1)[0])
    return roll_elem(S, win_ns(S, x, window), i, mean_stat)


def bb_post(S, a, r):
    n, m = S.len(a.close, 0), S.len(a.close, 1)
    for x in r:
        shape_of(S, x, a.close)
    ma_post(S, NSp(a=a.close, window=a.window, ewm=a.ewm, adjust=a.adjust), r[0])
    S.each("c", 0, m, lambda c: S.each("i", 0, n, lambda i: S.ensure("bands are symmetric around the average", S.or_(
        S.isnan(r[1][i, c]), S.eq(r[1][i, c] - r[0][i, c], r[0][i, c] - r[2][i, c])), "C19")))

    def width(c, i):
        x = NSp(a=S.col(a.close, c), window=a.window, minp=a.window, span=a.window, adjust=a.adjust, ddof=a.ddof)
        few = S.lt(in_window(S, x.a, i, a.window), a.window) if not (S.split(a.ewm) if S.symbolic else a.ewm) else None
        if few is None:
            d = S.sqrt(ewv_elem(S, x, i))
            S.ensure("upper band: average plus alpha deviations", S.eq(r[1][i, c], r[0][i, c] + a.alpha * d), "C19")
        else:
            S.ensure("no band without an average", S.implies(few, S.and_(S.isnan(r[1][i, c]), S.isnan(r[2][i, c]))), "C19")
            if S.symbolic:
                sm, sq, nf = std_stat(S, x, i)
                mu = S.div(sm, nf)
                d = S.sqrt(S.div(sq - sm * mu, nf - S.f(a.ddof)))
            else:
                w = np.asarray(x.a[max(0, i - a.window + 1):i + 1])
                d = 0.0 if few else float(np.std(w))
            S.ensure("upper band: average plus alpha deviations", S.or_(few, S.eq(r[1][i, c], r[0][i, c] + a.alpha * d)), "C19")
    S.each("c", 0, m, lambda c: S.each("i", 0, n, lambda i: width(c, i)))


Contract(I + "bb_apply_nb", dict(close=MAT, ma_cache_dict=ma_c, mstd_cache_dict=sd_c, ddof=Const(0), alpha=Float("fin"), **W1), props="C19", post=bb_post,
         gen=apply_gen(["close"], ["window"], ["ewm"], lambda d: dict(ma_cache_dict=build_ma(d), mstd_cache_dict=build_sd(d)),
                       lambda rng, d: dict(ddof=0, alpha=float(rng.choice([1.0, 2.0, 0.5])))))


def macd_post(S, a, r):
    n, m = S.len(a.close, 0), S.len(a.close, 1)
    for x in r:
        shape_of(S, x, a.close)

    def one(c, i):
        x = S.col(a.close, c)
        slow = a.fast_window if S.split(S.eq(a.fast_window, a.slow_window)) else a.slow_window
        f, s = (avg_elem(S, x, w, a.macd_ewm, a.adjust, i) for w in (a.fast_window, slow))
        S.ensure("fast average minus slow average", S.eq(r[0][i, c], f - s), "C19")
    S.each("c", 0, m, lambda c: S.each("i", 0, n, lambda i: one(c, i)))
    ma_post(S, NSp(a=r[0], window=a.signal_window, ewm=a.signal_ewm, adjust=a.adjust), r[1])


macd_c = given([("fast_window", "macd_ewm"), ("slow_window", "macd_ewm")], ma_content(the_close))
Contract(I + "macd_apply_nb", dict(close=MAT, fast_window=Int(1), slow_window=Int(1), signal_window=Int(1), macd_ewm=Bool(split=True),
                                   signal_ewm=Bool(split=True), adjust=AD, cache_dict=macd_c), props="C19", post=macd_post,
         gen=apply_gen(["close"], ["fast_window", "slow_window", "signal_window"], ["macd_ewm", "signal_ewm"], lambda d: dict(
             cache_dict=nbf("ma_cache_nb")(d["close"], [d["fast_window"], d["slow_window"]], [d["macd_ewm"]] * 2, d["adjust"]))))


# --------------------------------------------------------------------------------------- average true range
HLC = dict(high=Arr_("f", "n", "m", nan=False), low=Arr_("f", "n", "m", nan=False), close=Arr_("f", "n", "m", nan=False))
atr_content = lambda tr: ma_content(lambda S, a: tr(a))


def atr_cache_post(S, a, r):
    tr_post(S, a, r[0])
    cache_post(WE, ma_content(lambda S, a: r[0]), lambda r: r[1])(S, a, r)


Contract(I + "atr_cache_nb", dict(adjust=AD, **LISTS, **HLC), pre=windows_ok("windows"), post=atr_cache_post, props="C19",
         loops={0: Inv(cache_inv(WE, ma_content(lambda S, v: v.tr)), havoc=dict(cache_dict=CACHE), arb="k")},
         gen=lists_gen(["low", "high", "close"], ["windows"], ["ewms"]))


def atr_post(S, a, r):
    S.ensure("true range", S.same_array(r[0], a.tr), "C19")
    ma_post(S, NSp(a=a.tr, window=a.window, ewm=a.ewm, adjust=a.adjust), r[1])


def atr_build(d):
    tr, c = nbf("atr_cache_nb")(d["high"], d["low"], d["close"], [d["window"]], [d["ewm"]], d["adjust"])
    return dict(tr=tr, cache_dict=c)


Contract(I + "atr_apply_nb", dict(tr=MAT, cache_dict=given(KEY, ma_content(lambda S, a: a.tr)), **W1, **HLC), props="C19", post=atr_post,
         gen=apply_gen(["low", "high", "close"], ["window"], ["ewm"], atr_build))


# --------------------------------------------------------------------------------------- stochastic oscillator
def mm_content(S, a, key, val):
    lo, hi = val
    for arr, r, less in ((a.low, lo, True), (a.high, hi, False)):
        shape_of(S, r, arr)
        S.each("c", 0, S.len(arr, 1), lambda c: roll_post(min_stat(less))(S, NSp(a=S.col(arr, c), window=key[0], minp=None), S.col(r, c)))
        S.each("c", 0, S.len(arr, 1), lambda c: S.each("i", 0, S.len(arr, 0), lambda i: reaches(S, S.col(arr, c), i, key[0], less, r[i, c])))


def reaches(S, x, i, window, less, v):
    """The extreme of a window bounds its newest value."""
    if S.symbolic and S.mode == "prove":
        n, lo = S.len(x), win_lo(S, i, window)
        cnt, P = nancount(S, x), smallest(S, x, lo, less)
        S.induct("all values are valid", lo, i + 1, lambda k: S.implies(S.le(k, n), S.eq(cnt(k) - cnt(lo), k - lo)))
        S.induct("newest value", i, i + 1, lambda k: S.or_(S.le(k, i), S.lt(window, 1), (S.le if less else S.ge)(P(k), x[i])))
    S.ensure("no value beyond the extreme", S.or_(S.isnan(v), S.lt(window, 1), (S.le if less else S.ge)(v, x[i])), "C19")


MM = Dict_(Tup(MAT, MAT), "i")
KW = ["k_windows"]
Contract(I + "stoch_cache_nb", dict(adjust=AD, k_windows=Arr_("i", "k"), d_windows=Const(None), d_ewms=Const(None), **HLC), pre=windows_ok("k_windows"),
         post=cache_post(KW, mm_content), loops={0: Inv(cache_inv(KW, mm_content), havoc=dict(cache_dict=MM), arb="k")}, props="C19",
         gen=lists_gen(["low", "high", "close"], ["k_windows", "d_windows"], ["d_ewms"]))


def stoch_post(S, a, r):
    n, m = S.len(a.close, 0), S.len(a.close, 1)
    for x in r:
        shape_of(S, x, a.close)

    def one(c, i):
        lo, hi = (min_stat(less)(S, NSp(a=S.col(x, c), window=a.k_window, minp=None), i) for x, less in ((a.low, True), (a.high, False)))
        few = S.lt(i + 1, a.k_window)
        k = r[0][i, c]
        if not S.symbolic:
            S.ensure("position of the close within the range of the window", math.isnan(k) if few or hi == lo else S.eq(k, 100 * (a.close[i, c] - lo) / (hi - lo)), "C19")
            S.ensure("between 0 and 100", math.isnan(k) or -1e-9 <= k <= 100 + 1e-9, "C19")
            return
        for x in (a.low, a.high):
            cnt, w0 = nancount(S, S.col(x, c)), win_lo(S, i, a.k_window)
            S.induct("all values are valid", w0, i + 1, lambda j: S.implies(S.le(j, n), S.eq(cnt(j) - cnt(w0), j - w0)))
        S.ensure("position of the close within the range of the window", S.or_(S.isnan(k), S.eq(k * (hi - lo), 100.0 * (a.close[i, c] - lo))), "C19")
        S.ensure("missing only without a full window or a range", S.iff(S.isnan(k), S.or_(S.isnan(lo), S.isnan(hi), S.eq(hi, lo), few)), "C19")
        S.ensure("between 0 and 100", S.or_(S.isnan(k), S.and_(S.ge(k, 0.0), S.le(k, 100.0))), "C19")
    S.each("c", 0, m, lambda c: S.each("i", 0, n, lambda i: one(c, i)))
    ma_post(S, NSp(a=r[0], window=a.d_window, ewm=a.d_ewm, adjust=a.adjust), r[1])


def stoch_pre(S, a):
    S.require(S.forall(0, S.len(a.close, 0), lambda i: S.forall(0, S.len(a.close, 1), lambda c: S.and_(
        S.le(a.low[i, c], a.close[i, c]), S.le(a.close[i, c], a.high[i, c])))), "close within the bar")


def stoch_build(d):
    return dict(cache_dict=nbf("stoch_cache_nb")(d["high"], d["low"], d["close"], [d["k_window"]], [1], [False], d["adjust"]))


Contract(I + "stoch_apply_nb", dict(k_window=Int(1), d_window=Int(1), d_ewm=Bool(split=True), adjust=AD,
                                    cache_dict=given(["k_window"], mm_content, Tup(MAT, MAT)), **HLC), props="C19", pre=stoch_pre, post=stoch_post,
         gen=apply_gen(["low", "high", "close"], ["k_window", "d_window"], ["d_ewm"], stoch_build))


# --------------------------------------------------------------------------------------- relative strength index
class Lam:
    """The 1-dim sequence fn(0), fn(1), ..., of length n."""

    def __init__(self, n, fn):
        self.shape, self.fn, self.ndim = (n,), fn, 1

    def __getitem__(self, k):
        return self.fn(k)

    def __len__(self):
        return int(self.shape[0])


def move(S, x, up):
    """The upward (downward) part of the change from the bar before; missing when a price is missing."""
    def fn(k):
        if not S.symbolic:
            if k == 0 or math.isnan(x[k]) or math.isnan(x[k - 1]):
                return math.nan
            return max(x[k] - x[k - 1] if up else x[k - 1] - x[k], 0.0)
        d = x[k] - x[k - 1]
        return S.ite(S.lt(k, 1), S.f(S.nan), S.ite(S.isnan(d), S.f(S.nan), S.ite(
            S.lt(d, 0.0), S.f(0.0) if up else -d, d if up else S.f(0.0))))
    return Lam(S.len(x), fn)


def moves_content(S, a, key, val):
    def one(c):
        for up, r in ((True, val[0]), (False, val[1])):
            S.ensure("shape", S.and_(S.eq(S.len(r, 0), S.len(a.close, 0)), S.eq(S.len(r, 1), S.len(a.close, 1))), "C19")
            ma_is(S, move(S, S.col(a.close, c), up), key[0], key[1], a.adjust, S.col(r, c))
    S.each("c", 0, S.len(a.close, 1), one)


def same_moves(S, v):
    """The arrays the code averages are the moves of the prices."""
    window, ewm = S.p.dict_key(HashV([0, True])).comps
    ewm = S.split(ewm)

    def one(c):
        for up in (True, False):
            x, src = move(S, S.col(v.close, c), up), S.col(v.up if up else v.down, c)
            n = S.len(x)
            S.ensure("moves", S.forall(0, n, lambda k: S.eq(src[k], x[k])), lemma=True)
            e1, e2 = nancount(S, src), nancount(S, x)
            if ewm:
                A, B = (ewm_state(S, ewm_ns(S, y, window, v.adjust)) for y in (src, x))
                S.induct("same moves", 0, n, lambda k: S.and_(S.eq(e1(k), e2(k)), S.eq(A(k)[0], B(k)[0]), S.eq(A(k)[1], B(k)[1])), every=True)
            else:
                s1, s2 = nansum(S, src), nansum(S, x)
                S.induct("same moves", 0, n, lambda k: S.and_(S.eq(e1(k), e2(k)), S.eq(s1(k), s2(k))), every=True)
    S.each("c", 0, S.len(v.close, 1), one)


def rsi_inv(S, v):
    if S.symbolic and S.mode == "prove" and not is_z3(v.it):
        same_moves(S, v)
    cache_inv(WE, moves_content)(S, v)


RS = Dict_(Tup(MAT, MAT), "i", "b")
Contract(I + "rsi_cache_nb", dict(close=MAT, adjust=AD, **LISTS), pre=lambda S, a: (windows_ok("windows")(S, a), S.require(S.ge(S.len(a.close), 1), "a price")), post=cache_post(WE, moves_content),
         loops={0: Inv(rsi_inv, havoc=dict(cache_dict=RS), arb="k")}, props="C19",
         gen=lists_gen(["close"], ["windows"], ["ewms"]))


def rsi_post(S, a, r):
    shape_of(S, r, a.close)
    n, m = S.len(a.close, 0), S.len(a.close, 1)

    def one(c, i):
        u, d = (avg_elem(S, move(S, S.col(a.close, c), up), a.window, a.ewm, a.adjust, i) for up in (True, False))
        v = r[i, c]
        missing = S.or_(S.isnan(u), S.isnan(d))
        S.ensure("missing without averages", S.implies(missing, S.isnan(v)), "C19")
        S.ensure("share of the upward moves", S.or_(missing, S.le(u + d, 0.0), S.lt(u, 0.0), S.lt(d, 0.0), S.eq(v * (u + d), 100.0 * u)), "C19")
        S.ensure("missing without moves", S.or_(missing, S.ne(u, 0.0), S.ne(d, 0.0), S.isnan(v)), "C19")
        S.ensure("between 0 and 100", S.or_(missing, S.le(u + d, 0.0), S.lt(u, 0.0), S.lt(d, 0.0), S.and_(S.ge(v, 0.0), S.le(v, 100.0))), "C19")
    S.each("c", 0, m, lambda c: S.each("i", 0, n, lambda i: one(c, i)))


def rsi_build(d):
    return dict(cache_dict=nbf("rsi_cache_nb")(d["close"], [d["window"]], [d["ewm"]], d["adjust"]))


Contract(I + "rsi_apply_nb", dict(close=MAT, cache_dict=given(KEY, moves_content, Tup(MAT, MAT)), **W1), props="C19", post=rsi_post,
         gen=apply_gen(["close"], ["window"], ["ewm"], rsi_build))

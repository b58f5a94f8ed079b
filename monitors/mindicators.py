"""C19: the built-in indicators against their textbook formulas (bounded, random small inputs)."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.indicators import nb

from pyvc.run import monitor, expect, same, Skip
from monitors.mgeneric import windowed, ewm_mean, ewm_std, live

NAN = math.nan


def prices(rng, nan=True):
    n, m = int(rng.integers(3, 12)), int(rng.integers(1, 4))
    low = rng.integers(1, 12, (n, m)).astype(float)
    high = low + rng.integers(0, 6, (n, m))
    close = np.clip(low + rng.integers(0, 7, (n, m)), low, high)
    if nan and rng.random() < .4:
        for a in (low, high, close):
            a[rng.random((n, m)) < .12] = np.nan
    idx = pd.date_range("2021-01-01", periods=n, freq="D")
    cols = pd.Index(list("abc")[:m], name="asset")
    return [pd.DataFrame(a, idx, cols) for a in (high, low, close)]


def avg(x, window, ewm, adjust):
    return ewm_mean(x, window, window, adjust) if ewm else windowed(x, window, window, "mean", 0)


def dev(x, window, ewm, adjust, ddof):
    return ewm_std(x, window, window, adjust) if ewm else windowed(x, window, window, "std", ddof)


def ieee(a, b):
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def f_ma(d, window, ewm, adjust, ddof):
    return [avg(d["close"], window, ewm, adjust)]


def f_mstd(d, window, ewm, adjust, ddof):
    return [dev(d["close"], window, ewm, adjust, ddof)]


def f_bb(d, window, ewm, alpha, adjust, ddof):
    a, s = avg(d["close"], window, ewm, adjust), dev(d["close"], window, ewm, adjust, ddof)
    s = [NAN if v is None else v for v in s]
    return [a, [p + alpha * q for p, q in zip(a, s)], [p - alpha * q for p, q in zip(a, s)]]


def f_rsi(d, window, ewm, adjust, ddof):
    x = d["close"]
    delta = [NAN] + [b - a for a, b in zip(x, x[1:])]
    up = avg([v if math.isnan(v) else max(v, 0) for v in delta], window, ewm, adjust)
    down = avg([v if math.isnan(v) else max(-v, 0) for v in delta], window, ewm, adjust)
    return [[NAN if math.isnan(u) or math.isnan(w) or u + w == 0 else 100 * u / (u + w) for u, w in zip(up, down)]]


def f_stoch(d, k_window, d_window, d_ewm, adjust, ddof):
    lo, hi = windowed(d["low"], k_window, k_window, "min", 0), windowed(d["high"], k_window, k_window, "max", 0)
    k = [100 * ieee(c - a, b - a) for a, b, c in zip(lo, hi, d["close"])]
    return [k, avg(k, d_window, d_ewm, adjust)]


def f_macd(d, fast_window, slow_window, signal_window, macd_ewm, signal_ewm, adjust, ddof):
    a, b = avg(d["close"], fast_window, macd_ewm, adjust), avg(d["close"], slow_window, macd_ewm, adjust)
    m = [p - q for p, q in zip(a, b)]
    return [m, avg(m, signal_window, signal_ewm, adjust)]


def f_atr(d, window, ewm, adjust, ddof):
    tr = []
    for i, (h, l) in enumerate(zip(d["high"], d["low"])):
        c = [h - l] + ([abs(h - d["close"][i - 1]), abs(l - d["close"][i - 1])] if i else [])
        tr.append(None if any(math.isnan(v) for v in c) else max(c))
    return [tr, avg([NAN if v is None else v for v in tr], window, ewm, adjust)]


def f_obv(d, adjust, ddof):
    x, v = d["close"], d["volume"]
    return [[math.fsum(-v[j] if j and x[j] < x[j - 1] else v[j] for j in range(i + 1)) for i in range(len(x))]]


INDICATORS = [
    ("MA", ["close"], ["window", "ewm"], ["ma"], f_ma),
    ("MSTD", ["close"], ["window", "ewm"], ["mstd"], f_mstd),
    ("BBANDS", ["close"], ["window", "ewm", "alpha"], ["middle", "upper", "lower"], f_bb),
    ("RSI", ["close"], ["window", "ewm"], ["rsi"], f_rsi),
    ("STOCH", ["high", "low", "close"], ["k_window", "d_window", "d_ewm"], ["percent_k", "percent_d"], f_stoch),
    ("MACD", ["close"], ["fast_window", "slow_window", "signal_window", "macd_ewm", "signal_ewm"], ["macd", "signal"], f_macd),
    ("ATR", ["high", "low", "close"], ["window", "ewm"], ["tr", "atr"], f_atr),
]


def draw(rng, name):
    if name.endswith("ewm"):
        return bool(rng.random() < .4)
    if name == "alpha":
        return float(rng.choice([1, 2, 2.5]))
    return int(rng.integers(1, 5))


def columns(out, k, m):
    v = out.values
    return v.reshape(len(v), -1)[:, k * m:(k + 1) * m]


@monitor("C19", 45, "MA, MSTD, BBANDS, RSI, STOCH, MACD, ATR, OBV with one and several parameter combinations")
def formulas(rng):
    high, low, close = prices(rng)
    data = dict(high=high, low=low, close=close)
    n, m = close.shape
    adjust = bool(rng.random() < .4)
    for cls_name, inputs, params, outputs, formula in INDICATORS:
        cls = getattr(vbt, cls_name)
        k = int(rng.integers(1, 4))
        vals = {p: [draw(rng, p) for _ in range(k)] for p in params}
        ddof = int(rng.integers(0, 2)) if cls_name in ("MSTD", "BBANDS") else 0
        kw = dict(adjust=adjust)
        if cls_name in ("MSTD", "BBANDS"):
            kw["ddof"] = ddof
        extra = {}
        if rng.random() < .25:
            extra["run_unique"] = True
        run = lambda **more: cls.run(*[data[x] for x in inputs], **vals, **kw, **extra, **more)
        res = run()
        ctx = dict(indicator=cls_name, params=vals, adjust=adjust, ddof=ddof, high=high.values, low=low.values, close=close.values)
        for j in range(k):
            for c in range(m):
                d = {x: list(data[x].values[:, c]) for x in inputs}
                want = formula(d, **{p: v[j] for p, v in vals.items()}, adjust=adjust, ddof=ddof)
                if cls_name == "ATR":       # the true range of a bar with missing prices is not specified; its average is
                    want[1] = avg(list(columns(res.tr, j, m)[:, c]), vals["window"][j], vals["ewm"][j], adjust)
                for name, w in zip(outputs, want):
                    got = columns(getattr(res, name), j, m)[:, c]
                    w = np.array([g if x is None else x for x, g in zip(w, got)], float)
                    if name in ("upper", "lower") or cls_name in ("MSTD",):
                        loose = np.isnan(w) != np.isnan(got)
                        if vals["ewm"][j]:       # a single value in the window: deviation 0 or NaN, by rounding
                            w = np.where(loose, got, w)
                    expect(same(got, w, 1e-5), "%s.%s equals its formula" % (cls_name, name), column=c, combination=j, got=got, expected=w, **ctx)
        for name in outputs:
            out = getattr(res, name)
            expect(out.index.equals(close.index) and out.shape == (n,) * 1 + (() if out.ndim == 1 else (m * k,)), "one column per parameter and asset", **ctx)
            if out.ndim == 2:
                expect(list(out.columns.get_level_values("asset")) == list(close.columns) * k, "columns keep the asset labels", got=list(out.columns), **ctx)
                for p in params:
                    lab = "%s_%s" % (res.short_name, p)
                    expect(list(out.columns.get_level_values(lab)) == [v for v in vals[p] for _ in range(m)], "columns carry their parameters",
                           level=lab, got=list(out.columns), **ctx)
        cache = run(return_cache=True)
        again = run(use_cache=cache)
        for name in outputs:
            expect(same(getattr(res, name).values, getattr(again, name).values), "cached and uncached computation agree", output=name, **ctx)
        i = int(rng.integers(0, n))
        cut = cls.run(*[data[x].iloc[:i + 1] for x in inputs], **vals, **kw)
        for name in outputs:
            expect(same(getattr(res, name).values[:i + 1], getattr(cut, name).values, 1e-6), "no look-ahead: the prefix of the prices gives the prefix of the indicator",
                   output=name, bar=i, **ctx)
        if cls_name == "BBANDS":
            mid, up, lo = res.middle.values, res.upper.values, res.lower.values
            expect(same(up - mid, mid - lo, 1e-9), "bands are symmetric around the average", **ctx)
            with np.errstate(all="ignore"):
                expect(same(res.bandwidth.values, (up - lo) / mid, 1e-6), "bandwidth", **ctx)
                rep = np.tile(close.values, (1, k)).reshape(up.shape)
                expect(same(res.percent_b.values, (rep - lo) / (up - lo), 1e-6), "percent_b", **ctx)
        if cls_name == "MACD":
            expect(same(res.hist.values, res.macd.values - res.signal.values, 1e-9), "histogram", **ctx)
        if cls_name in ("RSI", "STOCH") and not np.isnan(high.values + low.values + close.values).any():
            for name in outputs:
                v = getattr(res, name).values
                v = v[~np.isnan(v)]
                expect((v >= -1e-6).all() and (v <= 100 + 1e-6).all(), "bounded between 0 and 100", output=name, got=v, **ctx)
        if cls_name == "ATR":
            tr = columns(res.tr, 0, m)
            ok = ~np.isnan(tr)
            expect((tr[ok] >= (high.values - low.values)[ok] - 1e-9).all(), "true range is at least the range of the bar", got=tr, **ctx)
    vol = pd.DataFrame(rng.integers(1, 30, (n, m)).astype(float), close.index, close.columns)
    res = vbt.OBV.run(close, vol)
    out = columns(res.obv, 0, m)
    for c in range(m):
        want = f_obv(dict(close=list(close.values[:, c]), volume=list(vol.values[:, c])), 0, 0)[0]
        expect(same(out[:, c], np.array(want), 1e-9), "OBV equals its formula", close=close.values[:, c], volume=vol.values[:, c], got=out[:, c], expected=want)


@monitor("C19", 60, "parameter products, combinations, defaults")
def products(rng):
    high, low, close = prices(rng, False)
    n, m = close.shape
    ws, es = sorted(set(int(rng.integers(1, 6)) for _ in range(3))), [False, True]
    res = vbt.MA.run(close, window=ws, ewm=es, param_product=True)
    combos = [(w, e) for w in ws for e in es]
    for j, (w, e) in enumerate(combos):
        for c in range(m):
            want = avg(list(close.values[:, c]), w, e, False)
            got = columns(res.ma, j, m)[:, c]
            expect(same(got, np.array(want), 1e-9), "a parameter product computes every combination", combination=(w, e), close=close.values[:, c], got=got, expected=want)
    if len(ws) > 1:
        fast, slow = vbt.MA.run_combs(close, window=ws, r=2)
        pairs = [(a, b) for i, a in enumerate(ws) for b in ws[i + 1:]]
        for j, (a, b) in enumerate(pairs):
            for c in range(m):
                x = list(close.values[:, c])
                expect(same(columns(fast.ma, j, m)[:, c], np.array(avg(x, a, False, False)), 1e-9) and same(columns(slow.ma, j, m)[:, c], np.array(avg(x, b, False, False)), 1e-9),
                       "run_combs computes every pair", pair=(a, b), close=x)
        cross = fast.ma_crossed_above(slow)
        ref = fast.ma.vbt.crossed_above(slow.ma.values)
        expect(same(cross.values, ref.values), "crossing of two averages", close=close.values)
    res = vbt.ATR.run(high, low, close, window=3)
    for c in range(m):
        want = f_atr(dict(high=list(high.values[:, c]), low=list(low.values[:, c]), close=list(close.values[:, c])), 3, True, False, 0)
        expect(same(columns(res.tr, 0, m)[:, c], np.array(want[0]), 1e-9) and same(columns(res.atr, 0, m)[:, c], np.array(want[1]), 1e-7),
               "default ATR is exponential", got=columns(res.atr, 0, m)[:, c], expected=want[1])
    tr = nb.true_range_nb(high.values, low.values, close.values)
    expect(same(tr, columns(res.tr, 0, m)), "true_range_nb", got=tr)
    w, k = int(rng.integers(1, 4)), int(rng.integers(0, 2))
    expect(same(nb.ma_nb(close.values, w, bool(k)), columns(vbt.MA.run(close, w, ewm=bool(k)).ma, 0, m)), "ma_nb", close=close.values, window=w)


@monitor("C19", 40, "vectorbt.indicators.factory:IndicatorBase.indexing_func and the parameter indexers")
def selected_results(rng):
    """Selecting columns, bars or parameters of an indicator selects them of every output and input."""
    high, low, close = prices(rng)
    data = dict(high=high, low=low, close=close)
    n, m = close.shape
    cls_name, inputs, params, outputs, formula = INDICATORS[int(rng.integers(0, len(INDICATORS)))]
    cls = getattr(vbt, cls_name)
    k = int(rng.integers(1, 4))
    vals = {p: [draw(rng, p) for _ in range(k)] for p in params}
    res = cls.run(*[data[x] for x in inputs], **vals)
    width = m * k
    if width < 2 or n < 2:
        return
    ctx = dict(indicator=cls_name, params=vals, high=high.values, low=low.values, close=close.values)
    cols = [int(x) for x in rng.permutation(width)[:int(rng.integers(1, width + 1))]]
    a = int(rng.integers(0, n - 1))
    b = int(rng.integers(a + 2, n + 1))
    if rng.random() < .3:
        a, b = 0, n
    single = rng.random() < .3
    if single:
        cols = cols[:1]
    ctx.update(columns=cols, rows=[a, b])
    sub = res.iloc[a:b, cols[0] if single else cols]

    def check(sub, cols, a, b, how):
        for name in outputs:
            want = getattr(res, name).values.reshape(n, width)[a:b][:, cols]
            got = np.asarray(getattr(sub, name).values, float).reshape(b - a, -1)
            expect(same(got, want), "an output of the selection is the selection of the output", how=how, output=name, got=got, expected=want, **ctx)
        for x in inputs:
            want = data[x].values[a:b][:, [c % m for c in cols]]
            got = np.asarray(getattr(sub, x).values, float).reshape(b - a, -1)
            expect(same(got, want), "an input of the selection is the selection of the input", how=how, input=x, got=got, expected=want, **ctx)

    check(sub, cols, a, b, "iloc")
    if params:
        p = params[int(rng.integers(0, len(params)))]
        v = vals[p][int(rng.integers(0, k))]
        if [x for x in vals[p]].count(v) * m > 1 and isinstance(v, (int, np.integer)) and not isinstance(v, bool):
            sub = getattr(res, p + "_loc")[[v]]
            check(sub, [j * m + c for j in range(k) if vals[p][j] == v for c in range(m)], 0, n, p + "_loc")

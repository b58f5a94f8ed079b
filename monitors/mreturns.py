"""C18: the returns accessor against the textbook formula of each metric (bounded, random small inputs)."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt

from pyvc.run import monitor, expect, same, Skip

NAN, INF = math.nan, math.inf


def live(x):
    return [v for v in x if not math.isnan(v)]


def mean(x):
    v = live(x)
    return math.fsum(v) / len(v) if v else NAN


def std(x, ddof):
    v = live(x)
    if not v or len(v) - ddof <= 0:
        return NAN
    m = math.fsum(v) / len(v)
    return math.sqrt(math.fsum((a - m) ** 2 for a in v) / (len(v) - ddof))


def power(a, b):
    with np.errstate(all="ignore"):
        return float(np.power(np.float64(a), np.float64(b)))


def over(a, b):
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def growth(x):
    out = 1.0
    for v in live(x):
        out *= 1 + v
    return out


def curve(x, start):
    out, g = [], 1.0
    for v in x:
        if not math.isnan(v):
            g *= 1 + v
        out.append(g - 1 if start == 0 else g * start)
    return out


def m_total(x, **k):
    return growth(x) - 1


def m_annualized(x, af, **k):
    return power(growth(x), af / len(x)) - 1


def m_vol(x, af, levy_alpha=2.0, ddof=1, **k):
    return std(x, ddof) * power(af, 1 / levy_alpha) if len(x) > 1 else NAN


def m_dd(x, **k):
    c = curve(x, 1.0)
    return [over(c[i], max(c[:i + 1])) - 1 for i in range(len(c))]


def m_mdd(x, **k):
    return min(m_dd(x))


def m_calmar(x, af, **k):
    d = m_mdd(x)
    return NAN if d == 0 else m_annualized(x, af) / abs(d)


def m_omega(x, af, risk_free=0.0, required_return=0.0, **k):
    if af != 1:
        required_return = (1 + required_return) ** (1 / af) - 1
    v = [a - risk_free - required_return for a in live(x)]
    up, down = math.fsum(a for a in v if a > 0), -math.fsum(a for a in v if a < 0)
    return INF if down == 0 else up / down


def m_sharpe(x, af, risk_free=0.0, ddof=1, **k):
    if len(x) < 2:
        return NAN
    s = std([a - risk_free for a in x], ddof)
    return INF if s == 0 else mean([a - risk_free for a in x]) / s * math.sqrt(af)


def m_down(x, af, required_return=0.0, **k):
    return math.sqrt(mean([min(a - required_return, 0) ** 2 for a in live(x)]) * af) if live(x) else NAN


def m_sortino(x, af, required_return=0.0, **k):
    if len(x) < 2:
        return NAN
    d = m_down(x, af, required_return)
    return INF if d == 0 else mean([a - required_return for a in x]) * af / d


def m_info(x, bench, ddof=1, **k):
    if len(x) < 2:
        return NAN
    a = [p - q for p, q in zip(x, bench)]
    s = std(a, ddof)
    return INF if s == 0 else mean(a) / s


def m_beta(x, bench, **k):
    if len(x) < 2:
        return NAN
    b = [q if not math.isnan(p) else NAN for p, q in zip(x, bench)]
    mb = mean(b)
    var = mean([(q - mb) ** 2 for q in b])
    if math.isnan(var) or var < 1e-30:
        return NAN
    return mean([(q - mb) * p for p, q in zip(x, b)]) / var


def m_alpha(x, bench, af, risk_free=0.0, **k):
    if len(x) < 2:
        return NAN
    beta = m_beta(x, bench)
    return power(mean([p - risk_free - beta * (q - risk_free) for p, q in zip(x, bench)]) + 1, af) - 1


def quantile(v, q):
    v = sorted(v)
    pos = q * (len(v) - 1)
    lo = min(int(math.floor(pos + 1e-12)), len(v) - 1)
    hi = min(lo + 1, len(v) - 1)
    return v[lo] + (v[hi] - v[lo]) * max(pos - lo, 0)


def m_tail(x, **k):
    v = live(x)
    if not v:
        return NAN
    hi, lo = abs(quantile(v, .95)), abs(quantile(v, .05))
    return INF if lo == 0 else hi / lo


def m_var(x, cutoff=.05, **k):
    return quantile(live(x), cutoff) if live(x) else NAN


def m_cvar(x, cutoff=.05, **k):
    v = sorted(x)[:int((len(x) - 1) * cutoff) + 1]
    return math.fsum(v) / len(v)


def capture_of(keep):
    def fn(x, bench, af, **k):
        pairs = [(p, q) for p, q in zip(x, bench) if keep(q)]
        if not pairs:
            return NAN
        b = m_annualized([q for _, q in pairs], af)
        return INF if b == 0 else over(m_annualized([p for p, _ in pairs], af), b)
    return fn


m_capture = capture_of(lambda q: True)
m_up = capture_of(lambda q: q > 0)
m_down_capture = capture_of(lambda q: q < 0)


def m_common(x, af, **k):
    return m_tail(x) * (1 + m_annualized(x, af))


# accessor method, its rolling version, reference, keyword arguments it takes
METRICS = [
    ("total", "rolling_total", m_total, ()),
    ("annualized", "rolling_annualized", m_annualized, ()),
    ("annualized_volatility", "rolling_annualized_volatility", m_vol, ("levy_alpha", "ddof")),
    ("max_drawdown", "rolling_max_drawdown", m_mdd, ()),
    ("calmar_ratio", "rolling_calmar_ratio", m_calmar, ()),
    ("omega_ratio", "rolling_omega_ratio", m_omega, ("risk_free", "required_return")),
    ("sharpe_ratio", "rolling_sharpe_ratio", m_sharpe, ("risk_free", "ddof")),
    ("downside_risk", "rolling_downside_risk", m_down, ("required_return",)),
    ("sortino_ratio", "rolling_sortino_ratio", m_sortino, ("required_return",)),
    ("information_ratio", "rolling_information_ratio", m_info, ("bench", "ddof")),
    ("beta", "rolling_beta", m_beta, ("bench",)),
    ("alpha", "rolling_alpha", m_alpha, ("bench", "risk_free")),
    ("tail_ratio", "rolling_tail_ratio", m_tail, ()),
    ("value_at_risk", "rolling_value_at_risk", m_var, ("cutoff",)),
    ("cond_value_at_risk", "rolling_cond_value_at_risk", m_cvar, ("cutoff",)),
    ("capture", "rolling_capture", m_capture, ("bench",)),
    ("up_capture", "rolling_up_capture", m_up, ("bench",)),
    ("down_capture", "rolling_down_capture", m_down_capture, ("bench",)),
    ("common_sense_ratio", "rolling_common_sense_ratio", m_common, ()),
]


def make(rng, nan=True):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 4))
    a = rng.integers(-8, 13, (n, m)) / 16
    if rng.random() < .3:
        a[:, rng.integers(0, m)] = rng.integers(-4, 9) / 16
    if rng.random() < .3:
        a[rng.random((n, m)) < .4] = 0.0
    if nan and rng.random() < .5:
        a[rng.random((n, m)) < rng.choice([.15, .5])] = np.nan
    if nan and rng.random() < .1:
        a[:, rng.integers(0, m)] = np.nan
    days = int(rng.choice([1, 7, 365, 730]))
    idx = pd.date_range("2020-01-01", periods=n, freq="%dD" % days)
    b = rng.integers(-8, 13, (n, m)) / 16
    if rng.random() < .3:
        b[rng.random((n, m)) < .4] = 0.0
    if rng.random() < .15:
        b[:, rng.integers(0, m)] = 0.125
    if nan and rng.random() < .3:
        b[rng.random((n, m)) < .2] = np.nan
    cols = list("abc")[:m]
    year = int(rng.choice([365, 365, 360, 73]))
    return pd.DataFrame(a, idx, cols), pd.DataFrame(b, idx, cols), days, year


def accessor(df, bench, days, year, **defaults):
    kw = dict(freq="%d days" % days, benchmark_rets=bench)
    if year != 365:
        kw["year_freq"] = "%d days" % year
    if defaults:
        kw["defaults"] = defaults
    return df.vbt.returns(**kw)


def options(rng, names, bench):
    kw = {}
    if "levy_alpha" in names and rng.random() < .5:
        kw["levy_alpha"] = float(rng.choice([1.0, 1.5]))
    if "ddof" in names and rng.random() < .5:
        kw["ddof"] = int(rng.integers(0, 3))
    if "risk_free" in names and rng.random() < .5:
        kw["risk_free"] = float(rng.choice([1 / 64, -1 / 128]))
    if "required_return" in names and rng.random() < .5:
        kw["required_return"] = float(rng.choice([3 / 64, -1 / 128]))
    if "cutoff" in names and rng.random() < .5:
        kw["cutoff"] = float(rng.choice([.1, .3, .5, 1.0]))
    return kw


def one(fn, x, bench, af, kw):
    with np.errstate(all="ignore"):
        return fn(x, bench=bench, af=af, **kw)


@monitor("C18", 90, "every metric of the returns accessor on whole columns")
def metrics(rng):
    df, bench, days, year = make(rng)
    af = year / days
    for name, _, fn, names in METRICS:
        kw = options(rng, names, bench)
        x, q = df, bench
        if name == "cond_value_at_risk":
            x = df.fillna(0.25)
        by_default = rng.random() < .3
        acc = accessor(x, q, days, year, **(kw if by_default else {}))
        call = {} if by_default else dict(kw)
        if "bench" in names and rng.random() < .5:
            acc = accessor(x, None, days, year, **(kw if by_default else {}))
            call["benchmark_rets"] = q
        got = getattr(acc, name)(**call)
        want = [one(fn, list(x.iloc[:, c]), list(q.iloc[:, c]), af, kw) for c in range(x.shape[1])]
        expect(list(got.index) == list(x.columns) and same(got.values, np.array(want), 1e-7), name + " equals its formula",
               returns=x.values, benchmark=q.values, ann_factor=af, options=kw, got=got.values, expected=want)
        c = int(rng.integers(0, x.shape[1]))
        ser = x.iloc[:, c].vbt.returns(freq="%d days" % days, year_freq="%d days" % year, benchmark_rets=q.iloc[:, c])
        kw2 = dict(kw)
        expect(same(getattr(ser, name)(**kw2), want[c], 1e-7), name + " of a single series equals its formula",
               returns=x.values[:, c], benchmark=q.values[:, c], ann_factor=af, options=kw, expected=want[c])


@monitor("C18", 70, "rolling metrics of the returns accessor")
def rolling_metrics(rng):
    df, bench, days, year = make(rng)
    af = year / days
    n, m = df.shape
    window = int(rng.integers(1, n + 3))
    minp = None if rng.random() < .4 else int(rng.integers(1, window + 1))
    for _, name, fn, names in METRICS:
        kw = options(rng, names, bench)
        x = df.fillna(0.25) if "cond" in name else df
        call = dict(kw, window=window, minp=minp)
        if rng.random() < .3:
            acc = accessor(x, bench, days, year, window=window, minp=minp)
            call.pop("window"), call.pop("minp")
        else:
            acc = accessor(x, bench, days, year)
        got = getattr(acc, name)(**call)
        want = np.full((n, m), np.nan)
        for c in range(m):
            for i in range(n):
                lo = max(0, i + 1 - window)
                w, b = list(x.values[lo:i + 1, c]), list(bench.values[lo:i + 1, c])
                if len(live(w)) >= (window if minp is None else minp):
                    want[i, c] = one(fn, w, b, af, kw)
        expect(got.index.equals(df.index) and same(got.values, want, 1e-7), name + " is the metric of each window",
               returns=x.values, benchmark=bench.values, ann_factor=af, window=window, minp=minp, options=kw,
               got=got.values, expected=want)


@monitor("C18", 160, "from_value, cumulative, total, drawdown, drawdowns, daily, annual")
def compounding(rng):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 4))
    v = rng.integers(1, 40, (n, m)) / 4
    kind = rng.random()
    if kind < .25:
        v[rng.random((n, m)) < .3] = 0.0
    elif kind < .4:
        v = v * rng.choice([-1, 1], (n, m))
    if rng.random() < .25:
        v[rng.random((n, m)) < .2] = np.nan
    init = NAN if rng.random() < .3 else (float(rng.integers(1, 9)) if rng.random() < .5 else rng.integers(1, 9, m).astype(float))
    idx = pd.date_range("2020-01-01", periods=n, freq="D")
    df = pd.DataFrame(v, idx, list("abc")[:m])
    acc = vbt.returns.accessors.ReturnsAccessor.from_value(df, init_value=init, freq="1D")
    inits = np.broadcast_to(init, m)
    want = np.full((n, m), np.nan)
    for c in range(m):
        for i in range(n):
            p, q = inits[c] if i == 0 else v[i - 1, c], v[i, c]
            if math.isnan(p):
                continue
            if p == 0:
                want[i, c] = 0.0 if q == 0 else INF * np.sign(q)
            else:
                want[i, c] = (q - p) / p * (-1 if p < 0 else 1)
    got = acc.obj
    expect(same(got.values, want, 1e-9), "returns are value over previous value minus one", value=v, init_value=init,
           got=got.values, expected=want)
    if kind >= .4 and not np.isnan(v).any():
        start = np.where(np.isnan(inits), v[0], inits)
        back = (1 + acc.cumulative(start_value=0).values) * start
        expect(same(back, v, 1e-9), "compounding the returns reproduces the value", value=v, init_value=init, got=back)
    df, bench, days, year = make(rng)
    acc = accessor(df, None, days, year)
    x = df.values
    for start in (None, 0.0, 1.0, 100.0):
        got = acc.cumulative() if start is None else acc.cumulative(start_value=start)
        want = np.array([curve(list(x[:, c]), start or 0.0) for c in range(x.shape[1])]).T
        expect(same(got.values, want, 1e-9), "cumulative returns compound", returns=x, start_value=start, got=got.values, expected=want)
    expect(same(acc.total().values, acc.cumulative().values[-1], 1e-9), "total return is the last cumulative value", returns=x)
    want = np.array([m_dd(list(x[:, c])) for c in range(x.shape[1])]).T
    got = acc.drawdown().values
    expect(same(got, want, 1e-9), "drawdown is the fall from the running maximum", returns=x, got=got, expected=want)
    mdd = acc.max_drawdown().values
    expect(((mdd >= -1) & (mdd <= 0)).all() and same(mdd, want.min(axis=0), 1e-9), "maximum drawdown is the worst fall", returns=x, got=mdd)
    with np.errstate(all="ignore"):
        rec = np.atleast_1d(acc.drawdowns.max_drawdown().values)
    expect(same(np.nan_to_num(rec), mdd, 1e-9), "maximum drawdown agrees with the drawdown records", returns=x, got=rec, expected=mdd)


@monitor("C18", 50, "daily and annual returns")
def resampled(rng):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 3))
    hours = int(rng.choice([6, 8, 12, 36]))
    idx = pd.date_range("2020-01-01 %02d:00" % rng.integers(0, 24), periods=n, freq="%dh" % hours)
    a = rng.integers(-8, 13, (n, m)) / 16
    if rng.random() < .5:
        a[rng.random((n, m)) < .25] = np.nan
    df = pd.DataFrame(a, idx, list("ab")[:m])
    acc = df.vbt.returns(freq="%d hours" % hours)
    got = acc.daily()
    days = pd.date_range(idx[0].normalize(), idx[-1].normalize(), freq="D")
    expect(list(got.index) == list(days), "one daily return per day", index=idx, got=got)
    for d in days:
        for c in range(m):
            inside = [a[i, c] for i in range(n) if idx[i].normalize() == d]
            want = growth(inside) - 1 if inside else NAN
            expect(same(got.loc[d].iloc[c], want, 1e-9), "daily return compounds the day", returns=a, index=idx, day=str(d), got=got.values)
    k = int(rng.integers(2, 5))
    got = df.vbt.returns(freq="%d hours" % hours).resample_total_return("%dh" % (hours * k))
    want = [[growth(a[s:s + 10000][[j for j in range(n - s) if lab <= idx[s + j] < lab + pd.Timedelta(hours=hours * k)], c]) - 1
             for c in range(m) for s in (0,)] for lab in got.index]
    inside = [any(lab <= t < lab + pd.Timedelta(hours=hours * k) for t in idx) for lab in got.index]
    for r, ok in enumerate(inside):
        if ok:
            expect(same(got.values[r], np.array(want[r]), 1e-9), "resampled return compounds its period", returns=a, index=idx, got=got)


@monitor("C18", 60, "vectorbt.returns.accessors:ReturnsAccessor.indexing_func: metrics of selected columns and bars")
def selected_returns(rng):
    df, bench, days, year = make(rng)
    n, m = df.shape
    if n < 2 or m < 2:
        return
    af = year / days
    acc = accessor(df, bench, days, year)
    cols = [int(x) for x in rng.permutation(m)[:int(rng.integers(1, m + 1))]]
    a = int(rng.integers(0, n - 1))
    b = int(rng.integers(a + 2, n + 1))
    single = rng.random() < .3
    key = cols[0] if single else cols
    if single:
        cols = cols[:1]
    sub = acc.iloc[a:b, key]
    x, q = df.iloc[a:b, cols], bench.iloc[a:b, cols]
    ctx = dict(returns=df.values, benchmark=bench.values, columns=cols, rows=[a, b])
    expect(same(np.asarray(sub.obj.values, float).reshape(len(x), -1), x.values), "returns of a selection", **ctx)
    expect(same(np.asarray(sub.benchmark_rets.values, float).reshape(len(x), -1), q.values), "benchmark of a selection", **ctx)
    for name, _, fn, names in METRICS:
        if name == "cond_value_at_risk" and np.isnan(x.values).any():
            continue
        kw = options(rng, names, bench)
        want = [one(fn, list(x.iloc[:, c]), list(q.iloc[:, c]), af, kw) for c in range(len(cols))]
        got = np.atleast_1d(np.asarray(getattr(sub, name)(**kw), float))
        expect(same(got, np.array(want), 1e-7), name + " of a selection equals its formula", ann_factor=af, options=kw, got=got, expected=want, **ctx)

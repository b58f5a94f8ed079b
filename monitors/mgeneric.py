"""C15, C16, C23: the generic accessor against direct definitions (bounded, random small inputs)."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.generic import nb

from pyvc.run import monitor, expect, same, Skip

NAN = math.nan


def live(x):
    return [v for v in x if not math.isnan(v)]


def mean(v):
    return math.fsum(v) / len(v)


def std(v, ddof):
    if len(v) - ddof <= 0:
        return NAN
    m = mean(v)
    return math.sqrt(math.fsum((a - m) ** 2 for a in v) / (len(v) - ddof))


def frame(rng, nmax=10, inf=False, empty_col=True):
    n, m = int(rng.integers(1, nmax)), int(rng.integers(1, 5))
    a = rng.integers(-6, 12, (n, m)).astype(float)
    if rng.random() < .4:
        a = rng.integers(-1, 3, (n, m)).astype(float)
    if rng.random() < .25:
        a += 1e4
    if rng.random() < .6:
        a[rng.random((n, m)) < rng.choice([.15, .5])] = np.nan
    if empty_col and rng.random() < .15:
        a[:, rng.integers(0, m)] = np.nan
    idx = pd.date_range("2021-01-01", periods=n, freq="D")
    return pd.DataFrame(a, idx, list("abcde")[:m])


def ewm_mean(x, span, minp, adjust, kernel=True):
    """Weighted average with weights (1-alpha)^age of the values so far (adjust), or s <- (1-w) s + w x (not adjust).

    After missing bars, a new value has the weight alpha relative to the faded old one; for a span of 3, pandas (which the
    accessor calls when not adjusting) gives it one minus the weight of the faded old one instead."""
    alpha = 2 / (span + 1)
    out, s, w = [], NAN, 1.0
    for i in range(len(x)):
        got = [j for j in range(i + 1) if not math.isnan(x[j])]
        if not got:
            out.append(NAN)
            continue
        if adjust:
            ws = [(1 - alpha) ** (i - j) for j in got]
            val = math.fsum(q * x[j] for q, j in zip(ws, got)) / math.fsum(ws) if math.fsum(ws) else x[got[-1]]
        else:
            # each value keeps the weight it has relative to the running average, which fades with every bar
            val = x[got[0]]
            for p, q in zip(got, got[1:]):
                old = (1 - alpha) ** (q - p)
                val = (old * val + alpha * x[q]) / (old + alpha) if kernel else old * val + (1 - old) * x[q]
        out.append(val if len(got) >= minp else NAN)
    return out


def ewm_std(x, span, minp, adjust):
    """Unbiased weighted deviation of the values so far under the weights of the average."""
    alpha = 2 / (span + 1)
    out = []
    for i in range(len(x)):
        got = [j for j in range(i + 1) if not math.isnan(x[j])]
        if len(got) < max(minp, 1) or i == 0:
            out.append(NAN)
            continue
        if adjust:
            ws = [(1 - alpha) ** (i - j) for j in got]
        else:
            ws = [1.0]
            for p, q in zip(got, got[1:]):
                old = (1 - alpha) ** (q - p)
                ws = [w * old / (old + alpha) for w in ws] + [alpha / (old + alpha)]
        tot = math.fsum(ws)
        if tot == 0:                    # span 1 and the newest value is missing
            out.append(None)
            continue
        ws = [w / tot for w in ws]
        mu = math.fsum(w * x[j] for w, j in zip(ws, got))
        var = math.fsum(w * (x[j] - mu) ** 2 for w, j in zip(ws, got))
        den = 1 - math.fsum(w * w for w in ws)
        out.append(math.sqrt(var / den) if den > 1e-12 else None)       # one value only: 0 or NaN, by rounding
    return out


STATS = {"mean": lambda v, ddof: mean(v), "std": std, "min": lambda v, ddof: min(v), "max": lambda v, ddof: max(v)}


def windowed(x, window, minp, stat, ddof):
    out = []
    for i in range(len(x)):
        v = live(x[max(0, i + 1 - window):i + 1])
        out.append(STATS[stat](v, ddof) if len(v) >= max(minp, 1) else NAN)
    return out


def by_col(df, fn):
    return np.array([fn(list(df.values[:, c])) for c in range(df.shape[1])]).T.reshape(df.shape)


@monitor("C15", 150, "rolling_*, expanding_*, ewm_* of the generic accessor and their 1-dim kernels")
def window_statistics(rng):
    df = frame(rng)
    n, m = df.shape
    window = int(rng.integers(1, n + 3))
    minp = None if rng.random() < .3 else int(rng.integers(1, window + 1))
    ddof = int(rng.integers(0, 3))
    ctx = dict(values=df.values, window=window, minp=minp, ddof=ddof)
    c = int(rng.integers(0, m))
    col = df.iloc[:, c]
    for stat in STATS:
        extra = dict(ddof=ddof) if stat == "std" else {}
        tol = 1e-4 if stat == "std" else 1e-9
        got = getattr(df.vbt, "rolling_" + stat)(window, minp=minp, **extra)
        want = by_col(df, lambda x: windowed(x, window, window if minp is None else minp, stat, ddof))
        expect(got.index.equals(df.index) and same(got.values, want, tol), "rolling %s is that of the window" % stat, got=got.values, expected=want, **ctx)
        got = getattr(col.vbt, "rolling_" + stat)(window, minp=minp, **extra)
        expect(same(got.values, want[:, c], tol), "rolling %s of a series" % stat, got=got.values, expected=want[:, c], **ctx)
        got = getattr(nb, "rolling_%s_1d_nb" % stat)(df.values[:, c], window, minp, **extra)
        expect(same(got, want[:, c], tol), "rolling_%s_1d_nb" % stat, got=got, expected=want[:, c], **ctx)
        p = 1 if minp is None else min(minp, n)
        got = getattr(df.vbt, "expanding_" + stat)(**({} if minp is None else dict(minp=p)), **extra)
        want = by_col(df, lambda x: windowed(x, n, p, stat, ddof))
        expect(same(got.values, want, tol), "expanding %s is that of all values so far" % stat, got=got.values, expected=want, **ctx)
        got = getattr(nb, "expanding_%s_1d_nb" % stat)(df.values[:, c], p, **extra)
        expect(same(got, want[:, c], tol), "expanding_%s_1d_nb" % stat, got=got, expected=want[:, c], **ctx)
    span = int(rng.integers(1, 7))
    minp = int(rng.integers(0, span + 1))
    adjust = bool(rng.random() < .5)
    ctx = dict(values=df.values, span=span, minp=minp, adjust=adjust)
    want = by_col(df, lambda x: ewm_mean(x, span, minp, adjust, adjust or span != 3 or pd.__version__ < "3"))
    got = df.vbt.ewm_mean(span, minp=minp, adjust=adjust)
    expect(same(got.values, want, 1e-7), "ewm mean follows its recursion", got=got.values, expected=want, **ctx)
    want = by_col(df, lambda x: ewm_mean(x, span, minp, adjust))
    got = nb.ewm_mean_nb(df.values, span, minp, adjust)
    expect(same(got, want, 1e-7), "ewm_mean_nb follows its recursion", got=got, expected=want, **ctx)
    got = nb.ewm_mean_1d_nb(df.values[:, c], span, minp, adjust)
    expect(same(got, want[:, c], 1e-7), "ewm_mean_1d_nb follows its recursion", got=got, expected=want[:, c], **ctx)
    if span > 1:
        want = by_col(df, lambda x: ewm_std(x, span, minp, adjust))
        got = df.vbt.ewm_std(span, minp=minp, adjust=adjust)
        want = np.where(want == None, got.values, want).astype(float)
        expect(same(got.values, want, 1e-4), "ewm deviation follows its recursion", got=got.values, expected=want, **ctx)
        got = nb.ewm_std_nb(df.values, span, minp, adjust, 1)
        expect(same(got, want, 1e-4), "ewm_std_nb follows its recursion", got=got, expected=want, **ctx)
    # nothing outside the window or after the bar has an influence
    i = int(rng.integers(0, n))
    other = df.copy()
    other.iloc[i + 1:] = rng.integers(-50, 50, (n - i - 1, m)).astype(float)
    for name, a in (("rolling_min", (window,)), ("rolling_max", (window,)), ("rolling_mean", (window,)), ("rolling_std", (window,)),
                    ("ewm_mean", (span,)), ("ewm_std", (span,)), ("expanding_min", ()), ("expanding_std", ())):
        p, q = getattr(df.vbt, name)(*a).values[:i + 1], getattr(other.vbt, name)(*a).values[:i + 1]
        expect(same(p, q, 1e-6), name + " does not look ahead", values=df.values, changed=other.values, bar=i)


@monitor("C15", 40, "numerical stability of the rolling deviation after large values leave the window")
def stability(rng):
    n, window = 30, int(rng.integers(2, 6))
    x = rng.integers(0, 8, n).astype(float)
    x[int(rng.integers(2, 10))] = float(rng.choice([1e6, -1e8]))
    if rng.random() < .5:
        x[rng.random(n) < .15] = np.nan
    for ddof in (0, 1):
        got = nb.rolling_std_1d_nb(x, window, 1, ddof)
        want = np.array(windowed(list(x), window, 1, "std", ddof))
        late = np.array([max(abs(v) for v in live(x[max(0, i + 1 - window):i + 1]) or [0]) < 100 for i in range(n)])
        expect(same(got[late] ** 2, want[late] ** 2, 5e-3), "rolling deviation forgets values that left the window", values=x, window=window,
               ddof=ddof, got=got[late], expected=want[late])


def shifted(x, n, fill):
    return [x[i - n] if 0 <= i - n < len(x) else fill for i in range(len(x))]


def filled(x, back):
    idx = range(len(x))
    out = []
    for i in idx:
        cand = [j for j in (range(i, len(x)) if back else range(i, -1, -1)) if not math.isnan(x[j])]
        out.append(x[cand[0]] if cand else NAN)
    return out


@monitor("C16", 120, "fillna, shifts, diff, pct_change, fills, cumulative sums and products, rebase")
def transformations(rng):
    df = frame(rng)
    n, m = df.shape
    k = int(rng.integers(1, n + 2))
    fill = float(rng.choice([NAN, 0.0, -7.0]))
    tests = [
        ("fillna", (5.0,), lambda x: [5.0 if math.isnan(v) else v for v in x]),
        ("fshift", (k, fill), lambda x: shifted(x, k, fill)),
        ("bshift", (k, fill), lambda x: shifted(x, -k, fill)),
        ("fshift", (), lambda x: shifted(x, 1, NAN)),
        ("bshift", (), lambda x: shifted(x, -1, NAN)),
        ("diff", (k,), lambda x: [a - b for a, b in zip(x, shifted(x, k, NAN))]),
        ("diff", (), lambda x: [a - b for a, b in zip(x, shifted(x, 1, NAN))]),
        ("pct_change", (k,), lambda x: [float(np.float64(a) / np.float64(b) - 1) for a, b in zip(x, shifted(x, k, NAN))]),
        ("ffill", (), lambda x: filled(x, False)),
        ("bfill", (), lambda x: filled(x, True)),
        ("cumsum", (), lambda x: [math.fsum(live(x[:i + 1])) for i in range(len(x))]),
        ("cumprod", (), lambda x: [float(np.prod(live(x[:i + 1]))) for i in range(len(x))]),
    ]
    with np.errstate(all="ignore"):
        for name, args, fn in tests:
            if k > n and name in ("diff", "pct_change"):
                pass
            got = getattr(df.vbt, name)(*args)
            want = by_col(df, fn)
            expect(got.index.equals(df.index) and list(got.columns) == list(df.columns) and same(got.values, want, 1e-9), name + " equals its definition",
                   values=df.values, args=args, got=got.values, expected=want)
            c = int(rng.integers(0, m))
            got = getattr(df.iloc[:, c].vbt, name)(*args)
            expect(same(got.values, want[:, c], 1e-9), name + " of a series equals its definition", values=df.values[:, c], args=args, got=got.values)
            one = getattr(nb, name + "_1d_nb", None)
            if one is not None:
                got = one(df.values[:, c], *args)
                expect(same(got, want[:, c], 1e-9), name + "_1d_nb equals its definition", values=df.values[:, c], args=args, got=got, expected=want[:, c])
        full = df.copy()
        full.iloc[:, :] = by_col(df, lambda x: [v if v > 0 else 3.0 for v in (q if not math.isnan(q) else 2.0 for q in x)])
        got = full.vbt.rebase(100.0)
        expect(same(got.values, full.values / full.values[0] * 100, 1e-9), "rebase", values=full.values, got=got.values)


@monitor("C16", 120, "reductions, describe, value counts")
def reductions(rng):
    df = frame(rng)
    n, m = df.shape
    groups = None
    if rng.random() < .5 and m > 1:
        groups = np.sort(rng.integers(0, 2, m))
    ddof = int(rng.integers(0, 2))
    blocks = [[c] for c in range(m)] if groups is None else [[c for c in range(m) if groups[c] == g] for g in sorted(set(groups))]
    pool = [live([df.values[i, c] for i in range(n) for c in b]) for b in blocks]
    kw = {} if groups is None else dict(group_by=groups)
    ctx = dict(values=df.values, groups=groups)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for name, args, fn, empty in (
                ("min", {}, min, NAN), ("max", {}, max, NAN), ("mean", {}, mean, NAN), ("median", {}, lambda v: float(np.median(v)), NAN),
                ("std", dict(ddof=ddof), lambda v: std(v, ddof), NAN), ("sum", {}, math.fsum, 0.0), ("count", {}, len, 0)):
            got = np.atleast_1d(np.asarray(getattr(df.vbt, name)(**args, **kw)))
            want = np.array([float(fn(v)) if v else empty for v in pool])
            expect(same(got.astype(float), want, 1e-7), name + " is that of the non-missing values", ddof=ddof, got=got, expected=want, **ctx)
            if groups is None:
                c = int(rng.integers(0, m))
                got = getattr(df.iloc[:, c].vbt, name)(**args)
                expect(same(float(got), want[c], 1e-7), name + " of a series", column=c, ddof=ddof, got=got, expected=want[c], **ctx)
        if all(pool):
            order = "C" if rng.random() < .6 else "F"
            for name, best in (("idxmin", min), ("idxmax", max)):
                want = []
                for b in blocks:
                    cells = [(i, c) for i in range(n) for c in b] if order == "C" else [(i, c) for c in b for i in range(n)]
                    top = best(live([df.values[q] for q in cells]))
                    want.append(df.index[next(i for i, c in cells if df.values[i, c] == top)])
                got = getattr(df.vbt, name)(order=order, **kw)
                got = list(got) if hasattr(got, "__len__") else [got]
                expect(got == want, name + " is the first position of the extreme value", order=order, got=got, expected=want, **ctx)
        perc = sorted(rng.choice([.1, .25, .5, .75, .9], 2, replace=False))
        if .5 not in perc:
            perc = sorted(perc + [.5])
        got = df.vbt.describe(percentiles=perc, **(dict(ddof=ddof) if groups is not None or ddof == 0 else {}), **kw)
        dd = ddof if groups is not None or ddof == 0 else 1
        for k, v in enumerate(pool):
            want = [len(v)] + ([mean(v), std(v, dd), min(v)] + [float(np.percentile(v, 100 * q)) for q in perc] + [max(v)] if v else [NAN] * (4 + len(perc)))
            col = got.values[:, k] if got.ndim == 2 else got.values
            expect(same(col.astype(float), np.array(want, float), 1e-7), "describe lists the statistics of the non-missing values", perc=perc,
                   ddof=dd, got=col, expected=want, **ctx)
        got = np.atleast_1d(np.asarray(df.vbt.product()))
        expect(same(got, np.array([float(np.prod(live(df.values[:, c]))) for c in range(m)]), 1e-9), "product of the non-missing values", got=got, **ctx)
        dropna = bool(rng.random() < .5)
        got = df.vbt.value_counts(dropna=dropna, **kw)
        if got.ndim == 1:
            got = got.to_frame()
        cells = [[df.values[i, c] for i in range(n) for c in b] for b in blocks]
        for g in range(len(blocks)):
            for v, cnt in zip(got.index, got.values[:, g]):
                want = sum(1 for x in cells[g] if x == v or (math.isnan(x) and math.isnan(v)))
                expect(cnt == want, "value_counts counts the occurrences", value=v, got=got.values, dropna=dropna, **ctx)
            total = len(cells[g]) if not dropna else len(live(cells[g]))
            expect(got.values[:, g].sum() == total, "value_counts counts every value once", dropna=dropna, got=got.values, **ctx)


@monitor("C16", 300, "crossed_above, crossed_below of the generic accessor")
def crossings(rng):
    n, m = int(rng.integers(1, 12)), int(rng.integers(1, 4))
    a, b = rng.integers(0, 4, (n, m)).astype(float), rng.integers(0, 4, (n, m)).astype(float)
    if rng.random() < .5:
        a[rng.random((n, m)) < .15] = np.nan
        b[rng.random((n, m)) < .15] = np.nan
    if rng.random() < .3:
        b[:, :] = b[:, :1]
    wait = int(rng.integers(0, 4))
    idx = pd.date_range("2021-01-01", periods=n, freq="D")
    cols = list("abc")[:m]
    pa, pb = pd.DataFrame(a, idx, cols), pd.DataFrame(b, idx, cols)
    scalar = rng.random() < .25
    if scalar:
        b = np.full((n, m), 2.0)
        pb = 2.0
    elif rng.random() < .3 and m > 1:
        b = np.repeat(b[:, :1], m, axis=1)
        pb = pd.Series(b[:, 0], idx)

    def crossed(x, y):
        out = np.zeros((n, m), bool)
        for c in range(m):
            for i in range(n):
                j = i - wait            # the bar on which x came above
                if j < 1 or any(math.isnan(x[q, c]) or math.isnan(y[q, c]) for q in range(j, i + 1)):
                    continue
                if not all(x[q, c] > y[q, c] for q in range(j, i + 1)):
                    continue
                if x[j - 1, c] > y[j - 1, c]:
                    continue
                q = j - 1                # below at an earlier bar, no missing value in between
                while q >= 0 and x[q, c] >= y[q, c]:
                    q -= 1
                out[i, c] = q >= 0 and x[q, c] < y[q, c]
        return out
    for name, want in (("crossed_above", crossed(a, b)), ("crossed_below", crossed(b, a))):
        got = getattr(pa.vbt, name)(pb, wait=wait)
        expect(same(got.values, want), name + " marks exactly the crossings", first=a, second=b, wait=wait, got=got.values, expected=want)
    got = nb.crossed_above_1d_nb(a[:, 0], b[:, 0], wait)
    expect(same(got, crossed(a, b)[:, 0]), "crossed_above_1d_nb marks exactly the crossings", first=a[:, 0], second=b[:, 0], wait=wait, got=got)


@monitor("C23", 120, "apply, rolling/expanding apply, groupby, resample, reduce, squeeze and flatten of the generic accessor")
def grouped(rng):
    df = frame(rng, 8)
    n, m = df.shape
    v = df.values
    key = rng.integers(0, 3, m) if rng.random() < .3 else np.sort(rng.integers(0, 3, m))
    ctx = dict(values=v, groups=key)
    if (np.diff(key) < 0).any():
        try:
            df.vbt(group_by=key).wrapper.grouper.get_group_lens()
            ok = [k for k in range(m - 1) if key[k] != key[k + 1]]
            expect(len(ok) + 1 == len(set(key)), "an incoherent grouping is refused", **ctx)
        except ValueError:
            pass
        key = np.sort(key)
    ids = sorted(set(key))
    blocks = [[c for c in range(m) if key[c] == g] for g in ids]
    acc = df.vbt(group_by=key)
    lens = acc.wrapper.grouper.get_group_lens()
    expect(list(lens) == [len(b) for b in blocks], "group lengths list the sizes of the groups", groups=key, got=lens)
    enc = lambda x, k: math.fsum((i + 1) * (j + 2) * t for i, r in enumerate(x) for j, t in enumerate(r) if not math.isnan(t)) * 10 + k
    flat = lambda x, k: math.fsum((i + 1) * t for i, t in enumerate(x) if not math.isnan(t)) * 10 + k

    def eq(got, want, what, **more):
        got = np.asarray(got, float)
        want = np.asarray(want, float).reshape(got.shape)
        expect(same(got, want, 1e-9), what, got=got, expected=want, **ctx, **more)
    eq(np.atleast_1d(acc.reduce(lambda g, x: enc(x, g))), [enc(v[:, b], k) for k, b in enumerate(blocks)], "reduce per group uses the columns of the group")
    eq(np.atleast_1d(df.vbt.reduce(lambda c, x: flat(x, c))), [flat(v[:, c], c) for c in range(m)], "reduce per column uses the column")
    for order in "CF":
        want = [flat(v[:, b].flatten(order), k) for k, b in enumerate(blocks)]
        eq(np.atleast_1d(acc.reduce(lambda g, x: flat(x, g), flatten=True, order=order)), want, "flat reduce per group", order=order)
        got = acc.reduce(lambda g, x: np.array([flat(x, g), x[0]]), flatten=True, order=order, returns_array=True)
        eq(got, np.array([[w, v[0, b[0]]] for w, b in zip(want, blocks)]).T, "flat reduce to array per group", order=order)
        size = max(map(len, blocks))
        want = np.full((n * size, len(blocks)), np.nan)
        for k, b in enumerate(blocks):
            for j, c in enumerate(b):
                for i in range(n):
                    want[i * size + j if order == "C" else j * n + i, k] = v[i, c]
        got = acc.flatten_grouped(order=order)
        labels = list(np.repeat(df.index, size)) if order == "C" else list(df.index) * size
        expect(list(got.index) == labels, "flatten_grouped keeps the row labels", order=order, got=list(got.index), **ctx)
        eq(got, want, "flatten_grouped puts each element in its place", order=order)
    eq(acc.reduce(lambda g, x: np.array([enc(x, g), g]), returns_array=True), np.array([[enc(v[:, b], k), k] for k, b in enumerate(blocks)]).T, "reduce to array per group")
    eq(df.vbt.reduce(lambda g, x: np.array([flat(x, g), g]), returns_array=True), np.array([[flat(v[:, c], c), c] for c in range(m)]).T, "reduce to array per column")
    got = acc.squeeze_grouped(lambda i, g, x: flat(x, 100 * i + g))
    eq(got, [[flat(v[i, b], 100 * i + k) for k, b in enumerate(blocks)] for i in range(n)], "squeeze_grouped uses the row of the group")
    eq(df.vbt.apply_along_axis(lambda c, x: np.cumsum(np.nan_to_num(x)) + c), np.cumsum(np.nan_to_num(v), axis=0) + np.arange(m), "apply per column")
    eq(df.vbt.apply_along_axis(lambda i, x: np.cumsum(np.nan_to_num(x)) + i, axis=1), np.cumsum(np.nan_to_num(v), axis=1) + np.arange(n)[:, None], "apply per row")
    eq(df.vbt.applymap(lambda i, c, x: 100 * i + 10 * c + x), v + 100 * np.arange(n)[:, None] + 10 * np.arange(m), "applymap per element")
    keep = lambda i, c, x: (i + 2 * c + int(x)) % 2 == 0
    eq(df.vbt.filter(keep), [[v[i, c] if not math.isnan(v[i, c]) and keep(i, c, v[i, c]) else NAN for c in range(m)] for i in range(n)], "filter per element")
    got = np.atleast_1d(df.vbt.apply_and_reduce(lambda c, x: x[~np.isnan(x)] + c, lambda c, x, q: flat(x, c) + q, reduce_args=(3,)))
    eq(got, [flat([t + c for t in live(v[:, c])], c) + 3 for c in range(m)], "apply_and_reduce per column")
    window = int(rng.integers(1, n + 2))
    minp = None if rng.random() < .3 else int(rng.integers(1, window + 1))
    p = window if minp is None else minp
    want = [[flat(v[max(0, i + 1 - window):i + 1, c], 100 * i + c) if len(live(v[max(0, i + 1 - window):i + 1, c])) >= p else NAN for c in range(m)] for i in range(n)]
    eq(df.vbt.rolling_apply(window, lambda i, c, x: flat(x, 100 * i + c), minp=minp), want, "rolling_apply on each window", window=window, minp=minp)
    p = 1 if minp is None else minp
    want = [[flat(v[:i + 1, c], 100 * i + c) if len(live(v[:i + 1, c])) >= p else NAN for c in range(m)] for i in range(n)]
    eq(df.vbt.expanding_apply(lambda i, c, x: flat(x, 100 * i + c), minp=p), want, "expanding_apply on all rows so far", minp=p)
    rows = rng.integers(0, 3, n)
    want = [[flat(v[rows == g, c], c + 7 * int(np.flatnonzero(rows == g)[0])) for c in range(m)] for g in sorted(set(rows))]
    eq(df.vbt.groupby_apply(rows, lambda idxs, c, x: flat(x, c + 7 * idxs[0])), want, "groupby_apply on the rows of each group", rows=rows)
    want = [[enc(v[rows == g], int(np.flatnonzero(rows == g)[0])) for c in range(m)] for g in sorted(set(rows))]
    eq(df.vbt.groupby_apply(rows, lambda idxs, x: enc(x, idxs[0]), on_matrix=True), want, "groupby_apply on the matrix of each group", rows=rows)
    step = int(rng.integers(1, 4))
    got = df.vbt.resample_apply("%dD" % step, lambda idxs, c, x: flat(x, c + 7 * idxs[0]))
    want = [[flat(v[s:s + step, c], c + 7 * s) for c in range(m)] for s in range(0, n, step)]
    eq(got, want, "resample_apply on each period", step=step)

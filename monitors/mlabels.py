"""C20: look-ahead labels against a direct reading of the future (bounded, random small inputs)."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.labels import nb
from vectorbt.labels.enums import TrendMode

from pyvc.run import monitor, expect, same, Skip
from monitors.mgeneric import windowed, ewm_mean, ewm_std, live, shifted
from monitors.mindicators import columns

NAN = math.nan


def prices(rng, nan):
    n, m = int(rng.integers(1, 12)), int(rng.integers(1, 4))
    a = rng.integers(1, 10, (n, m)).astype(float) if rng.random() < .6 else np.round(10 * np.exp(np.cumsum(rng.normal(0, .2, (n, m)), axis=0)), 2)
    if nan and rng.random() < .4:
        a[rng.random((n, m)) < .12] = np.nan
    idx = pd.date_range("2021-01-01", periods=n, freq="D")
    return pd.DataFrame(a, idx, pd.Index(list("abc")[:m], name="asset"))


def ahead(x, stat, window, wait, ewm=False, adjust=False, ddof=0):
    """Statistic of x[i+wait : i+wait+window]; exponential weights fade with the distance from its first value."""
    r = x[::-1]
    if ewm:
        out = ewm_mean(r, window, window, adjust) if stat == "mean" else ewm_std(r, window, window, adjust)
    else:
        out = []
        for i in range(len(x)):
            w = x[i:i + window]
            out.append(windowed(w, window, window, stat, ddof)[-1] if len(live(w)) >= window else NAN)
        return shifted(out, -wait, NAN)
    return shifted(out[::-1], -wait, NAN)


@monitor("C20", 90, "FMEAN, FSTD, FMIN, FMAX, FIXLB, MEANLB")
def future_windows(rng):
    df = prices(rng, True)
    n, m = df.shape
    wins = [int(rng.integers(1, 5)) for _ in range(int(rng.integers(1, 3)))]
    ewms = [bool(rng.random() < .35) for _ in wins]
    wait, adjust, ddof = int(rng.integers(0, 4)), bool(rng.random() < .4), int(rng.integers(0, 2))
    ctx = dict(close=df.values, windows=wins, ewms=ewms, wait=wait, adjust=adjust, ddof=ddof)
    runs = [
        ("FMEAN", "fmean", vbt.FMEAN.run(df, wins, ewm=ewms, wait=wait, adjust=adjust), lambda x, j: ahead(x, "mean", wins[j], wait, ewms[j], adjust)),
        ("FSTD", "fstd", vbt.FSTD.run(df, wins, ewm=ewms, wait=wait, adjust=adjust, ddof=ddof), lambda x, j: ahead(x, "std", wins[j], wait, ewms[j], adjust, ddof)),
        ("FMIN", "fmin", vbt.FMIN.run(df, wins, wait=wait), lambda x, j: ahead(x, "min", wins[j], wait)),
        ("FMAX", "fmax", vbt.FMAX.run(df, wins, wait=wait), lambda x, j: ahead(x, "max", wins[j], wait)),
        ("FIXLB", "labels", vbt.FIXLB.run(df, wins), lambda x, j: [b / a - 1 for a, b in zip(x, shifted(x, -wins[j], NAN))]),
        ("MEANLB", "labels", vbt.MEANLB.run(df, wins, ewm=ewms, wait=wait, adjust=adjust),
         lambda x, j: [b / a - 1 for a, b in zip(x, ahead(x, "mean", wins[j], wait, ewms[j], adjust))]),
        ("FMEAN", "fmean", vbt.FMEAN.run(df, wins), lambda x, j: ahead(x, "mean", wins[j], 1)),
        ("FMIN", "fmin", vbt.FMIN.run(df, wins), lambda x, j: ahead(x, "min", wins[j], 1)),
        ("MEANLB", "labels", vbt.MEANLB.run(df, wins), lambda x, j: [b / a - 1 for a, b in zip(x, ahead(x, "mean", wins[j], 1))]),
    ]
    for name, out, res, fn in runs:
        for j in range(len(wins)):
            for c in range(m):
                got = columns(getattr(res, out), j, m)[:, c]
                w = np.array([g if v is None else v for v, g in zip(fn(list(df.values[:, c]), j), got)], float)
                expect(same(got, w, 1e-5), name + " is the statistic of the coming window", column=c, combination=j, got=got, expected=w, **ctx)


def extrema(x, up, down):
    """Alternating lows (-1) and highs (1): a new leg starts when price has moved by the threshold from the running extreme."""
    n = len(x)
    out = [0] * n
    last, side = 0, 0           # running extreme, -1 while looking for the low's end (rising next), 1 for the high's
    for i in range(1, n):
        rises, falls = x[i] >= x[last] * (1 + up(last)), x[i] <= x[last] * (1 - down(last))
        if side == 0:
            if rises:
                out[last], last, side = -1, i, 1
            elif falls:
                out[last], last, side = 1, i, -1
        elif side == 1:         # last is the highest value of the rise
            if x[i] > x[last]:
                last = i
            elif falls:
                out[last], last, side = 1, i, -1
        else:
            if x[i] < x[last]:
                last = i
            elif rises:
                out[last], last, side = -1, i, 1
    if side:
        out[last] = side
    return out


def threshold(rng, n, m):
    kind = rng.random()
    v = lambda *s: rng.choice([.125, .25, .5, .75], s)
    if kind < .6:
        return float(v(1)[0])
    if kind < .8:
        return v(n, 1)
    return v(1, m) if kind < .9 else v(n, m)


@monitor("C20", 150, "LEXLB, TRENDLB (all modes), BOLB")
def moves(rng):
    df = prices(rng, False)
    x = df.values
    n, m = df.shape
    up, down = threshold(rng, n, m), threshold(rng, n, m)
    sym = rng.random() < .2
    bup, bdown = np.broadcast_to(up, (n, m)), np.broadcast_to(down, (n, m))
    ctx = dict(close=x, pos_th=up, neg_th=down)
    res = vbt.LEXLB.run(df, up, down)
    got = columns(res.labels, 0, m)
    lex = np.array([extrema(list(x[:, c]), lambda i: bup[i, c], lambda i: bdown[i, c]) for c in range(m)]).T.reshape(n, m)
    expect(same(got, lex), "local extrema", got=got, expected=lex, **ctx)
    for c in range(m):
        marks = [(i, got[i, c]) for i in range(n) if got[i, c] != 0]
        for (i, s), (j, t) in zip(marks, marks[1:]):
            expect(s == -t, "peaks and valleys alternate", got=got[:, c], **ctx)
            ok = x[j, c] >= x[i, c] * (1 + bup[i, c]) if t == 1 else x[j, c] <= x[i, c] * (1 - bdown[i, c])
            expect(ok, "price moved by the threshold between two extrema", first=i, second=j, got=got[:, c], **ctx)
            seg = x[i:j + 1, c]
            expect((seg <= x[j, c]).all() if t == 1 else (seg >= x[j, c]).all(),
                   "an extremum is the extreme of the move since the one before", first=i, second=j, got=got[:, c], **ctx)
    for mode in ("Binary", "BinaryCont", "BinaryContSat", "PctChange", "PctChangeNorm"):
        res = vbt.TRENDLB.run(df, up, down, mode=getattr(TrendMode, mode))
        got = columns(res.labels, 0, m)
        want = np.full((n, m), np.nan)
        with np.errstate(all="ignore"):
            for c in range(m):
                marks = [i for i in range(n) if lex[i, c] != 0]
                for a, b in zip(marks, marks[1:]):
                    rise = x[b, c] > x[a, c]
                    lo, hi = np.float64(x[a:b + 1, c].min()), np.float64(x[a:b + 1, c].max())
                    for i in range(a, b):
                        v = x[i, c]
                        if mode == "Binary":
                            want[i, c] = 1 if rise else 0
                        elif mode == "BinaryCont":
                            want[i, c] = (hi - v) / (hi - lo)
                        elif mode == "BinaryContSat":
                            if rise:
                                edge = hi / (1 + bup[a, c])
                                want[i, c] = 1 if hi >= lo * (1 + bup[a, c]) and v <= edge else 1 - (v - edge) / (hi - edge)
                            else:
                                edge = lo / (1 - bdown[a, c])
                                want[i, c] = 0 if lo <= hi * (1 - bdown[a, c]) and v >= edge else 1 - (v - lo) / (edge - lo)
                        elif mode == "PctChange":
                            want[i, c] = (x[b, c] - v) / v
                        else:
                            want[i, c] = (x[b, c] - v) / (x[b, c] if rise else v)
        expect(same(got, want, 1e-7), "trend labels of the move that encloses the bar", mode=mode, got=got, expected=want, **ctx)
        if mode.startswith("Binary"):
            v = got[~np.isnan(got)]
            expect(((v >= -1e-9) & (v <= 1 + 1e-9)).all(), "binary trend labels lie between 0 and 1", mode=mode, got=got, **ctx)
    window, wait = int(rng.integers(1, 5)), int(rng.integers(0, 3))
    p, q = (up if rng.random() < .8 else 0.0), (down if rng.random() < .8 else 0.0)
    bp, bq = np.broadcast_to(p, (n, m)), np.broadcast_to(q, (n, m))
    df2 = prices(rng, True)
    if df2.shape == df.shape:
        x = df2.values
        df = df2
    res = vbt.BOLB.run(df, window, p, q, wait=wait)
    got = columns(res.labels, 0, m)
    want = np.zeros((n, m))
    for c in range(m):
        for i in range(n):
            for j in range(i + wait, min(i + wait + window, n)):
                if bp[i, c] > 0 and x[j, c] >= x[i, c] * (1 + bp[i, c]):
                    want[i, c] = 1
                    break
                if bq[i, c] > 0 and x[j, c] <= x[i, c] * (1 - bq[i, c]):
                    want[i, c] = -1
                    break
    expect(same(got, want), "the breakout label has the sign of the first threshold reached", window=window, wait=wait, pos=p, neg=q, prices=x, got=got, expected=want)
    grid = [.25, .5]
    res = vbt.LEXLB.run(df.ffill().bfill().fillna(1.0), grid, grid, param_product=True)
    xx = df.ffill().bfill().fillna(1.0).values
    for j, (a, b) in enumerate([(a, b) for a in grid for b in grid]):
        for c in range(m):
            want = extrema(list(xx[:, c]), lambda i: a, lambda i: b)
            expect(same(columns(res.labels, j, m)[:, c], np.array(want)), "local extrema with several thresholds", thresholds=(a, b), close=xx[:, c])

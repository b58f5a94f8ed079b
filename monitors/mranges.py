"""C17: range and drawdown objects against a direct reading of the series (bounded, random small inputs)."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.generic.ranges import Ranges
from vectorbt.generic.drawdowns import Drawdowns

from pyvc.run import monitor, expect, same, Skip


def frame(rng, n, m, kind):
    a = rng.integers(1, 6, (n, m)).astype(float)
    if kind == "walk":
        a = np.maximum(0.5, 8 + np.cumsum(rng.integers(-2, 3, (n, m)), axis=0)).astype(float)
    if rng.random() < 0.5:
        a[rng.random((n, m)) < rng.choice([0.15, 0.4])] = np.nan
    for c in range(m):
        if rng.random() < 0.15:
            a[rng.integers(0, n):, c] = np.nan
        if rng.random() < 0.15:
            a[:rng.integers(0, n), c] = np.nan
    idx = pd.date_range("2021-01-01", periods=n, freq="D")
    return pd.DataFrame(a, index=idx, columns=list("abcdef")[:m])


def runs(ok):
    """[(start, end, open)] of the maximal runs of True; a closed run ends at the first bar after it."""
    out, n, i = [], len(ok), 0
    while i < n:
        if ok[i]:
            j = i
            while j < n and ok[j]:
                j += 1
            out.append((i, j, False) if j < n else (i, n - 1, True))
            i = j
        else:
            i += 1
    return out


def falls(v):
    """Drawdowns of one column: each maximal stretch of values below the highest one before it."""
    n = len(v)
    pos = [i for i in range(n) if not math.isnan(v[i])]
    out, cur = [], None
    for k, i in enumerate(pos):
        top = max((v[j] for j in pos[:k]), default=None)
        if top is None:
            continue
        if v[i] < top:
            if cur is None:
                cur = dict(peak=pos[k - 1], top=top, bars=[i])
            else:
                cur["bars"].append(i)
        elif cur is not None:
            out.append(dict(cur, end=i, end_val=v[i], active=False))
            cur = None
    if cur is not None:
        out.append(dict(cur, end=n - 1, end_val=v[pos[-1]], active=True))
    for d in out:
        d["low"] = min(v[j] for j in d["bars"])
        d["valley"] = next(j for j in d["bars"] if v[j] == d["low"])
    return out


def per_col(want, fn, empty=np.nan):
    return [fn(w) if len(w) else empty for w in want]


def red(s):
    """Result of a reduction as a list of floats (durations in days)."""
    v = s.values if isinstance(s, pd.Series) else np.array([s])
    if np.issubdtype(v.dtype, np.timedelta64):
        return np.where(np.isnat(v), np.nan, v.astype("timedelta64[ns]").astype(float) / 86400e9)
    return v


def mask_of(want, n):
    out = np.zeros((n, len(want)), bool)
    cnt = np.zeros((n, len(want)), int)
    for c, w in enumerate(want):
        for s, e, o in w:
            out[s:e + 1 if o else e, c] = True
            cnt[s:e + 1 if o else e, c] += 1
    return out, cnt


def check_spans(r, want, n, ctx):
    m = len(want)
    length = [[e - s + (1 if o else 0) for s, e, o in w] for w in want]
    mask, cnt = mask_of(want, n)
    expect(same(r.count().values, [len(w) for w in want]), "number of records per column", **ctx)
    expect(same(r.duration.values, [x for w in length for x in w]), "durations", got=r.duration.values, **ctx)
    expect(same(red(r.avg_duration()), per_col(length, np.mean)), "average duration", got=r.avg_duration(), **ctx)
    expect(same(red(r.max_duration()), per_col(length, max)), "longest duration", got=r.max_duration(), **ctx)
    expect(same(r.to_mask().values, mask), "mask", got=r.to_mask().values, **ctx)
    for ov in (False, True):
        num = (cnt > 1).sum(axis=0) if ov else mask.sum(axis=0)
        den = mask.sum(axis=0) if ov else np.full(m, n)
        for norm in (False, True):
            got = red(r.coverage(overlapping=ov, normalize=norm))
            exp = [np.nan if not w else num[c] / den[c] if norm else num[c] for c, w in enumerate(want)]
            expect(same(got, exp), "coverage overlapping=%s normalize=%s" % (ov, norm), got=got, **ctx)
    op = [[k for k, x in enumerate(w) if x[2]] for w in want]
    expect(same(r.open.count().values if hasattr(r, "open") else r.active.count().values, [len(x) for x in op]), "open records", **ctx)
    cl = r.closed if hasattr(r, "closed") else r.recovered
    expect(same(cl.count().values, [len(w) - len(x) for w, x in zip(want, op)]), "closed records", **ctx)


@monitor("C17", 250, "vectorbt.generic.nb:find_ranges_nb vectorbt.generic.nb:range_duration_nb vectorbt.generic.nb:range_coverage_nb "
         "vectorbt.generic.nb:ranges_to_mask_nb")
def value_ranges(rng):
    n, m = int(rng.integers(1, 10)), int(rng.integers(1, 4))
    df = frame(rng, n, m, "")
    gap = rng.choice([np.nan, 1.0, 3.0])
    via = rng.random()
    if via < 0.5:
        r = Ranges.from_ts(df, gap_value=gap)
    elif via < 0.75 or not np.isnan(gap):
        r = df.vbt.get_ranges(gap_value=gap)
    else:
        r = df.vbt.ranges
    ctx = dict(ts=df.values, gap=gap)
    ok = ~np.isnan(df.values) if np.isnan(gap) else df.values != gap
    want = [runs(ok[:, c]) for c in range(m)]
    flat = [(c, s, e, 0 if o else 1) for c, w in enumerate(want) for s, e, o in w]
    got = [(int(x["col"]), int(x["start_idx"]), int(x["end_idx"]), int(x["status"])) for x in r.values]
    expect(got == flat, "the records are the maximal runs of valid values", got=got, want=flat, **ctx)
    expect(same(r.values["id"], np.arange(len(got))), "ids number the records", **ctx)
    check_spans(r, want, n, ctx)
    if m > 1:
        keep = sorted(rng.choice(m, 2, replace=False))
        check_spans(r.iloc[:, keep] if False else r[[df.columns[c] for c in keep]], [want[c] for c in keep], n, dict(ctx, keep=keep))


@monitor("C17", 250, "vectorbt.generic.nb:find_ranges_nb vectorbt.generic.nb:range_coverage_nb vectorbt.generic.nb:ranges_to_mask_nb")
def overlapping_ranges(rng):
    """Range records that were not built from a series and may overlap."""
    n, m, k = int(rng.integers(2, 10)), int(rng.integers(1, 4)), int(rng.integers(0, 7))
    rec = np.zeros(k, vbt.generic.enums.range_dt)
    rec["id"] = np.arange(k)
    rec["col"] = np.sort(rng.integers(0, m, k))
    rec["status"] = rng.integers(0, 2, k)
    s = rng.integers(0, n - 1, k)
    rec["start_idx"] = s
    rec["end_idx"] = np.where(rec["status"] == 0, n - 1, np.minimum(s + rng.integers(1, 6, k), n - 1))
    df = pd.DataFrame(0.0, index=pd.date_range("2021-01-01", periods=n, freq="D"), columns=list("abcdef")[:m])
    r = Ranges(vbt.ArrayWrapper.from_obj(df), rec)
    want = [[(int(x["start_idx"]), int(x["end_idx"]), x["status"] == 0) for x in rec if x["col"] == c] for c in range(m)]
    check_spans(r, want, n, dict(records=rec, n=n))
    if m > 1:
        cut = int(rng.integers(1, m))
        by = np.array([0] * cut + [1] * (m - cut))
        both = [sum(want[:cut], []), sum(want[cut:], [])]
        mask, cnt = mask_of(both, n)
        ctx = dict(records=rec, n=n, group_by=by)
        expect(same(r.to_mask(group_by=by).values, mask), "mask of groups", **ctx)
        for ov in (False, True):
            exp = [np.nan if not w else (cnt > 1)[:, g].sum() if ov else mask[:, g].sum() for g, w in enumerate(both)]
            expect(same(red(r.coverage(overlapping=ov, normalize=False, group_by=by)), exp), "coverage of groups", **ctx)


@monitor("C17", 300, "vectorbt.generic.nb:get_drawdowns_nb vectorbt.generic.nb:dd_drawdown_nb vectorbt.generic.nb:dd_decline_duration_nb "
         "vectorbt.generic.nb:dd_recovery_duration_nb vectorbt.generic.nb:dd_recovery_duration_ratio_nb vectorbt.generic.nb:dd_recovery_return_nb")
def drawdowns(rng):
    n, m = int(rng.integers(1, 12)), int(rng.integers(1, 4))
    df = frame(rng, n, m, str(rng.choice(["", "walk"])))
    d = Drawdowns.from_ts(df) if rng.random() < 0.6 else df.vbt.drawdowns if rng.random() < 0.5 else df.vbt.get_drawdowns()
    want = [falls(df.values[:, c]) for c in range(m)]
    ctx = dict(ts=df.values)
    cols = ("col", "peak_idx", "start_idx", "valley_idx", "end_idx", "peak_val", "valley_val", "end_val", "status")
    flat = [(c, x["peak"], x["peak"] + 1, x["valley"], x["end"], x["top"], x["low"], x["end_val"], 0 if x["active"] else 1)
            for c, w in enumerate(want) for x in w]
    got = [tuple(x[k].item() for k in cols) for x in d.values]
    expect(len(got) == len(flat) and all(same(g, w) for g, w in zip(got, flat)), "the records are the declines below the running peak",
           got=got, want=flat, **ctx)
    expect(same(d.values["id"], np.arange(len(got))), "ids number the records", **ctx)
    check_spans(d, [[(x["peak"] + 1, x["end"], x["active"]) for x in w] for w in want], n, ctx)
    for name, fn in (("drawdown", lambda x: (x["low"] - x["top"]) / x["top"]), ("recovery_return", lambda x: (x["end_val"] - x["low"]) / x["low"]),
                     ("decline_duration", lambda x: x["valley"] - x["peak"]), ("recovery_duration", lambda x: x["end"] - x["valley"]),
                     ("recovery_duration_ratio", lambda x: (x["end"] - x["valley"]) / (x["valley"] - x["peak"]))):
        per = [[fn(x) for x in w] for w in want]
        expect(same(getattr(d, name).values, [y for w in per for y in w]), name, got=getattr(d, name).values, **ctx)
        if name in ("drawdown", "recovery_return"):
            expect(same(red(getattr(d, "avg_" + name)()), per_col(per, np.mean)), "average " + name, **ctx)
            expect(same(red(getattr(d, "max_" + name)()), per_col(per, min if name == "drawdown" else max)), "largest " + name,
                   got=getattr(d, "max_" + name)(), **ctx)
    last = [[x for x in w if x["active"]][-1:] for w in want]
    for name, fn in (("active_drawdown", lambda x: (x["end_val"] - x["top"]) / x["top"]), ("active_duration", lambda x: x["end"] - x["peak"]),
                     ("active_recovery", lambda x: (x["end_val"] - x["low"]) / (x["top"] - x["low"])),
                     ("active_recovery_return", lambda x: (x["end_val"] - x["low"]) / x["low"]),
                     ("active_recovery_duration", lambda x: x["end"] - x["valley"])):
        expect(same(red(getattr(d, name)()), [fn(w[0]) if w else np.nan for w in last]), name, got=getattr(d, name)(), **ctx)
    # one column alone gives the same records, and only bars under the peak are covered
    c = int(rng.integers(0, m))
    one = d[df.columns[c]] if m > 1 else d
    expect(same(one.values["peak_idx"], [x["peak"] for x in want[c]]) and same(one.values["end_val"], [x["end_val"] for x in want[c]]),
           "selecting a column keeps its records", **ctx)

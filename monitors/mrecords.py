"""C21: record maps and mapped arrays against direct selection (bounded, random small inputs)."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt
from numba import njit
from vectorbt.records import nb
from vectorbt.records.mapped_array import MappedArray
from vectorbt.records.base import Records
from vectorbt.base.array_wrapper import ArrayWrapper

from pyvc.run import monitor, expect, same, Skip

rec_dt = np.dtype([("id", np.int64), ("col", np.int64), ("idx", np.int64), ("val", np.float64)])


def cols_of(rng, n_cols, n, sort=True):
    c = rng.integers(0, n_cols, n)
    if n and rng.random() < 0.5:      # leave some columns without records
        c[:] = rng.choice(np.unique(rng.integers(0, n_cols, 2)), n)
    return np.sort(c) if sort else c


def values(rng, n, nan=True):
    v = rng.integers(-4, 5, n).astype(float)
    if rng.random() < 0.4:
        v = v + rng.integers(0, 8, n) / 8
    if nan and rng.random() < 0.3:
        v[rng.random(n) < 0.3] = np.nan
    return v


def records(rng, n_cols, n, sort=True):
    r = np.zeros(n, rec_dt)
    r["col"] = cols_of(rng, n_cols, n, sort)
    r["id"] = np.arange(n)
    for c in range(n_cols):
        m = r["col"] == c
        k = int(m.sum())
        r["idx"][m] = np.sort(rng.permutation(max(k, 6))[:k])
    r["val"] = values(rng, n)
    return r


def positions(col_arr, c):
    return np.flatnonzero(col_arr == c)


@monitor("C21", 300, "vectorbt.records.nb:col_range_nb vectorbt.records.nb:col_map_nb vectorbt.records.nb:col_range_select_nb "
         "vectorbt.records.nb:col_map_select_nb vectorbt.records.nb:record_col_range_select_nb vectorbt.records.nb:record_col_map_select_nb")
def maps_and_selection(rng):
    n_cols, n = int(rng.integers(1, 6)), int(rng.integers(0, 12))
    sort = rng.random() < 0.6
    r = records(rng, n_cols, n, sort)
    ca = r["col"].copy()
    idxs, lens = nb.col_map_nb(ca, n_cols)
    pos = [positions(ca, c) for c in range(n_cols)]
    ctx = dict(col_arr=ca, n_cols=n_cols)
    expect(same(lens, [len(p) for p in pos]), "column map: lengths", **ctx)
    expect(same(idxs, np.concatenate(pos)), "column map: positions in order", got=idxs, **ctx)
    new_cols = rng.integers(0, n_cols, int(rng.integers(1, 6)))
    ctx["new_cols"] = new_cols
    sel = np.concatenate([pos[c] for c in new_cols]).astype(int)
    newc = np.concatenate([np.full(len(pos[c]), k) for k, c in enumerate(new_cols)]).astype(int)
    want = r[sel].copy()
    want["col"] = newc
    keep = r.copy()
    i1, c1 = nb.col_map_select_nb((idxs, lens), new_cols)
    expect(same(i1, sel) and same(c1, newc), "selection through the column map", got=(i1, c1), **ctx)
    out = nb.record_col_map_select_nb(r, (idxs, lens), new_cols)
    expect(out.tobytes() == want.tobytes(), "records selected through the column map", got=out, want=want, **ctx)
    if sort:
        cr = nb.col_range_nb(ca, n_cols)
        for c in range(n_cols):
            w = (pos[c][0], pos[c][-1] + 1) if len(pos[c]) else (-1, -1)
            expect(tuple(cr[c]) == w, "column range", got=cr, **ctx)
        i2, c2 = nb.col_range_select_nb(cr, new_cols)
        expect(same(i2, sel) and same(c2, newc), "selection through the column range", got=(i2, c2), **ctx)
        out = nb.record_col_range_select_nb(r, cr, new_cols)
        expect(out.tobytes() == want.tobytes(), "records selected through the column range", got=out, want=want, **ctx)
    elif len(ca) and (np.diff(ca) < 0).any():
        try:
            nb.col_range_nb(ca, n_cols)
        except ValueError:
            pass
        else:
            expect(False, "column range of unsorted columns is refused", **ctx)
    expect(r.tobytes() == keep.tobytes(), "selection leaves the records alone", **ctx)
    expect(bool(nb.is_col_sorted_nb(ca)) == bool((np.diff(ca) >= 0).all()), "column order", **ctx)
    ids = rng.integers(0, 3, n)
    w = all((ca[k], ids[k]) <= (ca[k + 1], ids[k + 1]) for k in range(n - 1))
    expect(bool(nb.is_col_idx_sorted_nb(ca, ids)) == w, "column and index order", ids=ids, **ctx)


def mask_func(inout, idxs, col, vals, k):
    for i in range(len(idxs)):
        if (vals[i] > k) or (i + col) % 3 == 0:
            inout[idxs[i]] = True


@njit
def weigh(idxs, col, vals, k):
    return vals * (col + 1) + k + np.arange(len(vals))


@njit
def weigh_rec(recs, k):
    return recs["val"] * 2 + recs["idx"] + k + np.arange(len(recs))


@njit
def red(col, a, k):
    return col * 100 + np.sum(np.where(np.isnan(a), 7.0, a)) + k


@njit
def red_arr(col, a, k):
    return np.array([a[0], float(len(a)), col + k])


@njit
def red_last(col, a):
    return len(a) - 1


@njit
def red_ends(col, a):
    return np.array([0, len(a) - 1])


@monitor("C21", 250, "vectorbt.records.nb:reduce_mapped_nb vectorbt.records.nb:apply_on_mapped_nb vectorbt.records.nb:expand_mapped_nb "
         "vectorbt.records.nb:mapped_value_counts_nb vectorbt.records.nb:stack_expand_mapped_nb")
def per_column_functions(rng):
    n_cols, n = int(rng.integers(1, 5)), int(rng.integers(1, 12))
    r = records(rng, n_cols, n, rng.random() < 0.5)
    ca, v, idx = r["col"].copy(), r["val"].copy(), r["idx"].copy()
    cm = nb.col_map_nb(ca, n_cols)
    pos = [positions(ca, c) for c in range(n_cols)]
    fill = float(rng.choice([math.nan, -1.0, 5.0]))
    ctx = dict(col_arr=ca, values=v, idx=idx, fill=fill)
    w = np.zeros(n)
    wr = np.zeros(n)
    wm = np.zeros(n, bool)
    for c in range(n_cols):
        p = pos[c]
        w[p] = v[p] * (c + 1) + 3 + np.arange(len(p))
        wr[p] = v[p] * 2 + idx[p] + 3 + np.arange(len(p))
        wm[p] = (v[p] > 1) | ((np.arange(len(p)) + c) % 3 == 0)
    expect(same(nb.apply_on_mapped_nb(v, cm, weigh, 3), w), "function applied per column", **ctx)
    expect(same(nb.apply_on_records_nb(r, cm, weigh_rec, 3), wr), "function applied per column of records", **ctx)
    expect(same(nb.mapped_to_mask_nb(v, cm, mask_func, 1), wm), "mask per column", **ctx)
    expect(same(nb.map_records_nb(r, lambda x, k: x["val"] * k + x["idx"], 2.0), v * 2 + idx), "record by record", **ctx)
    wred = [c * 100 + np.nansum(np.where(np.isnan(v[pos[c]]), 7.0, v[pos[c]])) + 2 if len(pos[c]) else fill for c in range(n_cols)]
    expect(same(nb.reduce_mapped_nb(v, cm, fill, red, 2), wred), "reduction per column", **ctx)
    wl = [idx[pos[c][-1]] if len(pos[c]) else fill for c in range(n_cols)]
    expect(same(nb.reduce_mapped_to_idx_nb(v, cm, idx, fill, red_last), np.array(wl, float)), "reduction to an index", **ctx)
    wa = np.array([[v[p[0]], len(p), c + 2] if len(p) else [fill] * 3 for c, p in enumerate(pos)]).T
    expect(same(nb.reduce_mapped_to_array_nb(v, cm, fill, red_arr, 2), wa), "reduction to an array", **ctx)
    we = np.array([[idx[p[0]], idx[p[-1]]] if len(p) else [fill] * 2 for p in pos], dtype=float).T
    expect(same(nb.reduce_mapped_to_idx_array_nb(v, cm, idx, fill, red_ends), we), "reduction to an index array", **ctx)
    codes = rng.integers(0, 4, n)
    wc = np.array([[int((codes[p] == u).sum()) for p in pos] for u in range(4)])
    expect(same(nb.mapped_value_counts_nb(codes, 4, cm), wc), "value counts", codes=codes, **ctx)
    shape = (max(12, n), n_cols)
    ex = np.full(shape, fill)
    for k in range(n):
        ex[idx[k], ca[k]] = v[k]
    expect(same(nb.expand_mapped_nb(v, ca, idx, shape, fill), ex), "expansion to a matrix", **ctx)
    m = max(len(p) for p in pos)
    st = np.full((m, n_cols), fill)
    for c, p in enumerate(pos):
        st[:len(p), c] = v[p]
    expect(same(nb.stack_expand_mapped_nb(v, cm, fill), st), "stacked expansion", **ctx)
    dup = idx.copy()
    if n > 1 and rng.random() < 0.5:
        dup = rng.integers(0, 4, n)
    w = len({(a, b) for a, b in zip(dup.tolist(), ca.tolist())}) == n
    expect(bool(nb.is_mapped_expandable_nb(ca, dup, shape)) == w, "expandable without conflicts", dup=dup, **ctx)


@monitor("C21", 300, "vectorbt.records.nb:top_n_inout_map_nb vectorbt.records.nb:bottom_n_inout_map_nb")
def n_largest(rng):
    n_cols, n = int(rng.integers(1, 4)), int(rng.integers(1, 12))
    ca = cols_of(rng, n_cols, n, rng.random() < 0.5)
    v = values(rng, n)
    k = int(rng.integers(0, 6))
    cm = nb.col_map_nb(ca, n_cols)
    for top in (True, False):
        f = nb.top_n_inout_map_nb if top else nb.bottom_n_inout_map_nb
        m = nb.mapped_to_mask_nb(v, cm, f, k)
        for c in range(n_cols):
            p = positions(ca, c)
            ctx = dict(col_arr=ca, values=v, n=k, top=top, mask=m)
            expect(m[p].sum() == min(k, len(p)), "number of elements picked", **ctx)
            ok = ~np.isnan(v[p])
            s = np.sort(v[p][ok])
            want = (s[::-1] if top else s)[:k]
            got = np.sort(v[p][m[p] & ok])
            expect(same(got[::-1] if top else got, want), "the %s of the column" % ("largest" if top else "smallest"), **ctx)


@monitor("C21", 60, "vectorbt.records.mapped_array:MappedArray vectorbt.records.base:Records")
def objects(rng):
    n_cols, n = int(rng.integers(2, 5)), int(rng.integers(1, 12))
    r = records(rng, n_cols, n, rng.random() < 0.6)
    groups = np.sort(rng.integers(0, 2, n_cols))
    cols = pd.Index(list("abcdef")[:n_cols])
    rows = 14
    wr = ArrayWrapper(pd.RangeIndex(rows), cols, 2, freq="1D", group_by=groups if rng.random() < 0.5 else None)
    R = Records(wr, r.copy())
    ma = R.map_field("val")
    ctx = dict(records=r, groups=wr.grouper.group_by is not None)
    gb = False
    for c in range(n_cols):
        v = r["val"][r["col"] == c]
        fin = v[~np.isnan(v)]
        ctx["col"] = c
        expect(R.count(group_by=gb).iloc[c] == len(v), "records per column", **ctx)
        for name, w in (("sum", fin.sum() if len(v) else 0.0), ("min", fin.min() if len(fin) else np.nan),
                        ("max", fin.max() if len(fin) else np.nan), ("mean", fin.mean() if len(fin) else np.nan),
                        ("median", np.median(fin) if len(fin) else np.nan)):
            g = getattr(ma, name)(group_by=gb).iloc[c]
            expect(same(g, w), "%s of a column" % name, got=float(g), want=float(w), **ctx)
    if wr.grouper.group_by is not None:
        for k, g in enumerate(np.unique(groups)):
            v = r["val"][np.isin(r["col"], np.flatnonzero(groups == g))]
            expect(same(np.atleast_1d(ma.sum())[k], np.nansum(v)), "sum of a group", **ctx)
            expect(np.atleast_1d(R.count())[k] == len(v), "records of a group", **ctx)
    pd_ = ma.to_pd(group_by=False) if hasattr(ma, "to_pd") else None
    w = np.full((rows, n_cols), np.nan)
    for x in r:
        w[x["idx"], x["col"]] = x["val"]
    expect(same(pd_.values, w), "expanded object", **ctx)
    # indexing
    if wr.grouper.group_by is None:
        pick = rng.integers(0, n_cols, int(rng.integers(1, 4)))
        sub = R.iloc[pick]
        want = []
        for k, c in enumerate(pick):
            x = r[r["col"] == c].copy()
            x["col"] = k
            want.append(x)
        want = np.concatenate(want)
        expect(sub.values.tobytes() == want.tobytes(), "indexed records", pick=pick, got=sub.values, want=want, **ctx)
        sm = ma.iloc[pick]
        expect(same(sm.values, want["val"]) and same(sm.col_arr, want["col"]) and same(sm.idx_arr, want["idx"]) and
               same(sm.id_arr, want["id"]), "indexed mapped array", pick=pick, **ctx)
    mask = rng.random(n) < 0.5
    f = R.apply_mask(mask)
    expect(f.values.tobytes() == r[mask].tobytes(), "masked records", mask=mask, **ctx)
    fm = ma.apply_mask(mask)
    expect(same(fm.values, r["val"][mask]) and same(fm.col_arr, r["col"][mask]) and same(fm.idx_arr, r["idx"][mask]), "masked mapped array", **ctx)
    s = R.sort(incl_id=True)
    o = np.lexsort((r["id"], r["col"]))
    expect(s.values.tobytes() == r[o].tobytes(), "sorted records", **ctx)
    ss = ma.sort()
    o = np.argsort(r["col"], kind="stable")
    expect(same(ss.values, r["val"][o]) and same(ss.idx_arr, r["idx"][o]), "sorted mapped array", **ctx)
    k = int(rng.integers(1, 4))
    t = ma.top_n(k)
    m = ma.top_n_mask(k)
    expect(same(t.values, r["val"][m]), "top n object", **ctx)


@monitor("C21", 80, "vectorbt.records.mapped_array:MappedArray reductions, expansions, masks and operators, per column and per group")
def mapped_operations(rng):
    n_cols, n = int(rng.integers(2, 5)), int(rng.integers(1, 12))
    r = records(rng, n_cols, n, rng.random() < 0.6)
    groups = np.sort(rng.integers(0, n_cols, n_cols))
    rows = 14
    wr = ArrayWrapper(pd.date_range("2020-01-01", periods=rows), pd.Index(list("abcdef")[:n_cols]), 2, freq="1D",
                      group_by=groups if rng.random() < 0.5 else None)
    R = Records(wr, r.copy())
    ma = R.map_field("val")
    grouped = wr.grouper.group_by is not None
    ways = [(dict(group_by=False), [[c] for c in range(n_cols)]), (dict(group_by=groups), [list(np.flatnonzero(groups == g)) for g in np.unique(groups)])]
    for kw, parts in ways:
        ctx = dict(records=r, parts=parts, grouped=grouped)
        at = [np.flatnonzero(np.isin(r["col"], c)) for c in parts]
        v = [r["val"][i] for i in at]
        for name, f in (("idxmin", np.nanargmin), ("idxmax", np.nanargmax)):
            if any(len(x) and np.isnan(x).all() for x in v):
                continue                      # refused, as numpy does
            got = np.atleast_1d(getattr(ma, name)(to_index=False, **kw))
            for g, x, i in zip(got, v, at):
                if len(x) and np.isfinite(x).any() and not np.isnan(x).any():
                    expect(g == r["idx"][i][f(x)] or x[list(r["idx"][i]).index(g)] == x[f(x)], "%s is the bar of the extreme value" % name, got=got, values=x, **ctx)
                elif not len(x):
                    expect(g == -1, "%s without records" % name, got=got, **ctx)
        for name, f, least in (("std", lambda x: x.std(ddof=1), 2), ("count", len, 0)):
            got = np.atleast_1d(getattr(ma, name)(**kw)).astype(float)
            for g, x in zip(got, v):
                x = x if name == "count" else x[~np.isnan(x)]
                if np.isinf(x).any():
                    continue
                if len(x) >= least:
                    expect(same(g, f(x), 1e-7), name, got=got, **ctx)
        d = ma.describe(**kw) if n else None
        d = d.to_frame() if isinstance(d, pd.Series) else d
        for c, x in enumerate(v):
            x = x[~np.isnan(x)]
            if np.isinf(x).any():
                continue
            expect(d.iloc[:, c].loc["count"] == len(x), "number of values described", got=d.values, **ctx)
            if len(x):
                want = [x.mean(), x.min(), *np.percentile(x, [25, 50, 75]), x.max()]
                expect(same(d.iloc[:, c].loc[["mean", "min", "25%", "50%", "75%", "max"]].values.astype(float), want, 1e-7), "description", got=d.values, want=want, **ctx)
        out = ma.to_pd(ignore_index=True, **kw)
        out = out.values.reshape(len(out), -1)
        want = np.full((max(len(x) for x in v), len(v)), np.nan)
        for c, x in enumerate(v):
            want[:len(x), c] = x
        expect(same(out, want), "values stacked per column", got=out, want=want, **ctx)
        k = int(rng.integers(1, 4))
        for name, s in (("top_n_mask", -1), ("bottom_n_mask", 1)):
            m = getattr(ma, name)(k, **kw)
            if np.isnan(r["val"]).any():
                continue
            for i in at:
                kept = np.sort(s * r["val"][i][m[i]])
                expect(m[i].sum() == min(k, len(i)) and same(kept, np.sort(s * r["val"][i])[:k]), "%s keeps the extreme values" % name, n=k, mask=m, **ctx)
        counts = ma.value_counts(**kw)
        cv = counts.values.reshape(len(counts), -1)
        for j, u in enumerate(counts.index):
            w = [int((np.isnan(x) if np.isnan(u) else x == u).sum()) for x in v]
            expect(list(cv[j]) == w, "counts of values", value=u, got=cv, **ctx)
        expect(cv.sum() == n, "every value is counted", got=cv, **ctx)
    b = rng.integers(1, 9, n).astype(float)
    with np.errstate(all="ignore"):
        expect(same((ma + b).values, r["val"] + b) and same((ma * 2).values, r["val"] * 2) and same((ma - ma).values, r["val"] - r["val"]) and
               np.array_equal((ma > b).values, r["val"] > b), "operators work value by value", records=r, other=b)

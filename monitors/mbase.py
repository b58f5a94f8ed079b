"""C22, C23: broadcasting, flexible indexing and column grouping against a direct reading (bounded, random small inputs)."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.base import reshape_fns, index_fns
from vectorbt.base.column_grouper import ColumnGrouper, get_group_lens_nb
from vectorbt.base.array_wrapper import ArrayWrapper

from pyvc.run import monitor, expect, same, Skip


def labels(x):
    """Values of each level of an index, as a list of tuples."""
    return [tuple(v) if isinstance(v, tuple) else (v,) for v in x]


def arg(rng, n, m, two_d, idx, cols):
    """A random argument that broadcasts to (n, m), with the 2-dim matrix of values it stands for."""
    kind = int(rng.integers(0, 6))
    val = lambda *s: rng.integers(0, 90, s).astype(float)
    if kind == 0:
        v = float(rng.integers(0, 90))
        return v, np.full((n, m), v), None, None
    if kind == 1:
        a = val(m if two_d else n) if rng.random() < .7 else val(1)
        return a, np.broadcast_to(a if two_d else a[:, None], (n, m)), None, None
    if kind == 2:
        a = val(n)
        name = None if rng.random() < .5 else "s"
        return pd.Series(a, idx, name=name), np.broadcast_to(a[:, None], (n, m)), idx, name
    if two_d and kind == 3:
        a = val(n, m)
        return pd.DataFrame(a, idx, cols), a, idx, cols
    if two_d and kind == 4:
        a = val(n, 1)
        return (a, np.broadcast_to(a, (n, m)), None, None) if rng.random() < .5 else (pd.DataFrame(a, idx, cols[:1]), np.broadcast_to(a, (n, m)), idx, cols[:1])
    if two_d:
        a = val(1, m)
        return a, np.broadcast_to(a, (n, m)), None, None
    v = float(rng.integers(0, 90))
    return v, np.full((n, m), v), None, None


@monitor("C22", 400, "broadcast and broadcast_to: common shape, same elements, labels kept; flexible reading of the raw argument")
def broadcasting(rng):
    n, two_d = int(rng.integers(2, 5)), bool(rng.random() < .75)
    m = int(rng.integers(1, 4)) if two_d else 1
    idx = pd.Index(["r%d" % i for i in range(n)], name="row") if rng.random() < .5 else pd.date_range("2021-01-01", periods=n, freq="D")
    cols = pd.Index(["c%d" % i for i in range(m)], name="col")
    items = [arg(rng, n, m, two_d, idx, cols) for _ in range(int(rng.integers(1, 4)))]
    if two_d:
        items.append((np.zeros((n, m)), np.zeros((n, m)), None, None))
    else:
        items.append((np.zeros(n), np.zeros((n, 1)), None, None))
    order = rng.permutation(len(items))
    items = [items[i] for i in order]
    raw = [x[0] for x in items]
    res = reshape_fns.broadcast(*raw)
    is_pd = any(x[2] is not None for x in items)
    shape = (n, m) if two_d else (n,)
    ctx = dict(arguments=[str(type(x).__name__) + str(np.shape(x)) for x in raw])
    for x, r in zip(items, res):
        expect(np.shape(r) == shape, "all arguments get the common shape", got=np.shape(r), shape=shape, **ctx)
        expect(same(np.asarray(r).reshape(n, m), x[1]), "broadcasting keeps the elements", got=np.asarray(r), expected=x[1], **ctx)
        expect(isinstance(r, (pd.Series, pd.DataFrame)) == is_pd, "pandas in, pandas out", **ctx)
        if is_pd:
            expect(r.index.equals(idx), "the index keeps its labels", got=list(r.index), **ctx)
            frames = [x for x in items if isinstance(x[0], pd.DataFrame)]
            if two_d and any(len(f[3]) == m for f in frames) and all(list(f[3]) == list(cols) for f in frames):
                expect(list(r.columns.get_level_values("col")) == list(cols), "the columns keep their labels", got=list(r.columns), **ctx)
    # two frames with the same columns under different labels: the labels are stacked
    if two_d:
        a, b = rng.integers(0, 9, (n, m)).astype(float), rng.integers(0, 9, (n, m)).astype(float)
        other = pd.Index(["d%d" % i for i in range(m)], name="other")
        p, q = reshape_fns.broadcast(pd.DataFrame(a, idx, cols), pd.DataFrame(b, idx, other))
        expect(same(p.values, a) and same(q.values, b), "broadcasting keeps the elements of frames with different labels", **ctx)
        expect(list(p.columns) == list(q.columns) and list(p.columns.get_level_values("col")) == list(cols) and list(p.columns.get_level_values("other")) == list(other),
               "different labels are stacked as levels", got=list(p.columns), **ctx)
        one = rng.integers(0, 9, (n, 1)).astype(float)
        p, q = reshape_fns.broadcast(pd.DataFrame(a, idx, cols), pd.DataFrame(one, idx, pd.Index(["z"], name="other")))
        expect(same(q.values, np.repeat(one, m, axis=1)) and list(q.columns.get_level_values("col")) == list(cols), "a single column is repeated", got=q.values, **ctx)
    # reading the raw argument flexibly gives the element that broadcasting puts there
    for x in items:
        a = np.asarray(x[0])
        if isinstance(x[0], pd.Series) and two_d:
            a = a[:, None]
        kept = reshape_fns.broadcast(x[0], to_shape=shape, keep_raw=True)
        full = np.broadcast_to(a, shape)
        for i in range(n):
            for c in range(m):
                want = full[i, c] if two_d else full[i]
                got = reshape_fns.flex_select_auto_nb(a if a.ndim else a.reshape(()), i, c, two_d)
                expect(same(float(got), float(want)), "flexible reading gives the broadcast element", array=a, row=i, column=c, flex_2d=two_d, got=got)
                k = np.asarray(kept)
                fi, fc = reshape_fns.flex_choose_i_and_col_nb(k, two_d)
                got = reshape_fns.flex_select_nb(k, i, c, fi, fc, two_d)
                expect(same(float(got), float(want)), "chosen flexible axes give the broadcast element", array=k, row=i, column=c, flex_2d=two_d, got=got)
    target = pd.DataFrame(np.zeros((n, m)), idx, cols) if two_d else pd.Series(np.zeros(n), idx, name="t")
    for x in items:
        r = reshape_fns.broadcast_to(x[0], target)
        expect(r.shape == target.shape and r.index.equals(target.index) and same(r.values.reshape(n, m), x[1]), "broadcast_to takes the shape and labels of the target",
               got=r.values, expected=x[1], **ctx)
        if two_d:
            expect(r.columns.equals(target.columns), "broadcast_to takes the columns of the target", got=list(r.columns), **ctx)


@monitor("C22", 200, "repeat, tile, stacking and combining of labels, unstacking, concat and combine of the base accessor")
def reshaping(rng):
    n, m, k = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    a = rng.integers(0, 90, (n, m)).astype(float)
    cols = pd.Index(["c%d" % i for i in range(m)], name="col")
    idx = pd.Index(["r%d" % i for i in range(n)], name="row")
    df = pd.DataFrame(a, idx, cols)
    keys = pd.Index(list(range(10, 10 + k)), name="p")
    t, r = df.vbt.tile(k, keys=keys), df.vbt.repeat(k, keys=keys)
    ctx = dict(values=a, times=k)
    for got, want, labs in ((t, [(q, c) for q in range(k) for c in range(m)], "tile"), (r, [(q, c) for c in range(m) for q in range(k)], "repeat")):
        expect(got.shape == (n, m * k), labs + " multiplies the columns", got=got.shape, **ctx)
        for j, (q, c) in enumerate(want):
            expect(same(got.values[:, j], a[:, c]), labs + " keeps the columns", column=j, got=got.values, **ctx)
            expect(got.columns.get_level_values("p")[j] == keys[q] and got.columns.get_level_values("col")[j] == cols[c], labs + " labels the columns",
                   column=j, got=list(got.columns), **ctx)
    rows = df.vbt.repeat(k, axis=0)
    expect(same(rows.values, np.repeat(a, k, axis=0)) and list(rows.index) == [x for x in idx for _ in range(k)], "repeat along rows", got=rows.values, **ctx)
    rows = df.vbt.tile(k, axis=0)
    expect(same(rows.values, np.tile(a, (k, 1))) and list(rows.index) == list(idx) * k, "tile along rows", got=rows.values, **ctx)
    comb = index_fns.combine_indexes([keys, cols])
    expect(labels(comb) == [(p, c) for p in keys for c in cols], "combine_indexes is the product", got=list(comb))
    other = pd.DataFrame(rng.integers(0, 90, (n, m)).astype(float), idx, cols)
    got = df.vbt.concat(other, keys=pd.Index(["x", "y"], name="k"))
    expect(same(got.values, np.hstack([a, other.values])) and labels(got.columns) == [(z, c) for z in "xy" for c in cols], "concat puts objects side by side", got=got.values)
    got = df.vbt.combine(other, combine_func=lambda x, y: x - 2 * y)
    expect(same(got.values, a - 2 * other.values) and got.columns.equals(cols), "combine works element by element", got=got.values)
    ser = df.iloc[:, 0]
    got = df.vbt.combine(ser, combine_func=lambda x, y: x - 2 * y)
    expect(same(got.values, a - 2 * a[:, :1]), "combine broadcasts a series over the columns", got=got.values)
    got = df.vbt.combine([1.0, 2.0, 3.0][:k], combine_func=lambda x, y: x * y, concat=True, keys=pd.Index(range(k), name="k"))
    expect(same(got.values, np.hstack([a * z for z in [1.0, 2.0, 3.0][:k]])), "combine with several objects gives one block for each", got=got.values)
    stacked = df.stack()
    got = stacked.vbt.unstack_to_df(index_levels=0, column_levels=1)
    expect(same(got.loc[list(idx), list(cols)].values, a), "unstack_to_df puts each element under its labels", got=got.values, **ctx)


@monitor("C23", 300, "column grouper: group lengths, sizes, order, coherence; grouped wrapping")
def grouper(rng):
    m = int(rng.integers(1, 8))
    cols = pd.MultiIndex.from_arrays([rng.integers(0, 3, m), np.arange(m)], names=["g", "c"])
    mode = rng.integers(0, 3)
    if mode == 0:
        key = np.array(cols.get_level_values("g"))
        gb = "g"
    elif mode == 1:
        key = np.repeat(np.arange(m), rng.integers(1, 4, m))[:m]
        gb = pd.Index(["k%d" % v for v in key], name="key")
    else:
        key = rng.integers(0, 3, m)
        gb = key.tolist()
    seen = list(dict.fromkeys(key))
    runs = 1 + sum(1 for i in range(m - 1) if key[i] != key[i + 1])
    coherent = runs == len(seen)
    grouper = ColumnGrouper(cols, group_by=gb)
    groups = grouper.get_groups()
    order = list(dict.fromkeys(key)) if coherent else None
    ctx = dict(groups=list(key))
    monotone = all(groups[i] <= groups[i + 1] for i in range(m - 1))
    for i in range(m):
        for j in range(m):
            expect((groups[i] == groups[j]) == (key[i] == key[j]), "columns share a group number exactly when they share a label", got=groups, **ctx)
    if not monotone:
        try:
            got = grouper.get_group_lens()
        except ValueError:
            pass
        else:
            expect(False, "unsorted or incoherent groups are refused", got=got, **ctx)
        try:
            got = get_group_lens_nb(np.asarray(groups))
        except ValueError:
            pass
        else:
            expect(False, "get_group_lens_nb refuses unsorted groups", got=got, **ctx)
        return
    lens = grouper.get_group_lens()
    want = [int((key == g).sum()) for g in seen]
    expect(list(lens) == want and sum(lens) == m, "group lengths are the sizes of the consecutive groups", got=lens, expected=want, **ctx)
    expect(list(get_group_lens_nb(np.asarray(groups))) == want, "get_group_lens_nb", got=lens, expected=want, **ctx)
    starts, ends = grouper.get_group_start_idxs(), grouper.get_group_end_idxs()
    expect(list(starts) == list(np.cumsum([0] + want[:-1])) and list(ends) == list(np.cumsum(want)), "group start and end positions", got=[starts, ends], **ctx)
    expect(grouper.get_group_count() == len(seen) and len(grouper.get_columns()) == len(seen), "one column per group", **ctx)
    name = {"g": None}
    labs = list(grouper.get_columns())
    wantlabs = [key[list(key).index(g)] if mode != 1 else "k%d" % g for g in seen]
    expect([str(x) for x in labs] == [str(x) for x in wantlabs], "groups keep their labels in order", got=labs, expected=wantlabs, **ctx)
    off = ColumnGrouper(cols)
    expect(list(off.get_group_lens()) == [1] * m and not off.is_grouped(), "without grouping every column is its own group", **ctx)
    w = ArrayWrapper(pd.RangeIndex(3), cols, 2, group_by=gb)
    a = rng.integers(0, 9, (3, len(seen))).astype(float)
    got = w.wrap(a)
    got = got.to_frame() if got.ndim == 1 else got
    expect(same(got.values, a) and [str(x) for x in got.columns] == ([str(x) for x in wantlabs] if len(seen) > 1 else [str(x) for x in got.columns]),
           "wrapping a grouped result labels it by group", got=list(got.columns), **ctx)


@monitor("C23", 200, "vectorbt.base.array_wrapper:ArrayWrapper.indexing_func_meta: selecting groups and columns")
def selected_groups(rng):
    m = int(rng.integers(2, 9))
    cols = pd.Index(["c%d" % i for i in range(m)])
    lab = np.cumsum(rng.random(m) < 0.6)
    group_by = pd.Index(["g%d" % g for g in lab], name="grp")
    names = list(dict.fromkeys(group_by))
    G = len(names)
    if G == 1:
        return
    w = ArrayWrapper(pd.RangeIndex(3), cols, 2, group_by=group_by)
    want = [int(x) for x in rng.permutation(G)[:int(rng.integers(1, G + 1))]]
    single = rng.random() < 0.3
    if single:
        want = want[:1]
    sub, rows, groups, picked = w.indexing_func_meta(lambda x: x.iloc[want[0]] if single else x.iloc[want], column_only_select=True)
    members = [[i for i in range(m) if group_by[i] == names[g]] for g in want]
    flat = [i for c in members for i in c]
    ctx = dict(columns=list(cols), group_by=list(group_by), selected=want, one=single)
    expect(list(np.atleast_1d(groups)) == want, "groups selected", got=groups, **ctx)
    expect(list(np.atleast_1d(picked)) == flat, "columns of the selected groups", got=picked, **ctx)
    expect(list(sub.columns) == [cols[i] for i in flat], "labels of the columns of the selected groups", got=list(sub.columns), **ctx)
    expect(list(sub.grouper.get_group_lens()) == [len(c) for c in members], "sizes of the selected groups", got=sub.grouper.get_group_lens(), **ctx)
    expect([str(x) for x in sub.grouper.get_columns()] == [names[g] for g in want], "names of the selected groups", got=list(sub.grouper.get_columns()), **ctx)
    # single columns out of a grouped wrapper
    keep = sorted(int(x) for x in rng.permutation(m)[:int(rng.integers(1, m + 1))])
    sub, rows, groups, picked = w.indexing_func_meta(lambda x: x.iloc[keep], column_only_select=True, group_select=False)
    ctx["columns kept"] = keep
    expect(list(np.atleast_1d(picked)) == keep and list(sub.columns) == [cols[i] for i in keep], "columns selected", got=picked, **ctx)
    gl = [group_by[i] for i in keep]
    expect(list(sub.grouper.get_group_lens()) == [gl.count(g) for g in dict.fromkeys(gl)], "groups of the selected columns", got=sub.grouper.get_group_lens(), **ctx)

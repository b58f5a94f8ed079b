"""C17: range and drawdown records (vectorbt/generic/nb.py)."""
from .common import *
import vectorbt  # noqa: F401
from vectorbt.generic.enums import range_dt, drawdown_dt
from .records import CM, map_ok, prefix, start, g_cm, g_cols

G = "vectorbt.generic.nb:"


# --------------------------------------------------------------------------------------- runs of valid values
def valid(S, a, q, c):
    x = a.ts[q, c]
    return S.not_(S.or_(S.eq(x, a.gap_value), S.and_(S.isnan(x), S.isnan(a.gap_value))) if S.symbolic else
                  (x == a.gap_value or (math.isnan(x) and math.isnan(a.gap_value))))


def run_start(S, a, c, s):
    return S.and_(valid(S, a, s, c), S.or_(S.eq(s, 0), S.not_(valid(S, a, s - 1, c))))


def all_valid(S, a, c, lo, hi):
    return S.forall(lo, hi, lambda q: valid(S, a, q, c))


def run_rule(S, a):
    n = S.len(a.ts, 0)
    return lambda c, s, e, t: S.and_(run_start(S, a, c, s), all_valid(S, a, c, s, e), S.or_(
        S.and_(S.eq(t, 1), S.lt(s, e), S.not_(valid(S, a, e, c))), S.and_(S.eq(t, 0), S.eq(e, n - 1), valid(S, a, e, c))))


def core(S, recs, cnt, hi_col, rule, n):
    col, st, en, ids, sts = recs["col"], recs["start_idx"], recs["end_idx"], recs["id"], recs["status"]
    S.ensure("numbered from zero", S.forall(0, cnt, lambda k: S.eq(ids[k], k)), "C17")
    S.ensure("inside the shape", S.forall(0, cnt, lambda k: S.and_(S.le(0, col[k]), S.lt(col[k], hi_col), S.le(0, st[k]), S.le(st[k], en[k]), S.lt(en[k], n))), "C17")
    S.ensure("every range is a maximal run", S.forall(0, cnt, lambda k: rule(col[k], st[k], en[k], sts[k])), "C17")
    S.ensure("ordered by column, then by position", S.forall2(0, cnt, lambda k: k + 1, cnt, lambda k, j: S.or_(
        S.lt(col[k], col[j]), S.and_(S.eq(col[k], col[j]), S.lt(st[k], st[j])))), "C17")


def run_complete(S, a, recs, cnt, c, upto=None, pending=None):
    n = S.len(a.ts, 0)

    def one(s):
        cond = [run_start(S, a, c, s)]
        if upto is not None:
            cond += [S.lt(s, upto), S.not_(S.and_(pending[0], S.eq(s, pending[1])))]
        S.ensure("every run is covered", S.implies(S.and_(*cond), S.exists(0, cnt, lambda k: S.and_(
            S.eq(recs["col"][k], c), S.eq(recs["start_idx"][k], s)))), "C17")
    S.each("s", 0, n, one)


def runs_oracle(a):
    out = []
    ts, n = a.ts, a.ts.shape[0]
    ok = ~np.isnan(ts) if math.isnan(a.gap_value) else ts != a.gap_value
    for c in range(ts.shape[1]):
        i = 0
        while i < n:
            j = i
            while j < n and ok[j, c]:
                j += 1
            if j > i:
                out.append((c, i, j, 1) if j < n else (c, i, n - 1, 0))
            i = max(j, i + 1)
    return out


def fr_post(S, a, r):
    if not S.symbolic:
        S.ensure("exactly the maximal runs, in order", [(int(x["col"]), int(x["start_idx"]), int(x["end_idx"]), int(x["status"])) for x in r] ==
                 runs_oracle(a), "C17")
        S.ensure("numbered from zero", [int(x) for x in r["id"]] == list(range(len(r))), "C17")
        return
    core(S, r, r.shape[0], S.len(a.ts, 1), run_rule(S, a), S.len(a.ts, 0))
    S.each("c", 0, S.len(a.ts, 1), lambda c: run_complete(S, a, r, r.shape[0], c))


def fr_outer(S, v):
    n = S.len(v.ts, 0)
    S.ensure("room left", S.and_(S.le(0, v.ridx), S.le(v.ridx, v.it * n)))
    core(S, v.out, v.ridx, v.it, run_rule(S, v), n)
    S.each("c", 0, v.it, lambda c: run_complete(S, v, v.out, v.ridx, c))


def fr_inner(S, v):
    n, R = S.len(v.ts, 0), v.out
    S.ensure("room left", S.and_(S.le(0, v.ridx), S.le(v.ridx, v.col * n + v.it)))
    core(S, R, v.ridx, v.col + 1, run_rule(S, v), n)
    S.ensure("nothing pending", S.not_(v.store_record))
    inside = S.and_(v.range_started, S.lt(v.it, n))
    S.ensure("inside a run exactly after a valid value", S.implies(S.lt(v.it, n), S.iff(v.range_started, S.and_(
        S.gt(v.it, 0), valid(S, v, v.it - 1, v.col)))))
    S.ensure("the run under way", S.implies(inside, S.and_(
        S.le(0, v.start_idx), S.lt(v.start_idx, v.it), run_start(S, v, v.col, v.start_idx), all_valid(S, v, v.col, v.start_idx, v.it))))
    S.ensure("ranges of this column lie behind", S.forall(0, v.ridx, lambda k: S.implies(S.eq(R["col"][k], v.col), S.and_(
        S.lt(R["start_idx"][k], v.it), S.implies(inside, S.lt(R["start_idx"][k], v.start_idx))))))
    run_complete(S, v, R, v.ridx, v.col, v.it, (inside, v.start_idx))
    S.each("c", 0, v.col, lambda c: run_complete(S, v, R, v.ridx, c))


def g_fr(rng):
    n, m = int(rng.integers(0, 9)), int(rng.integers(1, 4))
    ts = rng.integers(0, 3, (n, m)).astype(float)
    ts[rng.random((n, m)) < pick(rng, 0.1, 0.4)] = np.nan
    return dict(ts=ts, gap_value=pick(rng, np.nan, np.nan, 0.0, 1.0))


Contract(G + "find_ranges_nb", dict(ts=Arr_("f", "n", "m"), gap_value=Float("fin|nan")), post=fr_post, props="C17", gen=g_fr, trials=500,
         loops={0: Inv(fr_outer, arb="c"), 1: Inv(fr_inner)})


# --------------------------------------------------------------------------------------- drawdowns
def last_valid(S, ts):
    """L(k, c): the last value before bar k that is not missing."""
    return S.foldp(S.f(S.nan), lambda s, k, c: S.ite(S.isnan(ts[k, c]), s, ts[k, c]))


def ok(S, x):
    return S.not_(S.isnan(x))


def dd_fields(recs, k):
    return {f: recs[f][k] for f in drawdown_dt.names}


def dd_ensure(S, a, recs, cnt, hi_col):
    ts, n = a.ts, S.len(a.ts, 0)
    L = last_valid(S, ts)

    def each(label, fn):
        S.ensure(label, S.forall(0, cnt, lambda k: fn(**dd_fields(recs, k))), "C17")
    S.ensure("numbered from zero", S.forall(0, cnt, lambda k: S.eq(recs["id"][k], k)), "C17")
    each("inside the shape", lambda col, peak_idx, start_idx, valley_idx, end_idx, **_: S.and_(
        S.le(0, col), S.lt(col, hi_col), S.le(0, peak_idx), S.eq(start_idx, peak_idx + 1), S.lt(peak_idx, valley_idx),
        S.le(valley_idx, end_idx), S.lt(end_idx, n)))
    each("peak and valley carry the values of their bars", lambda col, peak_idx, valley_idx, peak_val, valley_val, **_: S.and_(
        ok(S, peak_val), ok(S, valley_val), S.lt(valley_val, peak_val),
        S.eq(ts[peak_idx, col], peak_val), S.eq(ts[valley_idx, col], valley_val)))
    each("the end value is the last value up to the end", lambda col, end_idx, end_val, **_: S.and_(ok(S, end_val), S.eq(L(end_idx + 1, col), end_val)))
    each("recovered or active", lambda col, status, end_idx, end_val, peak_val, **_: S.or_(
        S.and_(S.eq(status, 1), S.ge(end_val, peak_val), S.eq(ts[end_idx, col], end_val)),
        S.and_(S.eq(status, 0), S.eq(end_idx, n - 1), S.lt(end_val, peak_val))))
    each("the peak is the highest value so far", lambda col, peak_idx, peak_val, **_: S.forall(0, peak_idx + 1, lambda q: S.implies(
        ok(S, ts[q, col]), S.le(ts[q, col], peak_val))))
    each("below the peak and not below the valley in between", lambda col, peak_idx, peak_val, valley_val, end_idx, status, **_: S.forall(
        peak_idx + 1, end_idx + 1, lambda q: S.implies(S.and_(ok(S, ts[q, col]), S.or_(S.lt(q, end_idx), S.eq(status, 0))), S.and_(
            S.lt(ts[q, col], peak_val), S.le(valley_val, ts[q, col])))))
    each("the valley is the first of the lowest values", lambda col, peak_idx, valley_idx, valley_val, **_: S.forall(
        peak_idx + 1, valley_idx, lambda q: S.implies(ok(S, ts[q, col]), S.lt(valley_val, ts[q, col]))))
    S.ensure("ordered by column, one after another", S.forall2(0, cnt, lambda k: k + 1, cnt, lambda k, j: S.or_(
        S.lt(recs["col"][k], recs["col"][j]), S.and_(S.eq(recs["col"][k], recs["col"][j]), S.le(recs["end_idx"][k], recs["peak_idx"][j])))), "C17")


def dd_complete(S, a, recs, cnt, c, upto=None, pending=None):
    ts, n = a.ts, S.len(a.ts, 0)

    def one(j, q):
        cond = [S.lt(j, q), ok(S, ts[j, c]), ok(S, ts[q, c]), S.gt(ts[j, c], ts[q, c])]
        if upto is not None:
            cond += [S.lt(q, upto), S.not_(S.and_(pending[0], S.gt(q, pending[1])))]
        S.ensure("every value below a previous one is covered", S.implies(S.and_(*cond), S.exists(0, cnt, lambda k: S.and_(
            S.eq(recs["col"][k], c), S.lt(recs["peak_idx"][k], q), S.or_(S.lt(q, recs["end_idx"][k]), S.and_(
                S.eq(recs["status"][k], 0), S.le(q, recs["end_idx"][k])))))), "C17")
    S.each("j", 0, n, lambda j: S.each("q", 0, n, lambda q: one(j, q)))


def dd_oracle(ts):
    out = []
    n = ts.shape[0]
    for c in range(ts.shape[1]):
        x = ts[:, c]
        idx = [i for i in range(n) if not math.isnan(x[i])]
        p = 0
        while p < len(idx):
            pk = x[idx[p]]
            q = p + 1
            while q < len(idx) and x[idx[q]] < pk:
                q += 1
            if q > p + 1:
                low = min(x[i] for i in idx[p + 1:q])
                v = next(i for i in idx[p + 1:q] if x[i] == low)
                e, ev, st = (idx[q], x[idx[q]], 1) if q < len(idx) else (n - 1, x[idx[-1]], 0)
                out.append((c, idx[p], idx[p] + 1, v, e, pk, low, ev, st))
            p = q
    return out


def dd_post(S, a, r):
    if not S.symbolic:
        got = [tuple(x[f] for f in drawdown_dt.names[1:]) for x in r]
        S.ensure("exactly the falls below the running peak", got == dd_oracle(a.ts), "C17")
        S.ensure("numbered from zero", [int(x) for x in r["id"]] == list(range(len(r))), "C17")
        return
    dd_ensure(S, a, r, r.shape[0], S.len(a.ts, 1))
    S.each("c", 0, S.len(a.ts, 1), lambda c: dd_complete(S, a, r, r.shape[0], c))


def dd_outer(S, v):
    n = S.len(v.ts, 0)
    S.ensure("room left", S.and_(S.le(0, v.ddidx), S.le(v.ddidx, v.it * n)))
    dd_ensure(S, v, v.out, v.ddidx, v.it)
    S.each("c", 0, v.it, lambda c: dd_complete(S, v, v.out, v.ddidx, c))


def dd_inner(S, v):
    ts, n, R, c, it = v.ts, S.len(v.ts, 0), v.out, v.col, v.it
    L = last_valid(S, ts)
    S.ensure("room left", S.and_(S.le(0, v.ddidx), S.le(v.ddidx, c * n + it)))
    dd_ensure(S, v, R, v.ddidx, c + 1)
    going = S.and_(S.gt(it, 0), S.lt(it, n))
    pk, vl = v.peak_idx, v.valley_idx
    S.ensure("nothing pending", S.not_(v.store_record))
    S.ensure("last value", S.eq(v.last_val, L(it, c)))
    S.ensure("at the start", S.implies(S.eq(it, 0), S.and_(S.eq(pk, -1), S.not_(v.drawdown_started), S.eq(v.peak_val, ts[0, c]))))
    S.ensure("no value yet", S.implies(S.and_(going, S.isnan(v.peak_val)), S.and_(S.not_(v.drawdown_started), S.eq(pk, -1),
             S.forall(0, it, lambda q: S.isnan(ts[q, c])))))
    seen = S.and_(going, ok(S, v.peak_val))
    S.ensure("some value seen", S.implies(seen, S.and_(ok(S, v.last_val), S.le(v.last_val, v.peak_val))))
    S.ensure("running peak", S.implies(seen, S.and_(S.le(0, pk), S.lt(pk, it), S.eq(ts[pk, c], v.peak_val),
             S.forall(0, it, lambda q: S.implies(ok(S, ts[q, c]), S.le(ts[q, c], v.peak_val))))))
    calm = S.and_(seen, S.not_(v.drawdown_started))
    S.ensure("at the peak", S.implies(calm, S.and_(S.eq(v.last_val, v.peak_val), S.forall(pk + 1, it, lambda q: S.isnan(ts[q, c])))))
    down = S.and_(seen, v.drawdown_started)
    S.ensure("valley", S.implies(down, S.and_(S.lt(pk, vl), S.lt(vl, it), S.eq(ts[vl, c], v.valley_val), ok(S, v.valley_val), S.lt(v.valley_val, v.peak_val),
                                              S.lt(v.last_val, v.peak_val), S.le(v.valley_val, v.last_val))))
    S.ensure("below the peak", S.implies(down, S.forall(pk + 1, it, lambda q: S.implies(ok(S, ts[q, c]), S.and_(
        S.lt(ts[q, c], v.peak_val), S.le(v.valley_val, ts[q, c]))))))
    S.ensure("first lowest", S.implies(down, S.forall(pk + 1, vl, lambda q: S.implies(ok(S, ts[q, c]), S.lt(v.valley_val, ts[q, c])))))
    S.ensure("drawdowns of this column lie behind", S.forall(0, v.ddidx, lambda k: S.implies(S.eq(R["col"][k], c), S.implies(seen, S.and_(
        S.le(R["end_idx"][k], pk), S.lt(R["end_idx"][k], it))))))
    S.ensure("no drawdown before the first value", S.implies(S.and_(S.lt(it, n), S.not_(seen)), S.forall(0, v.ddidx, lambda k: S.ne(R["col"][k], c))))
    S.ensure("finished", S.implies(S.eq(it, n), S.not_(v.drawdown_started)))
    dd_complete(S, v, R, v.ddidx, c, it, (S.and_(v.drawdown_started, S.lt(it, n)), pk))
    S.each("c", 0, c, lambda d: dd_complete(S, v, R, v.ddidx, d))


def g_dd(rng):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 4))
    ts = rng.integers(0, 6, (n, m)).astype(float)
    ts[rng.random((n, m)) < pick(rng, 0.0, 0.3)] = np.nan
    return dict(ts=ts)


Contract(G + "get_drawdowns_nb", dict(ts=Arr_("f", "n", "m")), pre=lambda S, a: S.require(S.gt(S.len(a.ts, 0), 0)), post=dd_post, props="C17", gen=g_dd, trials=800,
         loops={0: Inv(dd_outer, arb="c"), 1: Inv(dd_inner)})


# --------------------------------------------------------------------------------------- arithmetic on the records
def length_of(S, a, k):
    return a.end_idx_arr[k] - a.start_idx_arr[k] + S.i(S.eq(a.status_arr[k], 0))


def g_dur(rng):
    n = int(rng.integers(0, 6))
    s = rng.integers(0, 8, n)
    return dict(start_idx_arr=s, end_idx_arr=s + rng.integers(0, 6, n), status_arr=rng.integers(0, 2, n))


Contract(G + "range_duration_nb", dict(start_idx_arr=Arr_("i", "n"), end_idx_arr=Arr_("i", "n"), status_arr=Arr_("i", "n")), props="C17", gen=g_dur, trials=200,
         post=lambda S, a, r: (S.ensure("size", S.eq(S.len(r), S.len(a.start_idx_arr)), "C17"), S.ensure(
             "bars from start to end, the end included while open", S.forall(0, S.len(r), lambda k: S.eq(r[k], length_of(S, a, k))), "C17"))[0],
         loops={0: lambda S, v: S.ensure("so far", S.forall(0, v.it, lambda k: S.eq(v.out[k], length_of(S, v, k))))})


def elementwise(name, params, fn, gen, label):
    Contract(G + name, params, props="C17", gen=gen, returns=ret_arr("i", lambda a: (getattr(a, list(params)[0]).shape[0],)) if name.endswith("duration_nb") else None, trials=200, post=lambda S, a, r: (
        S.ensure("size", S.eq(S.len(r), S.len(list(vars(a).values())[0] if not S.symbolic else getattr(a, list(params)[0]))), "C17"),
        S.ensure(label, S.forall(0, S.len(r), lambda k: S.eq(r[k], fn(S, a, k))), "C17"))[0],
        pre=(lambda S, a: S.require(S.forall(0, S.len(getattr(a, "peak_val_arr" if "peak_val_arr" in params else "valley_val_arr")), lambda k: S.ne(
            getattr(a, "peak_val_arr" if "peak_val_arr" in params else "valley_val_arr")[k], 0.0)))) if any(x.endswith("val_arr") for x in params) else
        (lambda S, a: S.require(S.forall(0, S.len(a.start_idx_arr), lambda k: S.le(a.start_idx_arr[k], a.valley_idx_arr[k])))) if len(params) == 3 else None)


FA, IA = (lambda: Arr_("f", "n")), (lambda: Arr_("i", "n"))


def g_f(*names):
    def g(rng):
        n = int(rng.integers(0, 5))
        return {k: rng.integers(1, 9, n) / 2 for k in names}
    return g


def g_i(*names):
    def g(rng):
        n = int(rng.integers(0, 5))
        base, out = np.zeros(n, dtype=np.int64), {}
        for k in names:
            base = base + rng.integers(0, 4, n)
            out[k] = base.copy()
        return out
    return g


elementwise("dd_drawdown_nb", dict(peak_val_arr=FA(), valley_val_arr=FA()), lambda S, a, k: S.div(a.valley_val_arr[k] - a.peak_val_arr[k], a.peak_val_arr[k]),
            g_f("peak_val_arr", "valley_val_arr"), "fall relative to the peak")
elementwise("dd_recovery_return_nb", dict(valley_val_arr=FA(), end_val_arr=FA()), lambda S, a, k: S.div(a.end_val_arr[k] - a.valley_val_arr[k], a.valley_val_arr[k]),
            g_f("valley_val_arr", "end_val_arr"), "rise relative to the valley")
elementwise("dd_decline_duration_nb", dict(start_idx_arr=IA(), valley_idx_arr=IA()), lambda S, a, k: a.valley_idx_arr[k] - a.start_idx_arr[k] + 1,
            g_i("start_idx_arr", "valley_idx_arr"), "bars from start to valley")
elementwise("dd_recovery_duration_nb", dict(valley_idx_arr=IA(), end_idx_arr=IA()), lambda S, a, k: a.end_idx_arr[k] - a.valley_idx_arr[k],
            g_i("valley_idx_arr", "end_idx_arr"), "bars from valley to end")
elementwise("dd_recovery_duration_ratio_nb", dict(start_idx_arr=IA(), valley_idx_arr=IA(), end_idx_arr=IA()), lambda S, a, k: S.div(
    S.f(a.end_idx_arr[k] - a.valley_idx_arr[k]), S.f(a.valley_idx_arr[k] - a.start_idx_arr[k] + 1)),
            g_i("start_idx_arr", "valley_idx_arr", "end_idx_arr"), "ratio of the two")


# --------------------------------------------------------------------------------------- mask and coverage
def covers(S, a, k, q):
    return S.and_(S.le(a.start_idx_arr[k], q), S.lt(q, a.end_idx_arr[k] + S.i(S.eq(a.status_arr[k], 0))))


def in_col(S, a, c, upto=None):
    """mask cell (q, c): some record of column c covers bar q"""
    idxs, lens = a.col_map
    P = prefix(S, lens)
    s = start(S, P, lens, c)
    return lambda q: S.exists(0, lens[c] if upto is None else upto, lambda t: covers(S, a, idxs[s + t], q))


def rm_pre(S, a):
    map_ok(S, a, S.len(a.start_idx_arr))
    S.require(S.forall(0, S.len(a.start_idx_arr), lambda k: S.and_(S.le(0, a.start_idx_arr[k]), S.le(a.start_idx_arr[k], a.end_idx_arr[k]),
                                                                   S.lt(a.end_idx_arr[k], a.index_len))))


def g_rm(rng, full=False):
    (idxs, lens), _ = g_cm(rng)
    k, n = len(idxs), int(rng.integers(2, 9))
    s = rng.integers(0, n, k)
    e, st = np.minimum(s + rng.integers(0, 5, k), n - 1), rng.integers(0, 2, k)
    return dict(start_idx_arr=s, end_idx_arr=e, status_arr=np.where(s == e, 0, st) if full else st, col_map=(idxs, lens), index_len=n)


def rm_core(S, a, out, c, upto=None):
    cell = in_col(S, a, c, upto)
    S.each("q", 0, S.len(out, 0), lambda q: S.ensure("marked exactly where a range covers the bar", S.iff(S.eq(out[q, c], True), cell(q)), "C17"))


Contract(G + "ranges_to_mask_nb", dict(start_idx_arr=IA(), end_idx_arr=IA(), status_arr=IA(), col_map=CM, index_len=Int(1)), pre=rm_pre, props="C17",
         gen=g_rm, trials=300, post=lambda S, a, r: S.each("c", 0, S.len(a.col_map[1]), lambda c: rm_core(S, a, r, c)),
         loops={0: Inv(lambda S, v: (S.each("c", 0, v.it, lambda c: rm_core(S, v, v.out, c)),
                                     S.ensure("not reached", S.forall2(0, v.index_len, v.it, S.len(v.col_map[1]), lambda q, c: S.eq(v.out[q, c], False))))[0], arb="c"),
                1: Inv(lambda S, v: (rm_core(S, v, v.out, v.col, v.it), S.ensure("other columns untouched", S.forall2(
                    0, v.index_len, 0, S.len(v.col_map[1]), lambda q, c: S.implies(S.ne(c, v.col), S.eq(v.out[q, c], v.entry.out[q, c])))))[0])})


def cover_count(S, a):
    """cov(t, q, c): how many of the first t records of column c cover bar q."""
    idxs, lens = a.col_map
    P = prefix(S, lens)
    return S.foldp(0, lambda s, t, q, c: s + S.i(covers(S, a, idxs[start(S, P, lens, c) + t], q)), n=2)


def covered(S, a, more):
    """bars(n, t, c): how many of the first n bars are covered by more than so many of the first t records of column c."""
    cov = cover_count(S, a)
    return S.foldp(0, lambda s, q, t, c: s + S.i(S.gt(cov(t, q, c), more)), n=2)


def rc_pre(S, a):
    map_ok(S, a, S.len(a.start_idx_arr))
    m = S.len(a.col_map[1])
    S.require(S.eq(S.len(a.index_lens), m))
    S.require(S.forall(0, m, lambda c: S.gt(a.index_lens[c], 0)))
    S.require(S.forall(0, S.len(a.start_idx_arr), lambda k: S.and_(S.le(0, a.start_idx_arr[k]), covers(S, a, k, a.start_idx_arr[k]),
                                                                   S.le(a.start_idx_arr[k], a.end_idx_arr[k]))), "ranges cover a bar")
    S.require(S.forall2(0, S.len(a.start_idx_arr), 0, m, lambda k, c: S.lt(a.end_idx_arr[k], a.index_lens[c])))


def g_rc(rng):
    d = g_rm(rng, True)
    n = d.pop("index_len")
    return dict(d, index_lens=np.full(len(d["col_map"][1]), n, dtype=np.int64), overlapping=bool(rng.integers(2)), normalize=bool(rng.integers(2)))


def rc_cell(S, a, out, c):
    lens = a.col_map[1]
    n = a.index_lens[c]
    one, two = covered(S, a, 0)(n, lens[c], c), covered(S, a, 1)(n, lens[c], c)
    f = S.f
    if S.symbolic:
        val = S.ite(a.overlapping, S.ite(a.normalize, S.ieee_div(f(two), f(one)), f(two)), S.ite(a.normalize, S.ieee_div(f(one), f(n)), f(one)))
    else:
        val = ((two / one if one else math.nan) if a.normalize else two) if a.overlapping else one / n if a.normalize else one
    return S.ite(S.eq(lens[c], 0), S.isnan(out[c]), S.eq(out[c], val)) if S.symbolic else (math.isnan(out[c]) if lens[c] == 0 else same_f(out[c], val))


def same_f(x, y):
    return (math.isnan(x) and math.isnan(y)) or abs(x - y) < 1e-9


def rc_inv(S, v):
    S.each("c", 0, v.it, lambda c: S.ensure("coverage so far", rc_cell(S, v, v.out, c)))
    S.ensure("not reached", S.forall(v.it, S.len(v.col_map[1]), lambda c: S.isnan(v.out[c])))


def rc_inner(S, v):
    cov = cover_count(S, v)
    n = v.index_lens[v.col]
    S.ensure("bars counted so far", S.and_(S.eq(S.len(v.temp), n), S.forall(0, n, lambda q: S.eq(v.temp[q], cov(v.it, q, v.col)))), lemma=True)
    for more in (0, 1):
        S.induct("bars above %d" % more, 0, n, lambda Q, more=more: S.eq(S.count(lambda q: S.gt(v.temp[q], more))(Q), covered(S, v, more)(Q, v.it, v.col)))
    idxs, lens = v.col_map
    s0 = v.start_idx_arr[idxs[start(S, prefix(S, lens), lens, v.col)]]
    S.induct("the first bar of the first record is covered", 0, v.it, lambda t: S.implies(S.ge(t, 1), S.ge(cov(t, s0, v.col), 1)))
    one = covered(S, v, 0)
    S.induct("some bar is covered", 0, n, lambda Q: S.and_(S.ge(one(Q, v.it, v.col), 0), S.implies(
        S.and_(S.ge(v.it, 1), S.gt(Q, s0)), S.ge(one(Q, v.it, v.col), 1))))


Contract(G + "range_coverage_nb", dict(start_idx_arr=IA(), end_idx_arr=IA(), status_arr=IA(), col_map=CM, index_lens=Arr_("i", "m"),
                                       overlapping=Bool(split=True), normalize=Bool(split=True)), pre=rc_pre, props="C17", gen=g_rc, trials=300,
         post=lambda S, a, r: (S.ensure("size", S.eq(S.len(r), S.len(a.col_map[1])), "C17"), S.each("c", 0, S.len(a.col_map[1]), lambda c: S.ensure(
             "bars covered (or covered twice), possibly as a share", rc_cell(S, a, r, c), "C17")))[0],
         loops={0: Inv(rc_inv, arb="c"), 1: rc_inner})

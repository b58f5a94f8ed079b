"""C21: column maps, column ranges, per-column mapping and reduction of records (vectorbt/records/nb.py)."""
from .common import *
import vectorbt  # noqa: F401

RN = "vectorbt.records.nb:"


def zi_(x):
    from pyvc.values import zi
    return zi(x)


def prefix(S, lens):
    """prefix(c): number of records in the columns before c."""
    return S.fold(0, lambda s, k: s + lens[k])


def start(S, P, lens, c):
    return P(c + 1) - lens[c]


# --------------------------------------------------------------------------------------- column map
def count_of(S, col_arr):
    """count(r, c): how many of the first r records belong to column c."""
    return S.foldp(0, lambda s, r, c: s + S.i(S.eq(col_arr[r], c)))


def below(S, col_arr):
    """below(r, c): how many of the first r records belong to a column before c."""
    return S.foldp(0, lambda s, r, c: s + S.i(S.lt(col_arr[r], c)))


def g_cols(rng, sort=False):
    n, m = int(rng.integers(0, 9)), int(rng.integers(1, 5))
    c = rng.integers(0, m, n)
    if rng.random() < 0.5 and n:
        c = rng.choice(np.unique(rng.integers(0, m, 2)), n)
    return (np.sort(c) if sort else c).astype(np.int64), m


def map_pre(S, a):
    n = S.len(a.col_arr)
    S.require(S.forall(0, n, lambda k: S.and_(S.le(0, a.col_arr[k]), S.lt(a.col_arr[k], a.n_cols))))


def cm_lemmas(S, v):
    cnt, bel = count_of(S, v.col_arr), below(S, v.col_arr)
    N, m = S.len(v.col_arr), v.n_cols
    S.induct("records below the next column", 0, N, lambda r: S.forall(0, m, lambda c: S.and_(
        S.eq(bel(r, c + 1), bel(r, c) + cnt(r, c)), S.le(0, cnt(r, c)), S.le(0, bel(r, c)))))
    S.induct("no records below the first column, all below the last", 0, N, lambda r: S.and_(S.eq(bel(r, 0), 0), S.eq(bel(r, m), r)))
    S.induct("counts grow", 0, N, lambda r: S.forall2(0, r + 1, 0, m, lambda j, c: S.and_(
        S.le(0, cnt(j, c)), S.le(cnt(j, c), cnt(r, c)))))
    S.induct("columns follow each other", 0, N, lambda r: S.forall2(0, m, 0, m + 1, lambda c, d: S.implies(
        S.lt(c, d), S.le(bel(r, c) + cnt(r, c), bel(r, d)))))
    S.induct("segments end inside", 0, N, lambda r: S.forall(0, m, lambda c: S.le(bel(r, c) + cnt(r, c), r)))
    S.induct("every record is counted", 0, N, lambda r: S.and_(
        S.forall(0, r, lambda j: S.and_(S.le(0, cnt(j, v.col_arr[j])), S.lt(cnt(j, v.col_arr[j]), cnt(r, v.col_arr[j])))),
        S.forall2(0, r, 0, r, lambda j, k: S.implies(S.and_(S.lt(j, k), S.eq(v.col_arr[j], v.col_arr[k])),
                                                     S.lt(cnt(j, v.col_arr[j]), cnt(k, v.col_arr[k]))))))
    return cnt, bel


def cm_inv1(S, v):
    cnt = count_of(S, v.col_arr)
    S.ensure("lengths so far", S.forall(0, v.n_cols, lambda c: S.eq(v.col_lens_out[c], cnt(v.it, c))))


def cm_inv2(S, v):
    cnt, bel = cm_lemmas(S, v)
    n = S.len(v.col_arr)
    P = prefix(S, v.col_lens_out)
    S.ensure("lengths", S.forall(0, v.n_cols, lambda c: S.eq(v.col_lens_out[c], cnt(n, c))))
    S.induct("segment starts", 0, v.n_cols, lambda c: S.forall(0, c + 1, lambda d: S.eq(P(d), bel(n, d))))
    S.ensure("starts", S.forall(0, v.n_cols, lambda c: S.eq(v.col_start_idxs[c], bel(n, c))))
    S.ensure("segment of every record's column", S.forall(0, n, lambda r: S.and_(
        S.eq(v.col_start_idxs[v.col_arr[r]], bel(n, v.col_arr[r])), S.le(bel(n, v.col_arr[r]) + cnt(n, v.col_arr[r]), n),
        S.lt(cnt(r, v.col_arr[r]), cnt(n, v.col_arr[r])), S.le(0, bel(n, v.col_arr[r])), S.le(0, cnt(r, v.col_arr[r])))))
    S.ensure("places differ", S.forall2(0, n, 0, n, lambda j, k: S.implies(S.lt(j, k), S.ne(
        bel(n, v.col_arr[j]) + cnt(j, v.col_arr[j]), bel(n, v.col_arr[k]) + cnt(k, v.col_arr[k])))))
    S.ensure("positions so far", S.forall(0, v.n_cols, lambda c: S.eq(v.col_i[c], cnt(v.it, c))))
    S.ensure("placed", S.forall(0, v.it, lambda r: S.eq(v.col_idxs_out[bel(n, v.col_arr[r]) + cnt(r, v.col_arr[r])], r)))


def cm_post(S, a, r):
    idxs, lens = r
    n, m = S.len(a.col_arr), a.n_cols
    cnt, bel = count_of(S, a.col_arr), below(S, a.col_arr)
    S.ensure("sizes", S.and_(S.eq(S.len(idxs), n), S.eq(S.len(lens), m)), "C21")
    S.ensure("length of every column", S.forall(0, m, lambda c: S.eq(lens[c], cnt(n, c))), "C21")
    S.ensure("every record stands in the segment of its column, in order", S.forall(0, n, lambda k: S.eq(
        idxs[bel(n, a.col_arr[k]) + cnt(k, a.col_arr[k])], k)), "C21")


def g_map(rng):
    c, m = g_cols(rng)
    return dict(col_arr=c, n_cols=m)


Contract(RN + "col_map_nb", dict(col_arr=Arr_("i", "n"), n_cols=Int(1)), pre=map_pre, props="C21", gen=g_map, trials=400,
         loops={0: cm_inv1, 1: cm_inv2}, post=cm_post)


# --------------------------------------------------------------------------------------- sortedness
def sorted_post(S, a, r):
    n = S.len(a.col_arr)
    S.ensure("sorted", S.iff(r, S.forall(0, n - 1, lambda k: S.le(a.col_arr[k], a.col_arr[k + 1]))), "C21")


Contract(RN + "is_col_sorted_nb", dict(col_arr=Arr_("i", "n")), props="C21", gen=lambda rng: dict(col_arr=g_cols(rng, rng.random() < 0.6)[0]),
         trials=300, returns=Bool(False), post=sorted_post,
         loops={0: lambda S, v: S.ensure("sorted so far", S.forall(0, v.it, lambda k: S.le(v.col_arr[k], v.col_arr[k + 1])))})


def idx_le(S, a, k):
    return S.or_(S.lt(a.col_arr[k], a.col_arr[k + 1]), S.and_(S.eq(a.col_arr[k], a.col_arr[k + 1]), S.le(a.id_arr[k], a.id_arr[k + 1])))


def g_idx(rng):
    c = g_cols(rng, rng.random() < 0.8)[0]
    i = rng.integers(0, 5, len(c))
    if rng.random() < 0.6:
        i = i[np.lexsort((i, c))] if rng.random() < 0.5 else np.arange(len(c))
    return dict(col_arr=c, id_arr=i)


Contract(RN + "is_col_idx_sorted_nb", dict(col_arr=Arr_("i", "n"), id_arr=Arr_("i", "n")), props="C21", gen=g_idx, trials=300, returns=Bool(False),
         post=lambda S, a, r: S.ensure("sorted by column, then by index", S.iff(r, S.forall(0, S.len(a.col_arr) - 1, lambda k: idx_le(S, a, k))), "C21"),
         loops={0: lambda S, v: S.ensure("sorted so far", S.forall(0, v.it, lambda k: idx_le(S, v, k)))})


# --------------------------------------------------------------------------------------- column range
def cr_core(S, a, R, hi):
    """R describes the first hi records: [R[c,0], R[c,1]) holds exactly those of column c."""


def g_range(rng):
    c, m = g_cols(rng, rng.random() < 0.8)
    return dict(col_arr=c, n_cols=m)


def cr_seg(S, a, R, hi, c):
    return S.or_(S.and_(S.eq(R[c, 0], -1), S.eq(R[c, 1], -1)),
                 S.and_(S.le(0, R[c, 0]), S.lt(R[c, 0], R[c, 1]), S.le(R[c, 1], hi)))


def cr_in(S, a, R, k):
    """record k lies in the range of its column"""
    c = a.col_arr[k]
    return S.and_(S.le(0, R[c, 0]), S.le(R[c, 0], k), S.lt(k, R[c, 1]))


def cr_inv(S, v):
    R, ca, n, it = v.col_range, v.col_arr, S.len(v.col_arr), v.it
    last = v.last_col
    S.ensure("last column", S.and_(S.implies(S.eq(it, 0), S.eq(last, -1)), S.implies(S.gt(it, 0), S.eq(last, ca[S.ite(S.gt(it, 0), it - 1, 0)])),
                                   S.le(-1, last), S.lt(last, v.n_cols)))
    S.ensure("ascending so far", S.forall(0, it, lambda k: S.le(ca[k], last)))
    S.ensure("ascending pairs", S.forall2(0, it, 0, it, lambda j, k: S.implies(S.le(j, k), S.le(ca[j], ca[k]))))
    S.ensure("closed columns", S.forall(0, v.n_cols, lambda c: S.implies(S.lt(c, last), cr_seg(S, v, R, it, c))))
    S.ensure("untouched columns", S.forall(0, v.n_cols, lambda c: S.implies(S.gt(c, last), S.and_(S.eq(R[c, 0], -1), S.eq(R[c, 1], -1)))))
    S.ensure("records of closed columns", S.forall(0, it, lambda k: S.implies(S.lt(ca[k], last), cr_in(S, v, R, k))))
    S.ensure("contents of closed columns", S.forall2(0, v.n_cols, 0, it, lambda c, k: S.implies(
        S.and_(S.lt(c, last), S.le(R[c, 0], k), S.lt(k, R[c, 1])), S.eq(ca[k], c))))
    S.ensure("open column", S.implies(S.ge(last, 0), S.and_(S.le(0, R[S.max(last, 0), 0]), S.lt(R[S.max(last, 0), 0], it),
             S.eq(R[S.max(last, 0), 1], S.ite(S.and_(S.eq(it, n), S.gt(n, 0)), n, -1)))))
    S.ensure("records of the open column", S.forall(0, it, lambda k: S.iff(S.and_(S.ge(last, 0), S.ge(k, R[S.max(last, 0), 0])), S.eq(ca[k], last))))


def cr_post(S, a, R):
    n, m = S.len(a.col_arr), a.n_cols
    S.ensure("shape", S.and_(S.eq(S.len(R, 0), m), S.eq(S.len(R, 1), 2)), "C21")
    S.ensure("empty or a proper segment", S.forall(0, m, lambda c: cr_seg(S, a, R, n, c)), "C21")
    S.ensure("every record lies in the range of its column", S.forall(0, n, lambda k: cr_in(S, a, R, k)), "C21")
    S.ensure("a range holds only records of its column", S.forall2(0, m, 0, n, lambda c, k: S.implies(
        S.and_(S.le(0, R[c, 0]), S.le(R[c, 0], k), S.lt(k, R[c, 1])), S.eq(a.col_arr[k], c))), "C21")


def not_sorted(S, a):
    return S.exists(0, S.len(a.col_arr) - 1, lambda k: S.lt(a.col_arr[k + 1], a.col_arr[k]))


Contract(RN + "col_range_nb", dict(col_arr=Arr_("i", "n"), n_cols=Int(1)), pre=map_pre, props="C21", gen=g_range, trials=400,
         loops={0: Inv(cr_inv)}, post=cr_post, raises={"ValueError": not_sorted},
         returns=ret_arr("i", lambda a: (a.n_cols, 2)))


# --------------------------------------------------------------------------------------- functions over a column map
def map_ok(S, a, n=None):
    """A column map: non-negative lengths, segments one after another inside the index array, indices of existing records."""
    idxs, lens = a.col_map
    P = prefix(S, lens)
    m, K = S.len(lens), S.len(idxs)
    S.require(S.forall(0, m, lambda c: S.and_(S.le(0, lens[c]), S.le(0, start(S, P, lens, c)), S.le(P(c + 1), K))))
    if n is not None:
        S.require(S.forall(0, K, lambda k: S.and_(S.le(0, idxs[k]), S.lt(idxs[k], n))))


class Callee:
    """An arbitrary reducer: one value per column, and every call has to be made on the records of that column in order."""

    def __init__(self, name, with_idx=False):
        import z3
        self.f = z3.Function(name, z3.IntSort(), z3.RealSort())
        self.nan = z3.Function(name + ".nan", z3.IntSort(), z3.BoolSort())

    def sym(self, ex, args):
        import z3
        from pyvc.values import F, b_and, b_implies, ile, ilt, ieq, fsame
        A = ex.p.args
        col, vals = args
        P = self.P(ex)
        idxs, lens = A["col_map"]
        st = P(col + 1) - lens.at(col)
        ex.p.oblige("reducer gets every record of its column", ieq(vals.shape[0], lens.at(col)), None)
        k = z3.Int(ex.p.fresh_name("?r"))
        ex.p.oblige("reducer gets the values of its column in order", b_implies(b_and(ile(0, k), ilt(k, lens.at(col))), fsame(
            tof(vals.at(k)), tof(A["mapped_arr"].at(idxs.at(st + k))))), None)
        return F(self.f(zi_(col)), self.nan(zi_(col)))

    def P(self, ex):
        return prefix(ex.eng.spec("prove", ex.p), _Get(ex.p.args["col_map"][1]))

    def at(self, S, fn, a, c):
        from pyvc.values import F
        if S.symbolic:
            return F(self.f(zi_(c)), self.nan(zi_(c)))
        idxs, lens = a.col_map
        s = int(np.sum(lens[:c]))
        return fn(c, a.mapped_arr[idxs[s:s + lens[c]]])


class _Get:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return self.a.at(k)


RED = Callee("reducer")


def red_core(S, v, out, c):
    return S.eq(out[c], S.ite(S.eq(v.col_map[1][c], 0), v.fill_value, RED.at(S, v.reduce_func_nb, v, c)) if S.symbolic else
                (v.fill_value if v.col_map[1][c] == 0 else RED.at(S, v.reduce_func_nb, v, c)))


def g_cm(rng, empty_ok=True):
    c, m = g_cols(rng)
    if not empty_ok and not len(c):
        c = np.array([int(rng.integers(m))])
    pos = [np.flatnonzero(c == k) for k in range(m)]
    v = np.round(rng.normal(size=len(c)), 2)
    v[rng.random(len(c)) < 0.2] = np.nan
    return (np.concatenate(pos).astype(np.int64), np.array([len(p) for p in pos], dtype=np.int64)), v


def g_red(rng):
    cm, v = g_cm(rng)
    w = rng.normal(size=12)
    return dict(mapped_arr=v, col_map=cm, fill_value=pick(rng, np.nan, 0.0, -1.5),
                reduce_func_nb=lambda c, x: c + float(np.sum(w[:len(x)] * np.nan_to_num(x, nan=7.0))))


CM = Tup(Arr_("i", "k"), Arr_("i", "m"))
Contract(RN + "reduce_mapped_nb", dict(mapped_arr=Arr_("f", "n"), col_map=CM, fill_value=Float("fin|nan"), reduce_func_nb=Func(RED.sym, None)),
         props="C21", gen=g_red, trials=300, pre=lambda S, a: map_ok(S, a, S.len(a.mapped_arr)),
         loops={0: lambda S, v: S.ensure("columns so far", S.and_(
             S.forall(0, v.it, lambda c: red_core(S, v, v.out, c)),
             S.forall(v.it, S.len(v.out), lambda c: S.eq(v.out[c], v.fill_value))))},
         post=lambda S, a, r: (S.ensure("size", S.eq(S.len(r), S.len(a.col_map[1])), "C21"),
                               S.ensure("one value per column, fill value for columns without records", S.forall(
                                   0, S.len(r), lambda c: red_core(S, a, r, c)), "C21"))[0])


# --------------------------------------------------------------------------------------- selection
def new_cols_ok(S, a, m):
    S.require(S.forall(0, S.len(a.new_cols), lambda k: S.and_(S.le(0, a.new_cols[k]), S.lt(a.new_cols[k], m))))


def sel_pre(n):
    def pre(S, a):
        map_ok(S, a, n(S, a) if n else None)
        new_cols_ok(S, a, S.len(a.col_map[1]))
    return pre


def sel_total(S, a):
    """sel(i): number of records selected by the first i of the new columns."""
    return S.fold(0, lambda s, k: s + a.col_map[1][a.new_cols[k]])


def sel_grow(S, a, hi):
    Q, lens = sel_total(S, a), a.col_map[1]
    S.induct("selected so far", 0, hi, lambda r: S.and_(S.le(0, Q(r)), S.forall(0, r, lambda k: S.and_(
        S.le(0, Q(k)), S.le(Q(k) + lens[a.new_cols[k]], Q(r))))))
    return Q


def sel_core(S, a, out, i, val):
    """The segment of the i-th new column is the segment of the column it names, in order."""
    Q, (idxs, lens) = sel_total(S, a), a.col_map
    P = prefix(S, lens)
    c = a.new_cols[i]
    s = start(S, P, lens, c)
    S.ensure("selected records", S.forall(Q(i), Q(i) + lens[c], lambda p: val(out, p, idxs[s + p - Q(i)], i)), "C21")


def cms_val(S):
    return lambda out, p, src, i: S.and_(S.eq(out[0][p], src), S.eq(out[1][p], i))


def cms_inv(S, v):
    n = S.len(v.new_cols)
    Q = sel_grow(S, v, n)
    sel_grow(S, v, v.it)
    S.ensure("filled so far", S.eq(v.j, Q(v.it)))
    S.ensure("fits", S.and_(S.implies(S.lt(v.it, n), S.le(Q(v.it) + v.col_map[1][v.new_cols[S.ite(S.lt(v.it, n), v.it, 0)]], Q(n))),
                            S.le(0, Q(v.it)), S.le(Q(v.it), Q(n))) if S.symbolic else True)
    S.each("i", 0, v.it, lambda i: sel_core(S, v, (v.idxs_out, v.col_arr_out), i, cms_val(S)))


def cms_post(S, a, r):
    n = S.len(a.new_cols)
    Q = sel_grow(S, a, n)
    S.ensure("sizes", S.and_(S.eq(S.len(r[0]), Q(n)), S.eq(S.len(r[1]), Q(n))), "C21")
    S.each("i", 0, n, lambda i: sel_core(S, a, r, i, cms_val(S)))


def g_sel(rng):
    cm, v = g_cm(rng)
    return dict(col_map=cm, new_cols=rng.integers(0, len(cm[1]), int(rng.integers(0, 5))))


Contract(RN + "col_map_select_nb", dict(col_map=CM, new_cols=Arr_("i", "q")), props="C21", gen=g_sel, trials=400, pre=sel_pre(None),
         loops={0: Inv(cms_inv, arb="i")}, post=cms_post)

REC_DT = np.dtype([("id", np.int64), ("col", np.int64), ("idx", np.int64), ("val", np.float64)])


def rms_val(S, recs):
    return lambda out, p, src, i: S.and_(*[S.eq(out[f][p], i if f == "col" else recs[f][src]) for f in REC_DT.names])


def rms_inv(S, v):
    n = S.len(v.new_cols)
    Q = sel_grow(S, v, n)
    sel_grow(S, v, v.it)
    S.ensure("filled so far", S.eq(v.j, Q(v.it)))
    S.ensure("fits", S.and_(S.implies(S.lt(v.it, n), S.le(Q(v.it) + v.col_map[1][v.new_cols[S.ite(S.lt(v.it, n), v.it, 0)]], Q(n))),
                            S.le(0, Q(v.it)), S.le(Q(v.it), Q(n))) if S.symbolic else True)
    S.each("i", 0, v.it, lambda i: sel_core(S, v, v.out, i, rms_val(S, v.records)))


def rms_post(S, a, r):
    n = S.len(a.new_cols)
    Q = sel_grow(S, a, n)
    S.ensure("size", S.eq(r.shape[0], Q(n)), "C21")
    S.each("i", 0, n, lambda i: sel_core(S, a, r, i, rms_val(S, a.records)))


def g_recs(rng, n):
    r = np.zeros(n, REC_DT)
    r["id"], r["idx"], r["val"], r["col"] = np.arange(n), rng.integers(0, 9, n), np.round(rng.normal(size=n), 2), rng.integers(0, 9, n)
    return r


def g_rsel(rng):
    d = g_sel(rng)
    return dict(d, records=g_recs(rng, len(d["col_map"][0])))


Contract(RN + "record_col_map_select_nb", dict(records=RecArr_(REC_DT, "n"), col_map=CM, new_cols=Arr_("i", "q")), props="C21", gen=g_rsel,
         trials=400, pre=sel_pre(lambda S, a: a.records.shape[0]), loops={0: Inv(rms_inv, arb="i")}, post=rms_post)


# --------------------------------------------------------------------------------------- selection through ranges
def rng_pre(S, a):
    m, R = S.len(a.col_range, 0), a.col_range
    new_cols_ok(S, a, m)
    S.require(S.eq(S.len(R, 1), 2))
    S.require(S.forall(0, m, lambda c: S.or_(S.and_(S.eq(R[c, 0], -1), S.eq(R[c, 1], -1)), S.and_(
        S.le(0, R[c, 0]), S.lt(R[c, 0], R[c, 1])))))


def rng_total(S, a, R=None):
    R = a.col_range if R is None else R
    return S.fold(0, lambda s, k: s + (R[a.new_cols[k], 1] - R[a.new_cols[k], 0]))


def rng_grow(S, a, R, hi):
    Q = rng_total(S, a, R)
    S.induct("selected so far", 0, hi, lambda r: S.and_(S.le(0, Q(r)), S.forall(0, r, lambda k: S.and_(
        S.le(0, Q(k)), S.le(Q(k) + (R[a.new_cols[k], 1] - R[a.new_cols[k], 0]), Q(r))))))
    return Q


def rng_core(S, a, R, out, i, val):
    Q = rng_total(S, a, R)
    c = a.new_cols[i]
    S.ensure("selected records", S.forall(Q(i), Q(i) + (R[c, 1] - R[c, 0]), lambda p: val(out, p, R[c, 0] + p - Q(i), i)), "C21")


def rs_inv(outs, val):
    def inv(S, v):
        n, R = S.len(v.new_cols), v.old.col_range
        Q = rng_grow(S, v, R, n)
        rng_grow(S, v, R, v.it)
        c = v.new_cols[S.ite(S.lt(v.it, n), v.it, 0)] if S.symbolic else 0
        S.ensure("filled so far", S.eq(v.j, Q(v.it)))
        S.ensure("fits", S.and_(S.implies(S.lt(v.it, n), S.le(Q(v.it) + (R[c, 1] - R[c, 0]), Q(n))),
                                S.le(0, Q(v.it)), S.le(Q(v.it), Q(n))) if S.symbolic else True)
        S.each("i", 0, v.it, lambda i: rng_core(S, v, R, outs(v), i, val(S, v)))
    return inv


def rs_post(size, val):
    def post(S, a, r):
        n = S.len(a.new_cols)
        Q = rng_grow(S, a, a.col_range, n)
        S.ensure("size", S.and_(*[S.eq(k, Q(n)) for k in size(S, r)]), "C21")
        S.each("i", 0, n, lambda i: rng_core(S, a, a.col_range, r, i, val(S, a)))
    return post


def g_ranges(rng):
    c, m = g_cols(rng, True)
    R = np.full((m, 2), -1)
    for k in range(m):
        p = np.flatnonzero(c == k)
        if len(p):
            R[k] = p[0], p[-1] + 1
    return dict(col_range=R, new_cols=rng.integers(0, m, int(rng.integers(0, 5)))), c


Contract(RN + "col_range_select_nb", dict(col_range=Arr_("i", "m", 2), new_cols=Arr_("i", "q")), props="C21", gen=lambda rng: g_ranges(rng)[0],
         trials=400, pre=rng_pre, loops={0: Inv(rs_inv(lambda v: (v.indices_out, v.col_arr_out), lambda S, v: cms_val(S)), arb="i")},
         post=rs_post(lambda S, r: (S.len(r[0]), S.len(r[1])), lambda S, a: cms_val(S)))


def g_rrsel(rng):
    d, c = g_ranges(rng)
    return dict(d, records=g_recs(rng, len(c)))


def rr_pre(S, a):
    rng_pre(S, a)
    S.require(S.forall(0, S.len(a.col_range, 0), lambda c: S.le(a.col_range[c, 1], a.records.shape[0])))


Contract(RN + "record_col_range_select_nb", dict(records=RecArr_(REC_DT, "n"), col_range=Arr_("i", "m", 2), new_cols=Arr_("i", "q")), props="C21",
         gen=g_rrsel, trials=400, pre=rr_pre, loops={0: Inv(rs_inv(lambda v: v.out, lambda S, v: rms_val(S, v.records)), arb="i")},
         post=rs_post(lambda S, r: (r.shape[0],), lambda S, a: rms_val(S, a.records)))


# --------------------------------------------------------------------------------------- counts
def seg_count(S, a, c):
    """count(k, u): how many of the first k records of column c carry code u."""
    idxs, lens = a.col_map
    P = prefix(S, lens)
    s = start(S, P, lens, c)
    return S.foldp(0, lambda t, k, u: t + S.i(S.eq(a.codes[idxs[s + k]], u)))


def vc_outer(S, v):
    S.each("c", 0, v.it, lambda c: vc_core(S, v, v.out, c, v.col_map[1][c]))
    S.ensure("columns not reached", S.forall2(0, v.n_uniques, v.it, S.len(v.col_map[1]), lambda u, c: S.eq(v.out[u, c], 0)))


def vc_core(S, v, out, c, k):
    C = seg_count(S, v, c)
    S.ensure("counts of the column", S.forall(0, v.n_uniques, lambda u: S.eq(out[u, c], C(k, u))), "C21")


def vc_inner(S, v):
    S.each("c", 0, v.col, lambda c: S.ensure("earlier columns untouched", S.forall(0, v.n_uniques, lambda u: S.eq(v.out[u, c], v.entry.out[u, c]))))
    S.ensure("later columns untouched", S.forall2(0, v.n_uniques, v.col + 1, S.len(v.col_map[1]), lambda u, c: S.eq(v.out[u, c], 0)))
    vc_core(S, v, v.out, v.col, v.it)


def g_vc(rng):
    cm, v = g_cm(rng)
    u = int(rng.integers(1, 4))
    return dict(codes=rng.integers(0, u, len(v)), n_uniques=u, col_map=cm)


def vc_pre(S, a):
    map_ok(S, a, S.len(a.codes))
    S.require(S.forall(0, S.len(a.codes), lambda k: S.and_(S.le(0, a.codes[k]), S.lt(a.codes[k], a.n_uniques))))


Contract(RN + "mapped_value_counts_nb", dict(codes=Arr_("i", "n"), n_uniques=Int(1), col_map=CM), props="C21", gen=g_vc, trials=300, pre=vc_pre,
         loops={0: Inv(vc_outer, arb="c"), 1: vc_inner},
         post=lambda S, a, r: S.each("c", 0, S.len(a.col_map[1]), lambda c: vc_core(S, a, r, c, a.col_map[1][c])))


# --------------------------------------------------------------------------------------- expansion
def g_exp(rng):
    n, r, c = int(rng.integers(0, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    if rng.random() < 0.5:
        n = min(n, r * c)
        p = rng.permutation(r * c)[:n]
        return dict(col_arr=p % c, idx_arr=p // c, target_shape=(r, c))
    return dict(col_arr=rng.integers(0, c, n), idx_arr=rng.integers(0, r, n), target_shape=(r, c))


def exp_pre(S, a):
    n = S.len(a.col_arr)
    S.require(S.forall(0, n, lambda k: S.and_(S.le(0, a.col_arr[k]), S.lt(a.col_arr[k], a.target_shape[1]))))
    S.require(S.forall(0, n, lambda k: S.and_(S.le(0, a.idx_arr[k]), S.lt(a.idx_arr[k], a.target_shape[0]))))


def clash(S, a, j, k):
    return S.and_(S.ne(j, k), S.eq(a.col_arr[j], a.col_arr[k]), S.eq(a.idx_arr[j], a.idx_arr[k]))


def exp_inv(S, v):
    S.ensure("occupied cells", S.forall(0, v.it, lambda k: S.eq(v.temp[v.idx_arr[k], v.col_arr[k]], 1.0)))
    S.ensure("free cells", S.forall2(0, v.target_shape[0], 0, v.target_shape[1], lambda r, c: S.or_(
        S.eq(v.temp[r, c], 0.0), S.exists(0, v.it, lambda k: S.and_(S.eq(v.idx_arr[k], r), S.eq(v.col_arr[k], c))))))
    S.ensure("no clash so far", S.forall2(0, v.it, 0, v.it, lambda j, k: S.not_(clash(S, v, j, k))))


Contract(RN + "is_mapped_expandable_nb", dict(col_arr=Arr_("i", "n"), idx_arr=Arr_("i", "n"), target_shape=Tup(Dim("r"), Dim("c"))), pre=exp_pre,
         props="C21", gen=g_exp, trials=400, loops={0: exp_inv}, returns=Bool(False),
         post=lambda S, a, r: S.ensure("expandable exactly when no two records share a cell", S.iff(r, S.forall2(
             0, S.len(a.col_arr), 0, S.len(a.col_arr), lambda j, k: S.not_(clash(S, a, j, k)))), "C21"))

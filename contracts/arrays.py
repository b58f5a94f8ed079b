"""C08, C22, C23: sorting, flexible indexing, group lengths."""
from .common import *

AR = "vectorbt.utils.array_:"
RF = "vectorbt.base.reshape_fns:"
CG = "vectorbt.base.column_grouper:"


# --------------------------------------------------------------------------------------- insertion argsort
def not_after(S, x, y):
    """x may stand before y: ascending, NaN last."""
    return S.or_(S.isnan(y), S.and_(S.not_(S.isnan(x)), S.le(x, y)))


def paired(S, A, I, A0, lo, hi, but=None):
    return S.forall(lo, hi, lambda k: S.implies(True if but is None else S.not_(S.eq(k, but)), S.and_(
        S.le(0, I[k]), S.lt(I[k], hi), S.eq(A[k], A0[I[k]]))))


def prefix_sorted(S, A, I, n):
    return [S.forall2(0, n, lambda k: k + 1, n, lambda k, l: not_after(S, A[k], A[l])),
            S.forall2(0, n, lambda k: k + 1, n, lambda k, l: S.not_(S.eq(I[k], I[l]))),
            S.forall2(0, n, lambda k: k + 1, n, lambda k, l: S.implies(
                S.and_(S.not_(S.isnan(A[k])), S.eq(A[k], A[l])), S.lt(I[k], I[l])))]


def argsort_outer(S, v):
    n = S.len(v.A)
    J = v.it
    S.ensure("values stay with their index", paired(S, v.A, v.I, v.old.A, 0, n))
    S.ensure("the sorted part holds the first indices", S.forall(0, J, lambda k: S.implies(S.lt(k, n), S.lt(v.I[k], J))))
    S.ensure("the rest is untouched", S.forall(J, n, lambda k: S.and_(S.eq(v.I[k], k), S.eq(v.A[k], v.old.A[k]))))
    for k, c in enumerate(prefix_sorted_upto(S, v.A, v.I, J, n)):
        S.ensure(("ascending", "each index once", "stable")[k], c)


def prefix_sorted_upto(S, A, I, J, n):
    g = lambda l: S.lt(l, n)
    return [S.forall2(0, J, lambda k: k + 1, J, lambda k, l: S.implies(g(l), not_after(S, A[k], A[l]))),
            S.forall2(0, J, lambda k: k + 1, J, lambda k, l: S.implies(g(l), S.not_(S.eq(I[k], I[l])))),
            S.forall2(0, J, lambda k: k + 1, J, lambda k, l: S.implies(S.and_(
                g(l), S.not_(S.isnan(A[k])), S.eq(A[k], A[l])), S.lt(I[k], I[l])))]


def argsort_inner(S, v):
    n = S.len(v.A)
    i, j = v.i, v.j
    Ae, Ie = v.entry.A, v.entry.I
    S.ensure("hole position", S.and_(S.le(-1, i), S.lt(i, j), S.lt(j, n)))
    S.ensure("before the hole nothing moved", S.forall(0, i + 1, lambda k: S.and_(S.eq(v.A[k], Ae[k]), S.eq(v.I[k], Ie[k]))))
    S.ensure("after the hole moved by one", S.forall(i + 2, j + 1, lambda k: S.and_(
        S.eq(v.A[k], Ae[k - 1]), S.eq(v.I[k], Ie[k - 1]), S.or_(S.isnan(v.A[k]), S.gt(v.A[k], v.A_j)))))
    S.ensure("not reached", S.forall(j + 1, n, lambda k: S.and_(S.eq(v.A[k], Ae[k]), S.eq(v.I[k], Ie[k]))))


def argsort_post(S, a, r):
    n = S.len(a.A)
    S.ensure("values stay with their index", paired(S, a.A, a.I, a.old.A, 0, n), "C08")
    for k, c in enumerate(prefix_sorted(S, a.A, a.I, n)):
        S.ensure(("ascending, NaN last", "each index once", "equal values keep their order")[k], c, "C08")


def g_argsort(rng):
    n = int(rng.integers(0, 9))
    A = np.array([pick(rng, 0.0, 1.0, -1.0, 2.0, 2.0, -5.5, math.nan, float(rng.integers(-9, 9))) for _ in range(n)], dtype=float)
    return dict(A=A, I=np.arange(n))


Contract(AR + "insert_argsort_nb", dict(A=Arr_("f", "n"), I=Arr_("i", "n")),
         pre=lambda S, a: S.require(S.forall(0, S.len(a.A), lambda k: S.eq(a.I[k], k)), "indices in order"),
         post=argsort_post, loops={0: argsort_outer, 1: argsort_inner}, modifies=("A", "I"), props="C08", gen=g_argsort, trials=1500)


def is_sorted_post(S, a, r):
    w = S.forall(0, S.len(a.a) - 1, lambda k: S.le(a.a[k], a.a[k + 1]))
    S.ensure("sorted means every step ascends", S.iff(r, w) if S.symbolic else bool(r) == w, "C23 C21")


def is_sorted_inv(S, v):
    S.ensure("ascending so far", S.forall(0, v.it, lambda k: S.le(v.a[k], v.a[k + 1])))


Contract(AR + "is_sorted_nb", dict(a=Arr_("i", "n")), post=is_sorted_post, loops={0: is_sorted_inv}, props="C23 C21", trials=400,
         gen=lambda rng: dict(a=np.sort(rng.integers(0, 5, int(rng.integers(0, 7)))) if rng.random() < 0.5 else
                              rng.integers(0, 4, int(rng.integers(0, 5)))))


# --------------------------------------------------------------------------------------- flexible indexing
def flex_elem(S, a):
    """The element that broadcasting would put at (i, col)."""
    x = a.a
    nd = len(x.shape)
    if nd == 0:
        return x[()] if not S.symbolic else x.at()
    if nd == 1:
        k = a.col if a.flex_2d else a.i
        return x[S.ite(S.eq(S.len(x), 1), 0, k)]
    r, c = S.ite(S.eq(S.len(x, 0), 1), 0, a.i), S.ite(S.eq(S.len(x, 1), 1), 0, a.col)
    return x[r, c]


def flex_pre(S, a):
    S.require(S.le(0, a.i), "row")
    S.require(S.le(0, a.col), "column")
    nd = len(a.a.shape)
    if nd == 1:
        n = S.len(a.a)
        S.require(S.ge(n, 1), "not empty")
        S.require(S.or_(S.eq(n, 1), S.lt(a.col if a.flex_2d else a.i, n)), "broadcasts")
    elif nd == 2:
        S.require(S.and_(S.ge(S.len(a.a, 0), 1), S.ge(S.len(a.a, 1), 1)), "not empty")
        S.require(S.or_(S.eq(S.len(a.a, 0), 1), S.lt(a.i, S.len(a.a, 0))), "rows broadcast")
        S.require(S.or_(S.eq(S.len(a.a, 1), 1), S.lt(a.col, S.len(a.a, 1))), "columns broadcast")


def flex_post(S, a, r):
    S.ensure("element of the broadcast array", S.eq(r, flex_elem(S, a)), "C22 C07")


def g_flex(rng):
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    flex_2d = bool(rng.integers(2))
    nd = int(rng.integers(0, 3))
    if nd == 0:
        x = np.array(float(rng.integers(9)))
    elif nd == 1:
        x = np.arange(pick(rng, 1, m if flex_2d else n), dtype=float) + 10
    else:
        x = np.arange(pick(rng, 1, n) * 20, dtype=float).reshape(-1, 20)[:, :pick(rng, 1, m)]
    return dict(a=x, i=int(rng.integers(n)), col=int(rng.integers(m)), flex_2d=flex_2d)


FLEX_CASES = [("scalar", dict(a=Arr_("f"))), ("1d", dict(a=Arr_("f", "n"))), ("2d", dict(a=Arr_("f", "n", "m")))]
Contract(RF + "flex_select_auto_nb", dict(a=Arr_("f", "n", "m"), i=Int(0), col=Int(0), flex_2d=Bool(split=True)),
         pre=flex_pre, post=flex_post, inline=True, props="C22 C07", gen=g_flex, trials=800, cases=FLEX_CASES)


def choose_post(S, a, r):
    x, nd = a.a, len(a.a.shape)
    one = lambda k: S.eq(S.len(x, k), 1)
    if nd == 0:
        w = (0, 0)
    elif nd == 1:
        w = (0, S.ite(one(0), 0, -1)) if a.flex_2d else (S.ite(one(0), 0, -1), 0)
    else:
        w = (S.ite(one(0), 0, -1), S.ite(one(1), 0, -1))
    S.ensure("row choice", S.eq(r[0], w[0]), "C22")
    S.ensure("column choice", S.eq(r[1], w[1]), "C22")


Contract(RF + "flex_choose_i_and_col_nb", dict(a=Arr_("f", "n", "m"), flex_2d=Bool(split=True)), post=choose_post, inline=True,
         props="C22", gen=lambda rng: {k: v for k, v in g_flex(rng).items() if k in ("a", "flex_2d")}, trials=300, cases=FLEX_CASES)


def g_sel(rng):
    d = g_flex(rng)
    nd = d["a"].ndim
    s = d["a"].shape
    if nd == 0:
        f = (0, 0)
    elif nd == 1:
        one = 0 if s[0] == 1 else -1
        f = (0, one) if d["flex_2d"] else (one, 0)
    else:
        f = (0 if s[0] == 1 else -1, 0 if s[1] == 1 else -1)
    return dict(d, flex_i=f[0], flex_col=f[1])


def sel_pre(S, a):
    flex_pre(S, a)
    nd = len(a.a.shape)
    one = lambda k: S.eq(S.len(a.a, k), 1)
    fi = 0 if nd == 0 or nd == 1 and a.flex_2d else S.ite(one(0), 0, -1)
    fc = 0 if nd == 0 or nd == 1 and not a.flex_2d else S.ite(one(nd - 1), 0, -1)
    S.require(S.and_(S.eq(a.flex_i, fi), S.eq(a.flex_col, fc)), "chosen for this array")


Contract(RF + "flex_select_nb", dict(a=Arr_("f", "n", "m"), i=Int(0), col=Int(0), flex_i=Int(-1), flex_col=Int(-1),
                                     flex_2d=Bool(split=True)),
         pre=sel_pre, post=flex_post, inline=True, props="C22", gen=g_sel, trials=500, cases=FLEX_CASES)


# --------------------------------------------------------------------------------------- group lengths
def new_groups(S, g):
    """Number of groups begun among the first k columns."""
    return S.fold(0, lambda s, k: s + S.ite(S.or_(S.eq(k, 0), S.ne(g[k], g[k - 1])), 1, 0))


def group_start(S, g, n):
    """fold: index of the first column of the group of column k-1."""
    return S.fold(0, lambda s, k: S.ite(S.or_(S.eq(k, 0), S.ne(g[k], g[k - 1])), k, s))


def lens_inv(S, v):
    n = S.len(v.groups)
    c = new_groups(S, v.groups)
    st = group_start(S, v.groups, n)
    it = v.it
    g = v.groups
    S.ensure("ascending so far", S.forall(1, it, lambda k: S.le(g[k - 1], g[k])))
    S.ensure("last group", S.eq(v.last_group, S.ite(S.eq(it, 0), -1, g[it - 1])) if S.symbolic else
             (v.last_group == (-1 if it == 0 else g[it - 1])))
    S.ensure("groups closed", S.eq(v.j, S.ite(S.or_(S.eq(it, 0), S.eq(it, n)), c(it), c(it) - 1)))
    S.ensure("open group", S.eq(v.group_len, S.ite(S.eq(it, n), 0, it - st(it))))
    S.ensure("count bound", S.and_(S.le(0, c(it)), S.le(c(it), it), S.implies(S.gt(it, 0), S.ge(c(it), 1)),
                                   S.le(0, st(it)), S.implies(S.gt(it, 0), S.lt(st(it), it))))
    # every group that ended before `it`: its length is the number of its columns
    S.ensure("lengths of closed groups", S.forall(1, it + 1, lambda k: S.implies(
        S.or_(S.and_(S.lt(k, it), S.ne(g[k], g[k - 1])), S.and_(S.eq(k, it), S.eq(k, n))),
        S.eq(v.result[c(k) - 1], k - st(k)))))
    S.ensure("counts", S.forall(0, it + 1, lambda k: S.and_(S.le(c(k), c(it)), S.implies(S.lt(k, it), S.le(c(k) , c(it))),
                                                         S.implies(S.and_(S.lt(k, it), S.ne(g[k], g[k - 1]), S.lt(0, k)), S.lt(c(k), c(it))))))


def lens_post(S, a, r):
    g = a.groups
    n = S.len(g)
    c, st = new_groups(S, g), group_start(S, g, n)
    S.ensure("one length per group", S.eq(S.len(r), c(n)), "C23")
    S.ensure("sorted groups only", S.forall(1, n, lambda k: S.le(g[k - 1], g[k])), "C23")
    S.ensure("length of each group", S.forall(1, n + 1, lambda k: S.implies(
        S.or_(S.eq(k, n), S.ne(g[k], g[k - 1])) if S.symbolic else (k == n or g[k] != g[k - 1]),
        S.eq(r[c(k) - 1], k - st(k)))), "C23")
    if not S.symbolic:
        S.ensure("lengths add up", int(np.sum(r)) == n, "C23")


Contract(CG + "get_group_lens_nb", dict(groups=Arr_("i", "n")),
         pre=lambda S, a: S.require(S.forall(0, S.len(a.groups), lambda k: S.ge(a.groups[k], 0)), "codes"),
         post=lens_post, loops={0: lens_inv}, props="C23",
         raises={"ValueError": lambda S, a: S.exists(1, S.len(a.groups), lambda k: S.lt(a.groups[k], a.groups[k - 1]))},
         gen=lambda rng: dict(groups=np.sort(rng.integers(0, 5, int(rng.integers(0, 8)))) if rng.random() < 0.7 else
                              rng.integers(0, 4, int(rng.integers(1, 6)))), trials=800)

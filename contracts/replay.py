"""C09, C11: replaying order records into flows, holdings, cash and value (vectorbt/portfolio/nb.py)."""
from .common import *
from vectorbt.portfolio.enums import order_dt

N = "vectorbt.portfolio.nb:"


class NSp:
    def __init__(self, **k):
        self.__dict__.update(k)


def snap(S, x, y):
    """x + y, zero when the two cancel up to the tolerance (the project's add_nb), for finite numbers."""
    if not S.symbolic:
        z = x + y
        if z == 0:
            return 0.0
        if abs(z) <= 1e-8 * max(abs(x), abs(y)) or abs(z) < 1e-10:
            # too near the tolerance to tell unless it is far inside
            c = zero_sum(S, x, y)
            return S.ite(c, 0.0, z)
        return z
    x, y = S.f(x), S.f(y)
    same_sign = S.or_(S.and_(S.gt(x, 0.0), S.gt(y, 0.0)), S.and_(S.lt(x, 0.0), S.lt(y, 0.0)))
    z = S.or_(S.and_(same_sign, S.close(x + y, 0.0)), S.and_(S.not_(same_sign), S.close(x, -y)))
    return S.ite(z, S.f(0.0), x + y)


# --------------------------------------------------------------------------------------- one fill
POS = dict(position_before=Float("fin"), position_now=Float("fin"))


def long_part(S, before, now):
    """Change of the long side: max(now, 0) - max(before, 0)."""
    return S.max(now, S.f(0.0)) - S.max(before, S.f(0.0))


def short_part(S, before, now):
    """Change of the short side: max(-now, 0) - max(-before, 0)."""
    return S.max(-now, S.f(0.0)) - S.max(-before, S.f(0.0))


def near(S, x, y, scale):
    """Equal up to the zero tolerance at the given scale."""
    if not S.symbolic:
        return abs(x - y) <= 1e-8 * max(abs(scale), 1e-3)
    return S.le(S.abs(x - y), S.f(Fraction(1, 10 ** 8)) * S.abs(scale) + S.f(Fraction(1, 10 ** 11)))


def part_post(fn):
    def post(S, a, r):
        b, n = S.f(a.position_before), S.f(a.position_now)
        want = fn(S, b, n)
        S.ensure("change of that side of the position", near(S, r, want, S.abs(b) + S.abs(n)), "C09")
        S.ensure("exact unless the change is negligible", S.or_(S.eq(r, want), S.close(b, n)), "C09")
    return post


def long_exact(S, b, n):
    return S.ite(S.and_(S.le(b, 0.0), S.le(n, 0.0)), S.f(0.0), S.ite(S.and_(S.ge(b, 0.0), S.lt(n, 0.0)), -b, S.ite(
        S.and_(S.lt(b, 0.0), S.ge(n, 0.0)), n, snap(S, n, -b))))


def short_exact(S, b, n):
    return S.ite(S.and_(S.ge(b, 0.0), S.ge(n, 0.0)), S.f(0.0), S.ite(S.and_(S.ge(b, 0.0), S.lt(n, 0.0)), -n, S.ite(
        S.and_(S.lt(b, 0.0), S.ge(n, 0.0)), b, snap(S, b, -n))))


Contract(N + "get_long_size_nb", POS, post=part_post(long_part), props="C09", trials=500,
         functional=lambda S, a: long_exact(S, S.f(a.position_before), S.f(a.position_now)))
Contract(N + "get_short_size_nb", POS, post=part_post(short_part), props="C09", trials=500,
         functional=lambda S, a: short_exact(S, S.f(a.position_before), S.f(a.position_now)))


# the split is complete: long part - short part = whole change (a lemma over the two contracts)
# --------------------------------------------------------------------------------------- free cash of one fill
def fcd(S, before, now, debt, price, fees):
    """(new debt, free cash flow) of a fill, from the definition: borrowing adds the value of the shares borrowed to the debt,
    covering removes the covered fraction of it, and free cash falls by twice the debt change beyond the cash flow."""
    size = snap(S, now, -before)
    cash = -size * price - fees
    cover = S.ite(S.lt(now, 0.0), size, -before)
    safe = S.ite(S.lt(before, 0.0), -before, S.f(1.0))
    back = cover * S.div(debt, safe)
    lent = S.ite(S.lt(before, 0.0), -size, -now) * price
    none = S.close(size, 0.0)
    buys, sells = S.gt(size, 0.0), S.lt(size, 0.0)
    covers, borrows = S.and_(buys, S.lt(before, 0.0)), S.and_(sells, S.lt(now, 0.0))
    new_debt = S.ite(none, debt, S.ite(covers, snap(S, debt, -back), S.ite(borrows, debt + lent, debt)))
    free = S.ite(none, S.f(0.0), S.ite(covers, snap(S, S.f(2.0) * back, cash), S.ite(borrows, snap(S, cash, S.f(-2.0) * lent), cash)))
    return new_debt, free


def fcd_fn(S, a):
    return fcd(S, *[S.f(getattr(a, k)) for k in ("position_before", "position_now", "debt_now", "price", "fees")])


def g_fcd(rng):
    b = pick(rng, 0.0, 3.0, -2.0, -4.5, 1.25)
    n = pick(rng, 0.0, b, b + 1, b - 1, -b, b / 2, 2 * b, -1.0)
    return dict(position_before=b, position_now=n, debt_now=pick(rng, 0.0, 7.5, 3.0) if b < 0 else 0.0,
                price=pick(rng, 1.0, 2.5, 10.0), fees=pick(rng, 0.0, 0.5))


Contract(N + "get_free_cash_diff_nb", dict(POS, debt_now=Float("fin"), price=Float("fin"), fees=Float("fin")), functional=fcd_fn, gen=g_fcd,
         props="C09", trials=800)


# --------------------------------------------------------------------------------------- replay of the records
REC = dict(order_records=RecArr_(order_dt, "k", nan=False), col_map=Tup(Arr_("i", "p"), Arr_("i", "m")))


def starts(S, a):
    lens = a.col_map[1]
    return S.fold(0, lambda s, k: s + lens[k])


def rec(S, a, c, k):
    return a.order_records[a.col_map[0][starts(S, a)(c + 1) - a.col_map[1][c] + k]]


def map_pre(S, a, ts=None):
    idxs, lens = a.col_map
    P = starts(S, a)
    m, p, nr = S.len(lens), S.len(idxs), S.len(a.order_records["idx"]) if not S.symbolic else a.order_records.shape[0]
    S.require("column lengths", S.forall(0, m, lambda c: S.and_(S.ge(lens[c], 0), S.ge(P(c + 1) - lens[c], 0), S.le(P(c + 1), p))))
    S.require("positions", S.forall(0, p, lambda k: S.and_(S.ge(idxs[k], 0), S.lt(idxs[k], nr))))
    idx, ids = a.order_records["idx"], a.order_records["id"]
    n = a.target_shape[0]
    S.require("rows", S.forall(0, nr, lambda r: S.and_(S.ge(idx[r], 0), S.lt(idx[r], n), S.ge(ids[r], 0))))


def signed(S, r):
    return S.ite(S.eq(r["side"], 1), -S.f(r["size"]), S.f(r["size"]))


def position(S, a, c):
    """fold: position of column c after its first k records."""
    return S.fold(S.f(0.0), lambda s, k: snap(S, s, signed(S, rec(S, a, c, k))))


def g_orders(rng, shape=None, target=True):
    """A random record array with its column map; sizes and prices dyadic."""
    n, m = shape or (int(rng.integers(1, 6)), int(rng.integers(1, 4)))
    rows = []
    for c in range(m):
        pos = 0.0
        for i in range(n):
            for _ in range(int(rng.integers(0, 2 if rng.random() < 0.8 else 3))):
                side = int(rng.integers(2))
                size = float(rng.integers(1, 9)) / 2
                if pos and rng.random() < 0.3:      # close exactly
                    side, size = (1, pos) if pos > 0 else (0, -pos)
                pos += -size if side else size
                rows.append((c, i, size, float(rng.integers(1, 20)) / 2, float(rng.integers(0, 3)) / 4, side))
    order = np.argsort([(r[1]) for r in rows], kind="stable") if rows else []
    recs = np.zeros(len(rows), order_dt)
    for k, j in enumerate(order):
        c, i, size, price, fees, side = rows[j]
        recs[k] = np.array((k, c, i, size, price, fees, side), dtype=order_dt) if False else tuple([k, c, i, size, price, fees, side])
    cols = recs["col"]
    if rng.random() < 0.5:
        recs = recs[np.argsort(cols, kind="stable")]
        recs["id"] = np.arange(len(recs)) if rng.random() < 0.5 else recs["id"]
    cols = recs["col"]
    idxs = np.argsort(cols, kind="stable").astype(np.int64)
    lens = np.array([int((cols == c).sum()) for c in range(m)], dtype=np.int64)
    return dict(target_shape=(n, m), order_records=recs, col_map=(idxs, lens))


def id_raises(S, a):
    """Records out of order are refused: an exception is allowed only then. (Stated concretely; in the proof it is allowed anywhere,
    what is proved is what holds on return.)"""
    if S.symbolic:
        return True
    return any(rec(S, a, c, k - 1)["id"] > rec(S, a, c, k)["id"] for c in range(len(a.col_map[1])) for k in range(1, a.col_map[1][c]))


TS = dict(target_shape=Tup(Dim("n"), Dim("m")))


def flow_of(S, a, before, now, size):
    """The part of a fill that belongs to the chosen direction."""
    d = a.direction
    return S.ite(S.eq(d, 0), long_exact(S, before, now), S.ite(S.eq(d, 1), short_exact(S, before, now), size)) if S.symbolic else \
        (long_exact(S, before, now) if d == 0 else short_exact(S, before, now) if d == 1 else size)


def asset_fold(S, a, c, i):
    """fold: (position, flow booked at row i) of column c after its first k records."""
    def step(st, k):
        pos, acc = st
        r = rec(S, a, c, k)
        size = signed(S, r)
        new = snap(S, pos, size)
        return new, S.ite(S.eq(r["idx"], i), snap(S, acc, flow_of(S, a, pos, new, size)), acc)
    return S.fold((S.f(0.0), S.f(0.0)), step)


def cash_fold(S, a, c, i):
    """fold: (position, debt, cash flow booked at row i)."""
    def step(st, k):
        pos, debt, acc = st
        r = rec(S, a, c, k)
        size = signed(S, r)
        new = snap(S, pos, size)
        if a.free is True:
            debt2, flow = fcd(S, pos, new, debt, S.f(r["price"]), S.f(r["fees"]))
        else:
            debt2, flow = debt, -size * r["price"] - r["fees"]
        return new, debt2, S.ite(S.eq(r["idx"], i), snap(S, acc, flow), acc)
    return S.fold((S.f(0.0), S.f(0.0), S.f(0.0)), step)


def replay_post(fold, label, props):
    def post(S, a, r):
        n, m = a.target_shape
        S.ensure("shape", S.and_(S.eq(S.len(r, 0), n), S.eq(S.len(r, 1), m)), props)
        S.each("c", 0, m, lambda c: S.each("i", 0, n, lambda i: S.ensure(
            label, S.eq(r[i, c], fold(S, a, c, i)(a.col_map[1][c])[-1]), props)))
    return post


def replay_outer(fold):
    def inv(S, v):
        n, m = v.target_shape
        S.each("c", 0, m, lambda c: S.each("i", 0, n, lambda i: S.ensure("flows booked", S.eq(
            v.out[i, c], S.ite(S.lt(c, v.it), fold(S, v, c, i)(v.col_map[1][c])[-1], S.f(0.0))))))
    return inv


def replay_inner(fold, state):
    def inv(S, v):
        n, m = v.target_shape
        col = v.col
        S.each("i", 0, n, lambda i: [S.ensure("state " + x, S.eq(getattr(v, x), fold(S, v, col, i)(v.it)[j])) for j, x in enumerate(state)])
        S.each("c", 0, m, lambda c: S.each("i", 0, n, lambda i: S.ensure("flows booked", S.eq(v.out[i, c], S.ite(
            S.eq(c, col), fold(S, v, c, i)(v.it)[-1], S.ite(S.lt(c, col), fold(S, v, c, i)(v.col_map[1][c])[-1], S.f(0.0)))))))
    return inv


Contract(N + "asset_flow_nb", dict(TS, **REC, direction=SymEnum(0, 2)), pre=map_pre, props="C09", merge=True, raises={"ValueError": id_raises},
         post=replay_post(asset_fold, "assets moved at this bar", "C09"),
         loops={0: Inv(replay_outer(asset_fold), arb="c"), 1: replay_inner(asset_fold, ["position_now"])},
         gen=lambda rng: dict(g_orders(rng), direction=int(rng.integers(3))), trials=500,
         cases=[("long", dict(direction=Const(0))), ("short", dict(direction=Const(1))), ("both", dict(direction=Const(2)))])
Contract(N + "cash_flow_nb", dict(TS, **REC, free=Bool(split=True)), pre=map_pre, props="C09", merge=True, raises={"ValueError": id_raises},
         post=replay_post(cash_fold, "cash moved at this bar", "C09"),
         loops={0: Inv(replay_outer(cash_fold), arb="c"), 1: replay_inner(cash_fold, ["position_now", "debt_now"])},
         gen=lambda rng: dict(g_orders(rng), free=bool(rng.integers(2))), trials=500,
         cases=[("free", dict(free=Const(True))), ("total", dict(free=Const(False)))])


# --------------------------------------------------------------------------------------- running sums
def run(S, init, x):
    return S.fold(init, lambda s, k: snap(S, s, x(k)))


FIN = dict(nan=False)


def g_mats(**kw):
    """Random arguments: 'm' an n x m matrix, 'v' a vector of m, 'g' group lengths summing to m (with 'gv' one value per group)."""
    def g(rng):
        n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        lens = []
        while sum(lens) < m:
            lens.append(int(rng.integers(1, m - sum(lens) + 1)))
        d = {}
        for k, w in kw.items():
            if callable(w):
                d[k] = w(rng, n, m, lens)
            elif w == "m":
                d[k] = rng.integers(-6, 9, (n, m)) / 2.0
            elif w == "m+":
                d[k] = rng.integers(1, 20, (n, m)) / 2.0
            elif w == "mg":
                d[k] = rng.integers(-6, 9, (n, len(lens))) / 2.0
            elif w == "v":
                d[k] = rng.integers(1, 40, m) / 2.0
            elif w == "gv":
                d[k] = rng.integers(1, 40, len(lens)) / 2.0
            elif w == "g":
                d[k] = np.array(lens)
            elif w == "cs":
                d[k] = np.concatenate([np.stack([rng.permutation(x) for _ in range(n)]) for x in lens], axis=1)
            elif w == "shape":
                d[k] = (n, m)
        return d
    return g


def cells(S, x, r, fn, label, props):
    """r has the shape of x, and r[i, c] = fn(i, c) at one arbitrary cell."""
    n, m = S.len(x, 0), S.len(x, 1)
    S.ensure("shape", S.and_(S.eq(S.len(r, 0), n), S.eq(S.len(r, 1), m)), props)
    S.each("c", 0, m, lambda c: S.each("i", 0, n, lambda i: S.ensure(label, S.eq(r[i, c], fn(i, c)), props)))


def colwise(target, params, x, fn, label, props, gen, inner_extra=None, raises=None, pre=None, **kw):
    """Contract of a kernel with a loop over columns and one over rows that fills out[i, col] = fn(S, a, i, col)."""
    def post(S, a, r):
        cells(S, getattr(a, x), r, lambda i, c: fn(S, a, i, c), label, props)

    def outer(S, v):
        n, m = S.len(getattr(v, x), 0), S.len(getattr(v, x), 1)
        S.each("c", 0, v.it, lambda c: S.each("i", 0, n, lambda i: S.ensure("columns done", S.eq(v.out[i, c], fn(S, v, i, c)))))

    def inner(S, v):
        n, m = S.len(getattr(v, x), 0), S.len(getattr(v, x), 1)
        if inner_extra:
            inner_extra(S, v)
        S.each("c", 0, v.col, lambda c: S.each("i", 0, n, lambda i: S.ensure("columns done", S.eq(v.out[i, c], fn(S, v, i, c)))))
        S.each("i", 0, v.it, lambda i: S.ensure("rows done", S.eq(v.out[i, v.col], fn(S, v, i, v.col))))
    Contract(target, params, post=post, pre=pre, loops={0: Inv(outer, arb="c"), 1: Inv(inner, arb="i")}, props=props, gen=gen, raises=raises, **kw)


colwise(N + "assets_nb", dict(asset_flow=Arr_("f", "n", "m", **FIN)), "asset_flow",
        lambda S, a, i, c: run(S, S.f(0.0), lambda k: a.asset_flow[k, c])(i + 1), "running sum of the asset flow", "C09", g_mats(asset_flow="m"),
        inner_extra=lambda S, v: S.ensure("position", S.eq(v.position_now, run(S, S.f(0.0), lambda k: v.asset_flow[k, v.col])(v.it))))


def cash_run(S, a, c):
    return run(S, S.f(a.init_cash[c]), lambda k: a.cash_flow[k, c])


colwise(N + "cash_nb", dict(cash_flow=Arr_("f", "n", "m", **FIN), init_cash=Arr_("f", "m", **FIN)), "cash_flow",
        lambda S, a, i, c: cash_run(S, a, c)(i + 1), "initial cash plus the running sum of the cash flow", "C09", g_mats(cash_flow="m", init_cash="v"),
        inner_extra=lambda S, v: S.ensure("last row", S.implies(S.gt(v.it, 0), S.eq(v.out[v.it - 1, v.col], cash_run(S, v, v.col)(v.it)))))


def exposure(S, a, i, c):
    v, k = a.asset_value[i, c], a.cash[i, c]
    tot = snap(S, v, k)
    if not S.symbolic:
        return 0.0 if tot == 0 else v / tot
    return S.ite(S.eq(tot, 0.0), S.f(0.0), S.div(v, S.ite(S.eq(tot, 0.0), S.f(1.0), tot)))


colwise(N + "gross_exposure_nb", dict(asset_value=Arr_("f", "n", "m", **FIN), cash=Arr_("f", "n", "m", **FIN)), "asset_value", exposure,
        "asset value over value, zero for zero value", "C11", g_mats(asset_value="m", cash="m"))
from .retdef import simple_return  # noqa: E402


# --------------------------------------------------------------------------------------- groups
def gstart(S, lens):
    return S.fold(0, lambda s, k: s + lens[k])


def groups_pre(S, lens, m):
    P = gstart(S, lens)
    S.require("groups inside the columns", S.forall(0, S.len(lens), lambda g: S.and_(S.ge(lens[g], 0), S.ge(P(g), 0), S.le(P(g) + lens[g], m))))


def lens_raises(get_m, lens="group_lens"):
    return {"ValueError": lambda S, a: S.ne(gstart(S, getattr(a, lens))(S.len(getattr(a, lens))), get_m(S, a))}


Contract(N + "check_group_lens_nb", dict(group_lens=Arr_("i", "g"), n_cols=Int(0)), raises=lens_raises(lambda S, a: a.n_cols), props="C11 C23",
         post=lambda S, a, r: S.ensure("lengths add up to the number of columns", S.eq(gstart(S, a.group_lens)(S.len(a.group_lens)), a.n_cols), "C23 C11"),
         gen=lambda rng: (lambda l: dict(group_lens=l, n_cols=int(l.sum()) + pick(rng, 0, 0, 1)))(rng.integers(1, 4, int(rng.integers(1, 5)))))


def gsum(S, at, lo, n):
    return S.fold(S.f(0.0), lambda s, k: s + at(lo + k))(n)


def group_def(fn):
    """out[:, group] = fn(S, a, i, group) for every row and group; from_col is the first column of the group."""
    def inv(S, v):
        n = S.len(v.out, 0)
        S.each("g", 0, v.it, lambda g: S.each("i", 0, n, lambda i: S.ensure("groups done", S.eq(v.out[i, g], fn(S, v, i, g)))))
    return Inv(inv, arb="g", define=dict(from_col=lambda S, v: gstart(S, v.group_lens)(v.it)))


def group_cells(S, r, n, g, fn, label, props):
    S.ensure("shape", S.and_(S.eq(S.len(r, 0), n), S.eq(S.len(r, 1), g)), props)
    S.each("g", 0, g, lambda k: S.each("i", 0, n, lambda i: S.ensure(label, S.eq(r[i, k], fn(i, k)), props)))


GL = dict(group_lens=Arr_("i", "g"))


def sum_group(S, a, i, g, x="a"):
    return gsum(S, lambda c: getattr(a, x)[i, c], gstart(S, a.group_lens)(g), a.group_lens[g])


def sum_grouped_post(x, props):
    return lambda S, a, r: group_cells(S, r, S.len(getattr(a, x), 0), S.len(a.group_lens), lambda i, g: sum_group(S, a, i, g, x),
                                       "sum over the columns of the group", props)


Contract(N + "sum_grouped_nb", dict(a=Arr_("f", "n", "m"), **GL), pre=lambda S, a: groups_pre(S, a.group_lens, S.len(a.a, 1)), props="C11 C23",
         post=sum_grouped_post("a", "C11 C23"), loops={0: group_def(sum_group)}, raises=lens_raises(lambda S, a: S.len(a.a, 1)),
         gen=g_mats(a="m", group_lens="g"), returns=ret_arr("f", lambda a: (a.a.shape[0], a.group_lens.shape[0])))
for nm, x in (("cash_flow_grouped_nb", "cash_flow"), ("asset_value_grouped_nb", "asset_value")):
    Contract(N + nm, dict({x: Arr_("f", "n", "m")}, **GL), pre=lambda S, a, x=x: groups_pre(S, a.group_lens, S.len(getattr(a, x), 1)), props="C11 C09",
             post=sum_grouped_post(x, "C11 C09"), raises=lens_raises(lambda S, a, x=x: S.len(getattr(a, x), 1)), gen=g_mats(**{x: "m", "group_lens": "g"}))


# initial cash
def icg_val(S, a, g):
    return gsum(S, lambda c: S.f(a.init_cash[c]), gstart(S, a.group_lens)(g), a.group_lens[g])


def icg_inner(S, v):
    lo = gstart(S, v.group_lens)(v.group)
    S.ensure("sum so far", S.eq(S.f(v.cash_sum), gsum(S, lambda c: S.f(v.init_cash[c]), lo, v.it - lo)))


Contract(N + "init_cash_grouped_nb", dict(init_cash=Arr_("f", "c", **FIN), cash_sharing=Bool(split=True), **GL), props="C11",
         pre=lambda S, a: None if a.cash_sharing else groups_pre(S, a.group_lens, S.len(a.init_cash)),
         post=lambda S, a, r: S.ensure("unchanged when cash is shared", S.and_(S.eq(S.len(r), S.len(a.init_cash)), S.same_array(r, a.init_cash)), "C11")
         if a.cash_sharing else [S.ensure("one per group", S.eq(S.len(r), S.len(a.group_lens)), "C11"), S.each("g", 0, S.len(a.group_lens), lambda g: S.ensure(
             "sum over the columns of the group", S.eq(r[g], icg_val(S, a, g)), "C11"))],
         loops={0: Inv(lambda S, v: S.each("g", 0, v.it, lambda g: S.ensure("groups done", S.eq(v.out[g], icg_val(S, v, g)))), arb="g",
                       define=dict(from_col=lambda S, v: gstart(S, v.group_lens)(v.it))),
                1: icg_inner},
         gen=lambda rng: (lambda d: dict(d, init_cash=d["init_cash"][:len(d["group_lens"])] if d["cash_sharing"] else d["init_cash"]))(
             g_mats(init_cash="v", group_lens="g", cash_sharing=lambda rng, n, m, l: bool(rng.integers(2)))(rng)))


# cash of a group
def cg_val(S, a, i, g):
    return run(S, S.f(a.init_cash_grouped[g]), lambda k: a.cash_flow_grouped[k, g])(i + 1)


def cg_inner(S, v):
    n, g = S.len(v.cash_flow_grouped, 0), v.group
    S.ensure("cash now", S.eq(v.cash_now, run(S, S.f(v.init_cash_grouped[g]), lambda k: v.cash_flow_grouped[k, g])(v.it)))
    S.each("g", 0, g, lambda k: S.each("i", 0, n, lambda i: S.ensure("groups done", S.eq(v.out[i, k], cg_val(S, v, i, k)))))
    S.each("i", 0, v.it, lambda i: S.ensure("rows done", S.eq(v.out[i, g], cg_val(S, v, i, g))))


Contract(N + "cash_grouped_nb", dict(target_shape=Tup(Dim("n"), Dim("m")), cash_flow_grouped=Arr_("f", "n", "g", **FIN), init_cash_grouped=Arr_("f", "g", **FIN), **GL),
         pre=lambda S, a: groups_pre(S, a.group_lens, a.target_shape[1]), props="C11 C09", raises=lens_raises(lambda S, a: a.target_shape[1]),
         post=lambda S, a, r: group_cells(S, r, S.len(a.cash_flow_grouped, 0), S.len(a.group_lens), lambda i, g: cg_val(S, a, i, g),
                                          "initial cash of the group plus the running sum of its cash flow", "C11 C09"),
         loops={0: group_def(cg_val), 1: Inv(cg_inner, arb="i")},
         gen=g_mats(target_shape="shape", cash_flow_grouped="mg", init_cash_grouped="gv", group_lens="g"))

# elementwise series
Contract(N + "asset_value_nb", dict(close=Arr_("f", "n", "m"), assets=Arr_("f", "n", "m", **FIN)), props="C11", gen=g_mats(close="m+", assets="m"),
         post=lambda S, a, r: cells(S, a.close, r, lambda i, c: a.close[i, c] * a.assets[i, c], "holdings times price", "C11"))
Contract(N + "value_nb", dict(cash=Arr_("f", "n", "m", **FIN), asset_value=Arr_("f", "n", "m")), props="C11", gen=g_mats(cash="m", asset_value="m"),
         post=lambda S, a, r: cells(S, a.cash, r, lambda i, c: a.cash[i, c] + a.asset_value[i, c], "cash plus asset value", "C11"))


def vec(S, r, n, fn, label, props):
    S.ensure("length", S.eq(S.len(r), n), props)
    S.each("c", 0, n, lambda c: S.ensure(label, S.eq(r[c], fn(c)), props))


Contract(N + "final_value_nb", dict(total_profit=Arr_("f", "m"), init_cash=Arr_("f", "m", **FIN)), props="C11", gen=g_mats(total_profit="v", init_cash="v"),
         post=lambda S, a, r: vec(S, r, S.len(a.init_cash), lambda c: a.total_profit[c] + a.init_cash[c], "profit plus initial cash", "C11"))
Contract(N + "total_return_nb", dict(total_profit=Arr_("f", "m"), init_cash=Arr_("f", "m", **FIN)), props="C11", gen=g_mats(total_profit="v", init_cash="v"),
         pre=lambda S, a: S.require(S.forall(0, S.len(a.init_cash), lambda c: S.gt(a.init_cash[c], 0.0)), "cash"),
         post=lambda S, a, r: vec(S, r, S.len(a.init_cash), lambda c: S.div(a.total_profit[c], a.init_cash[c]), "profit over initial cash", "C11"))


# total profit straight from the records
def profit_fold(S, a, c):
    def step(st, k):
        assets, cash = st
        r = rec(S, a, c, k)
        buy = S.eq(r["side"], 0)
        sz, gross = S.f(r["size"]), S.f(r["size"]) * r["price"]
        return snap(S, assets, S.ite(buy, sz, -sz)), snap(S, cash, S.ite(buy, -(gross + r["fees"]), gross - r["fees"]))
    return S.fold((S.f(0.0), S.f(0.0)), step)


def tp_val(S, a, c):
    n = S.len(a.close, 0)
    assets, cash = profit_fold(S, a, c)(a.col_map[1][c])
    if not S.symbolic:
        return 0.0 if a.col_map[1][c] == 0 else cash + assets * a.close[n - 1, c]
    return S.ite(S.eq(a.col_map[1][c], 0), S.f(0.0), cash + assets * a.close[n - 1, c])


def tp_state(S, v, c, k, none):
    st = profit_fold(S, v, c)(k)
    S.ensure("assets", S.eq(v.assets[c], st[0]))
    S.ensure("cash", S.eq(v.cash[c], st[1]))
    S.ensure("columns without orders", S.iff(v.zero_mask[c], none))


def tp_outer(S, v):
    def one(c):
        lens = v.col_map[1]
        tp_state(S, v, c, S.ite(S.lt(c, v.it), lens[c], 0), S.and_(S.lt(c, v.it), S.eq(lens[c], 0)))
    S.each("c", 0, v.target_shape[1], one)


def tp_inner(S, v):
    def one(c):
        lens = v.col_map[1]
        tp_state(S, v, c, S.ite(S.eq(c, v.col), v.it, S.ite(S.lt(c, v.col), lens[c], 0)), S.and_(S.lt(c, v.col), S.eq(lens[c], 0)))
    S.each("c", 0, v.target_shape[1], one)


def tp_post(S, a, r):
    vec(S, r, a.target_shape[1], lambda c: tp_val(S, a, c), "cash from the fills plus the value of what is still held, zero without orders", "C11")


Contract(N + "total_profit_nb", dict(TS, close=Arr_("f", "n", "m"), **REC), props="C11", merge=True, raises={"ValueError": id_raises},
         pre=lambda S, a: (map_pre(S, a), S.require(S.ge(a.target_shape[0], 1), "a bar")), post=tp_post, loops={0: Inv(tp_outer, arb="c"), 1: tp_inner},
         gen=lambda rng: (lambda d: dict(d, close=rng.integers(1, 20, d["target_shape"]) / 2.0))(g_orders(rng)), trials=300)


def tpg_val(S, a, g):
    return gsum(S, lambda c: a.total_profit[c], gstart(S, a.group_lens)(g), a.group_lens[g])


Contract(N + "total_profit_grouped_nb", dict(total_profit=Arr_("f", "m"), **GL), pre=lambda S, a: groups_pre(S, a.group_lens, S.len(a.total_profit)), props="C11",
         post=lambda S, a, r: vec_g(S, a, r), raises=lens_raises(lambda S, a: S.len(a.total_profit)), gen=g_mats(total_profit="v", group_lens="g"),
         loops={0: Inv(lambda S, v: S.each("g", 0, v.it, lambda g: S.ensure("groups done", S.eq(v.out[g], tpg_val(S, v, g)))), arb="g",
                       define=dict(from_col=lambda S, v: gstart(S, v.group_lens)(v.it)))})


def vec_g(S, a, r):
    S.ensure("one per group", S.eq(S.len(r), S.len(a.group_lens)), "C11")
    S.each("g", 0, S.len(a.group_lens), lambda g: S.ensure("sum over the columns of the group", S.eq(r[g], tpg_val(S, a, g)), "C11"))


# returns and benchmarks
def ar_val(S, a, i, c):
    prev = S.ite(S.eq(i, 0), S.f(0.0), a.asset_value[i - 1, c]) if S.symbolic else (0.0 if i == 0 else a.asset_value[i - 1, c])
    return simple_return(S, prev, a.asset_value[i, c] + a.cash_flow[i, c])


colwise(N + "asset_returns_nb", dict(cash_flow=Arr_("f", "n", "m", **FIN), asset_value=Arr_("f", "n", "m")), "cash_flow", ar_val,
        "change of asset value net of the flows over the previous asset value", "C11", g_mats(cash_flow="m", asset_value="m"))


def tbr_val(S, a, c):
    return simple_return(S, a.benchmark_value[0, c], a.benchmark_value[S.len(a.benchmark_value, 0) - 1, c])


Contract(N + "total_benchmark_return_nb", dict(benchmark_value=Arr_("f", "n", "m")), props="C11", gen=g_mats(benchmark_value="m"),
         pre=lambda S, a: S.require(S.ge(S.len(a.benchmark_value, 0), 1), "a bar"),
         post=lambda S, a, r: vec(S, r, S.len(a.benchmark_value, 1), lambda c: tbr_val(S, a, c), "return from the first to the last value", "C11"),
         loops={0: Inv(lambda S, v: S.each("c", 0, v.it, lambda c: S.ensure("columns done", S.eq(v.out[c], tbr_val(S, v, c)))), arb="c")})


def close_pre(S, a):
    n, m = S.len(a.close, 0), S.len(a.close, 1)
    S.require(S.ge(n, 1), "a bar")
    S.require(S.forall(0, m, lambda c: S.gt(a.close[0, c], 0.0)), "first price")


Contract(N + "benchmark_value_nb", dict(close=Arr_("f", "n", "m"), init_cash=Arr_("f", "m", **FIN)), props="C11", gen=g_mats(close="m+", init_cash="v"), pre=close_pre,
         post=lambda S, a, r: cells(S, a.close, r, lambda i, c: S.div(a.close[i, c], a.close[0, c]) * a.init_cash[c], "initial cash grown with the price", "C11"))


def bvg_val(S, a, i, g):
    w = a.group_lens[g]
    return S.div(a.init_cash_grouped[g], S.f(w)) * gsum(S, lambda c: S.ieee_div(a.close[i, c], a.close[0, c]), gstart(S, a.group_lens)(g), w)


Contract(N + "benchmark_value_grouped_nb", dict(close=Arr_("f", "n", "m"), init_cash_grouped=Arr_("f", "g", **FIN), **GL), props="C11",
         gen=g_mats(close="m+", init_cash_grouped="gv", group_lens="g"), raises=lens_raises(lambda S, a: S.len(a.close, 1)),
         pre=lambda S, a: (close_pre(S, a), groups_pre(S, a.group_lens, S.len(a.close, 1)), S.require(S.forall(0, S.len(a.group_lens), lambda g: S.ge(a.group_lens[g], 1)), "no empty group")),
         post=lambda S, a, r: group_cells(S, r, S.len(a.close, 0), S.len(a.group_lens), lambda i, g: bvg_val(S, a, i, g),
                                          "cash of the group spread evenly and grown with each price", "C11"),
         loops={0: group_def(bvg_val)})

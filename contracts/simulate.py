"""C07, C08: simulation from arrays of orders. What is executed for an element is decided by the contracts of
process_order_nb and execute_order_nb; here their numeric results are arbitrary (so that no assumption on the inputs is needed), and
the contract states which orders are executed, on which state, in which sequence, and how the records are kept."""
from .process import *
from .arrays import flex_elem  # noqa: F401
from .replay import gstart, groups_pre, lens_raises, N
from pyvc.engine import RaiseExc
from pyvc.contract import Spec, dim, fresh_get, gdim
from pyvc import values as V
from pyvc.values import Arr, NT, b_and, ile, ilt, ite, b_not
from vectorbt.portfolio.enums import ExecuteOrderState

PERM = "call sequence"


class Flex(Spec):
    """An argument that broadcasts to (n, m): what flex_select_auto_nb reads from it is (by that function's contract)
    the element of the broadcast array, which stands for it here."""

    def __init__(self, dtype="f", inf=False, nan=True, pick=None):
        self.dtype, self.inf, self.nan, self.pick = dtype, inf, nan, pick

    def make(self, ex, name):
        nm = ex.p.fresh_name(name)
        st = ex.eng.new_store(ex.p, nm, self.dtype, 2, fresh_get(nm, self.dtype, 2, self.nan, self.inf), nan_ok=self.nan,
                              inf_ok=self.inf, key=nm)
        st.broadcast = True
        return Arr(st, (dim(ex, "n", name), dim(ex, "m", name)))


def flex_use(ex, a):
    x = a.a
    if not (isinstance(x, Arr) and getattr(x.store, "broadcast", False)):
        from pyvc.engine import Unsupported
        raise Unsupported("flexible read of something that is not an argument")
    for k, v in ((0, a.i), (1, a.col)):
        ex.p.oblige("call:flex_select_auto_nb/pre:%s inside the shape" % ("row", "column")[k],
                    b_and(ile(0, v), ilt(v, x.shape[k])), None, "call-pre")
    return x.at(a.i, a.col)


def reject_use(ex, a):
    raise RaiseExc("RejectedOrderError")


def arbitrary(spec, *raises):
    """Any result whatever (weaker than every contract of the callee), or one of the exceptions."""
    def use(ex, a):
        import z3
        for e in raises:
            if ex.p.branch(z3.Bool(ex.p.fresh_name("raises:" + e))):
                raise RaiseExc(e)
        return spec.make(ex, "any")
    return use


def argsort_use(ex, a):
    """Of the contract of insert_argsort_nb: each index stays in range and stands once (so that it has one position)."""
    import z3
    p, n = ex.p, a.A.shape[0]
    S = ex.eng.spec("prove", p, "call:insert_argsort_nb/pre", kind="call-pre")
    S.require(S.eq(a.I.shape[0], n), "as many indices as values")
    S.require(S.forall(0, n, lambda k: S.eq(a.I[k], k)), "indices in order")
    ex.havoc_target(a.A, "sorted values")
    nm = p.fresh_name("sorted")
    g, inv = z3.Function(nm, z3.IntSort(), z3.IntSort()), z3.Function(nm + ".position", z3.IntSort(), z3.IntSort())
    a.I.write_all(lambda vi: g(V.zi(vi[0])))
    ex.note_write(a.I.store)
    k = z3.Int("?sorted")
    p.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= g(k), g(k) < n, inv(g(k)) == k)), patterns=[g(k)]))


REAL = Float(symnan=True)
EXEC_RESULT = Tup(NTS(ExecuteOrderState, cash=REAL, position=REAL, debt=REAL, free_cash=REAL), RESULT)
USE = dict(insert_argsort_nb=argsort_use, flex_select_auto_nb=flex_use, execute_order_nb=arbitrary(EXEC_RESULT, "ValueError"), process_order_nb="inline",
           update_value_nb=arbitrary(Tup(REAL, REAL)), approx_order_value_nb=arbitrary(REAL), raise_rejected_order_nb=reject_use,
           init_records_nb=arbitrary(Tup(RecArr_(order_dt, "orders.len", inf=True), RecArr_(log_dt, "logs.len", inf=True))))


# ------------------------------------------------------------------------------------------- records and groups
def record_arrays(ex, a, name):
    n = a.target_shape[0] * a.target_shape[1] if a.max_orders is None else a.max_orders
    m = ite(zb_(S_eq0(a.max_logs)), 1, a.max_logs) if V.is_z3(a.max_logs) else (a.max_logs or 1)
    out = []
    for dt, k, nm in ((order_dt, n, "orders"), (log_dt, m, "logs")):
        sp = RecArr_(dt, nm + ".len", inf=True)
        r = sp.make(ex, name + "." + nm)
        ex.p.assume(V.ieq(r.shape[0], k))
        out.append(r)
    return tuple(out)


def zb_(x):
    return V.zb(x)


def S_eq0(x):
    return V.ieq(x, 0)


def init_records_post(S, a, r):
    n = a.target_shape[0] * a.target_shape[1] if a.max_orders is None else a.max_orders
    S.ensure("room for the orders", S.eq(S.len(r[0]), n), "C07")
    S.ensure("room for the logs", S.eq(S.len(r[1]), S.ite(S.eq(a.max_logs, 0), 1, a.max_logs)), "C07")


Contract(NB + "init_records_nb", dict(target_shape=Tup(Dim("n"), Dim("m")), max_orders=OneOf(Const(None), Int(0)), max_logs=Int(0),
                                      init_temp_records=Bool(split=True)),
         post=init_records_post, returns=record_arrays, props="C07", trials=60,
         gen=lambda rng: dict(target_shape=(int(rng.integers(5)), int(rng.integers(5))), max_orders=pick(rng, None, 0, 3),
                              max_logs=int(rng.integers(3)), init_temp_records=bool(rng.integers(2))))


# ------------------------------------------------------------------------------------------- specification
def order_price(S, a, i, c):
    """Infinity is the close, negative infinity the previous close (missing on the first bar)."""
    p = S.f(a.price[i, c])
    return S.ite(S.isinf(p), S.ite(S.gt(p, 0.0), S.f(a.close[i, c]), S.ite(S.gt(i, 0), S.f(a.close[i - 1, c]), S.f(V.NAN))), p)


def bar_val_price(S, a, i, c):
    p = S.f(a.val_price[i, c])
    return S.ite(S.isinf(p), S.ite(S.gt(p, 0.0), order_price(S, a, i, c), S.ite(S.gt(i, 0), S.f(a.close[i - 1, c]), S.f(V.NAN))), p)


def kept(S, a, new, old):
    """A missing valuation price leaves the last one in force, unless told otherwise."""
    return S.ite(S.or_(S.not_(S.isnan(new)), S.not_(a.ffill_val_price)), new, old)


def group_value(S, v, n):
    return S.f(v.cash_now) + S.sum(lambda k: S.ite(S.eq(v.last_position[v.from_col + k], 0.0), S.f(0.0),
                                                   S.f(v.last_position[v.from_col + k]) * v.last_val_price[v.from_col + k]))(n)


ELEMENTS = ("size", "size_type", "direction", "fees", "fixed_fees", "slippage", "min_size", "max_size", "size_granularity",
            "reject_prob", "lock_cash", "allow_partial", "raise_reject", "log")


# ------------------------------------------------------------------------------------------- invariants
def every_record(S, v, col_below, also=None):
    """Any record p: number, column, bar. Any two records of one column: in the order of their bars."""
    n = v.old.target_shape[0]
    o, l = v.order_records, v.log_records
    S.ensure("order count", S.and_(S.le(0, v.oidx), S.le(v.oidx, S.len(o))))
    S.ensure("log count", S.and_(S.le(0, v.lidx), S.le(v.lidx, S.len(l))))

    def rec(p):
        S.ensure("numbered", S.eq(o["id"][p], p))
        S.ensure("columns", S.and_(S.le(0, o["col"][p]), S.lt(o["col"][p], col_below)))
        S.ensure("bars", S.and_(S.le(0, o["idx"][p]), S.lt(o["idx"][p], n)))
        if also is not None:
            also(p)
    S.each("p", 0, v.oidx, rec)
    S.each("q", 0, v.oidx, lambda q: S.each("p", 0, q, lambda p: S.ensure(
        "bars ascend", S.implies(S.eq(o["col"][p], o["col"][q]), S.lt(o["idx"][p], o["idx"][q])))))
    S.each("p", 0, v.lidx, lambda p: S.ensure("logs numbered", S.eq(l["id"][p], p)))


def column_state(S, v, c_from):
    """Any column c: the state that its next order will see is the one its last order left; none before its group's turn."""
    m = v.old.target_shape[1]

    def col(c):
        S.ensure("last position", S.eq(v.last_position[c], v.gh_position))
        S.ensure("last debt", S.eq(v.last_debt[c], v.gh_debt))
        S.ensure("last valuation price", S.eq(v.last_val_price[c], v.gh_val))
        S.ensure("later groups not begun", S.implies(S.ge(c, c_from), S.and_(
            S.eq(v.gh_position, 0.0), S.eq(v.gh_debt, 0.0), S.isnan(v.gh_val))))
    S.each("c", 0, m, col)


def groups_inv(S, v):
    S.ensure("groups before", S.and_(S.le(v.it, v.from_col), S.le(v.from_col, v.old.target_shape[1])))
    every_record(S, v, v.from_col)
    column_state(S, v, v.from_col)
    n, m = v.old.target_shape
    S.ensure("call sequence of later groups", S.forall2(0, n, v.from_col, m, lambda r, c: S.eq(v.call_seq[r, c], v.old.call_seq[r, c])))


def in_group(S, v):
    S.ensure("cash", S.eq(v.cash_now, v.gh_cash))
    S.ensure("free cash", S.eq(v.free_cash_now, v.gh_free))


def bars_inv(S, v):
    in_group(S, v)
    o = v.order_records
    every_record(S, v, v.to_col, lambda p: S.ensure("bars before", S.implies(S.ge(o["col"][p], v.from_col), S.lt(o["idx"][p], v.it))))
    column_state(S, v, v.to_col)
    n, m = v.old.target_shape
    same = lambda r, c: S.eq(v.call_seq[r, c], v.old.call_seq[r, c])
    S.ensure("call sequence of later bars", S.forall2(v.it, n, v.from_col, v.to_col, same))
    S.ensure("call sequence of later groups", S.forall2(0, n, v.to_col, m, same))


def start_group(S, v):
    return dict(gh_cash=S.f(v.init_cash[v.group]), gh_free=S.f(v.init_cash[v.group]))


def start_bar(S, v):
    c = S.arb("c")
    new = kept(S, v.old, bar_val_price(S, v.old, v.i, c), v.gh_val)
    return dict(gh_val=S.ite(S.and_(S.le(v.from_col, c), S.lt(c, v.to_col)), new, v.gh_val))


def prices_inv(S, v):
    hi = v.from_col + v.it

    def col(c):
        S.ensure("order price", S.implies(S.and_(S.le(v.from_col, c), S.lt(c, hi)), S.eq(v.order_price[c], order_price(S, v.old, v.i, c))))
        S.ensure("valuation price", S.eq(v.last_val_price[c], S.ite(S.and_(S.le(v.from_col, c), S.lt(c, hi)), kept(
            S, v.old, bar_val_price(S, v.old, v.i, c), v.entry.last_val_price[c]), v.entry.last_val_price[c])))
    S.each("c", 0, v.old.target_shape[1], col)


def value_inv(S, v):
    S.ensure("value so far", S.eq(v.value_now, group_value(S, v, v.it)))


def approx_inv(S, v):
    S.each("j", 0, v.it, lambda j: S.ensure("order values", S.eq(v.temp_order_value[j], v.gh_approx)))
    if S.mode == "assume":
        S.instance("default order", v.group, v.i)


def at_approx(S, v, a, r):
    for f in ("size", "size_type", "direction"):
        S.ensure("values the element's " + f, S.eq(getattr(a, f), getattr(v.old, f)[v.i, v.col]), "C08")
    S.ensure("on the cash", S.and_(S.eq(a.cash_now, v.gh_cash), S.eq(a.free_cash_now, v.gh_free)), "C08")
    S.ensure("on the value of the group", S.eq(a.value_now, group_value(S, v, v.group_len)), "C08")

    def col(c):
        S.ensure("on the position", S.eq(a.position_now, v.gh_position), "C08")
        S.ensure("at the valuation price", S.eq(a.val_price_now, v.gh_val), "C08")
    S.each("c", v.col, v.col + 1, col)
    S.ensure("column by column", S.eq(v.col, v.from_col + v.k), "C08")
    return dict(gh_approx=S.ite(S.eq(v.k, S.arb("j")), S.f(r), v.gh_approx))


def at_argsort(S, v, a, r):
    S.ensure("the group's orders", S.and_(S.eq(S.len(a.A), v.group_len), S.eq(S.len(a.I), v.group_len)), "C08")
    S.each("j", 0, v.group_len, lambda j: S.ensure("sorted by order value", S.eq(a.A[j], v.gh_approx), "C08"))


def column_of(S, v, k):
    return S.ite(v.cash_sharing, v.from_col + v.call_seq[v.i, v.from_col + k], v.from_col + k)


def start_orders(S, v):
    if v.has("value_now") and S.split(v.cash_sharing):
        S.ensure("value of the group at the bar", S.eq(v.value_now, group_value(S, v, v.group_len)), "C07")
        return dict(gh_value=S.f(v.value_now))
    return {}


def orders_inv(S, v):
    in_group(S, v)
    o = v.order_records

    def also(p):
        here = S.and_(S.ge(o["col"][p], v.from_col), S.eq(o["idx"][p], v.i))
        S.ensure("bars so far", S.implies(S.ge(o["col"][p], v.from_col), S.le(o["idx"][p], v.i)))
        S.ensure("records of this bar", S.implies(here, S.and_(S.le(0, v.gh_call), S.lt(v.gh_call, v.it), S.eq(
            o["col"][p], column_of(S, v, v.gh_call)))))
    every_record(S, v, v.to_col, also)
    column_state(S, v, v.to_col)
    if S.mode == "assume":
        S.instance(PERM, v.group, v.i, v.it, v.gh_call)
    if v.has("value_now"):
        S.ensure("value", S.implies(v.cash_sharing, S.eq(v.value_now, v.gh_value)))


def at_process(S, v, a, r):
    st, o = a.state, a.order
    res, new = r
    S.ensure("at this element", S.and_(S.eq(a.i, v.i), S.eq(a.col, v.col), S.eq(a.group, v.group)), "C07")
    S.ensure("columns in the order of the call sequence", S.eq(a.col, column_of(S, v, v.k)), "C07 C08")
    for f in ELEMENTS:
        want = getattr(v.old, f)[a.i, a.col]
        S.ensure("the element's " + f, S.iff(getattr(o, f), want) if f in ("lock_cash", "allow_partial", "raise_reject", "log") else S.eq(
            getattr(o, f), want), "C07")
    S.ensure("cash after the previous order", S.and_(S.eq(st.cash, v.gh_cash), S.eq(st.free_cash, v.gh_free)), "C07")
    S.ensure("update of the value", S.iff(a.update_value, v.old.update_value), "C07")

    def col(c):
        S.ensure("order price", S.eq(o.price, order_price(S, v.old, a.i, c)), "C07")
        S.ensure("position after the column's previous order", S.eq(st.position, v.gh_position), "C07")
        S.ensure("debt after the column's previous order", S.eq(st.debt, v.gh_debt), "C07")
        S.ensure("valuation price", S.eq(st.val_price, v.gh_val), "C07")
    S.each("c", a.col, a.col + 1, col)
    if S.split(v.cash_sharing):
        S.ensure("value after the group's previous order", S.eq(st.value, v.gh_value), "C07")
    else:
        S.ensure("value of the column", S.eq(st.value, S.f(v.gh_cash) + S.ite(S.eq(st.position, 0.0), S.f(0.0), st.position * st.val_price)), "C07")
    me = S.eq(a.col, S.arb("c"))
    upd = lambda x, old: S.ite(me, S.f(x), S.f(old))
    return dict(gh_cash=new.cash, gh_free=new.free_cash, gh_value=new.value, gh_position=upd(new.position, v.gh_position),
                gh_debt=upd(new.debt, v.gh_debt), gh_val=upd(kept(S, v.old, new.val_price, v.gh_val), v.gh_val),
                gh_call=S.ite(S.and_(S.eq(st.oidx, S.arb("p")), S.eq(res.status, FILLED)), v.k, v.gh_call))


def sim_ghosts(S, a):
    z, nan = V.F(V.Fraction(0)) if hasattr(V, "Fraction") else S.f(0.0), V.NAN
    return dict(gh_cash=z, gh_free=z, gh_value=z, gh_position=z, gh_debt=z, gh_val=nan, gh_call=-1, gh_approx=z)


def permutation(S, a, g, i, k, l):
    """Instance of: in every row, the call sequence holds, for every group, each of its column numbers at most once."""
    lo = gstart(S, a.group_lens)(g)
    n = a.group_lens[g]
    at = lambda x: a.call_seq[i, lo + x]
    inside = lambda x: S.and_(S.le(0, x), S.lt(x, n))
    row = S.and_(S.not_(a.auto_call_seq), S.le(0, g), S.lt(g, S.len(a.group_lens)), S.le(0, i), S.lt(i, a.target_shape[0]))
    return S.and_(S.implies(S.and_(row, inside(k)), inside(at(k))), S.implies(S.and_(row, inside(l)), inside(at(l))),
                  S.implies(S.and_(row, inside(k), inside(l), S.not_(S.eq(k, l))), S.not_(S.eq(at(k), at(l)))))


def default_order(S, a, g, i):
    lo = gstart(S, a.group_lens)(g)
    return S.implies(S.and_(a.auto_call_seq, S.le(0, g), S.lt(g, S.len(a.group_lens)), S.le(0, i), S.lt(i, a.target_shape[0])),
                     S.forall(lo, lo + a.group_lens[g], lambda c: S.eq(a.call_seq[i, c], c - lo)))


def sim_pre(S, a):
    if not S.symbolic:
        return
    S.require("groups not empty", S.forall(0, S.len(a.group_lens), lambda g: S.ge(a.group_lens[g], 1)))
    groups_pre(S, a.group_lens, a.target_shape[1])
    S.require("call sequence has the shape", True)


def sim_post(S, a, r):
    n, m = a.target_shape
    o, l = r

    def rec(p):
        S.ensure("numbered from zero", S.eq(o["id"][p], p), "C07")
        S.ensure("inside the columns", S.and_(S.le(0, o["col"][p]), S.lt(o["col"][p], m)), "C07")
        S.ensure("inside the bars", S.and_(S.le(0, o["idx"][p]), S.lt(o["idx"][p], n)), "C07")
    S.each("p", 0, S.len(o), rec)
    S.each("q", 0, S.len(o), lambda q: S.each("p", 0, q, lambda p: S.ensure(
        "one record per column and bar, in bar order", S.implies(S.eq(o["col"][p], o["col"][q]), S.lt(o["idx"][p], o["idx"][q])), "C07")))
    S.each("p", 0, S.len(l), lambda p: S.ensure("logs numbered from zero", S.eq(l["id"][p], p), "C07"))


def g_flexible(rng, n, m, flex_2d, values, dtype=float):
    k = int(rng.integers(4))
    if k == 0:
        return np.asarray(pick(rng, *values), dtype=dtype)
    if k == 1:
        return np.array([pick(rng, *values) for _ in range(m if flex_2d else n)], dtype=dtype)
    s = (n, m) if k == 2 else (n, 1) if rng.random() < 0.5 else (1, m)
    return np.array([pick(rng, *values) for _ in range(s[0] * s[1])], dtype=dtype).reshape(s)


def g_sim(rng):
    from vectorbt.portfolio import nb
    lens = rng.integers(1, 4, int(rng.integers(1, 4))) if rng.random() < 0.7 else np.ones(int(rng.integers(1, 4)), dtype=int)
    n, m = int(rng.integers(1, 7)), int(lens.sum())
    shared = bool((lens > 1).any())
    auto = bool(rng.integers(2))
    cs = np.empty((n, m), dtype=int)
    for i in range(n):
        cs[i] = np.concatenate([np.arange(l) if auto else rng.permutation(l) for l in lens])
    f2 = bool(rng.integers(2))
    fx = lambda *v, dtype=float: g_flexible(rng, n, m, f2, v, dtype)
    return dict(target_shape=(n, m), group_lens=lens, init_cash=np.array([pick(rng, 0, 50, 100, 1000) for _ in range(len(lens) if shared else m)]),
                call_seq=cs, size=fx(1.0, -1.0, 2.5, 0.0, math.nan, math.inf, -math.inf), price=fx(1.0, 2.0, math.inf, -math.inf, math.nan),
                size_type=fx(0, 0, 3, dtype=int), direction=fx(0, 1, 2, dtype=int), fees=fx(0.0, 0.01), fixed_fees=fx(0.0, 1.0),
                slippage=fx(0.0, 0.125), min_size=fx(0.0, 1.0), max_size=fx(math.inf, 2.0), size_granularity=fx(math.nan, 0.5),
                reject_prob=fx(0.0, 0.0, 0.25), lock_cash=fx(False, True, dtype=bool), allow_partial=fx(True, False, dtype=bool),
                raise_reject=np.asarray(False), log=fx(False, True, dtype=bool), val_price=fx(math.inf, -math.inf, 3.0, math.nan),
                close=fx(1.0, 2.0, 4.0, math.nan), auto_call_seq=auto, ffill_val_price=bool(rng.integers(2)),
                update_value=bool(rng.integers(2)), max_orders=None, max_logs=n * m, init_temp_records=bool(rng.integers(2)), flex_2d=f2)


F_, I_, B_ = Flex(), Flex("i"), Flex("b")
Contract(NB + "simulate_from_orders_nb",
         dict(target_shape=Tup(Dim("n"), Dim("m")), group_lens=Arr_("i", "g"), init_cash=Arr_("f", "cash", nan=False), call_seq=Arr_("i", "n", "m"),
              size=Flex(inf=True), price=Flex(inf=True), size_type=I_, direction=I_, fees=F_, fixed_fees=F_, slippage=F_, min_size=F_,
              max_size=Flex(inf=True), size_granularity=F_, reject_prob=F_, lock_cash=B_, allow_partial=B_, raise_reject=B_, log=B_,
              val_price=Flex(inf=True), close=F_, auto_call_seq=Bool(), ffill_val_price=Bool(), update_value=Bool(),
              max_orders=Const(None), max_logs=Int(0), init_temp_records=Bool(), flex_2d=Bool()),
         pre=sim_pre, post=sim_post, merge=True, deep=False, modifies=("call_seq",), use=USE, ghosts=sim_ghosts,
         at_call=dict(approx_order_value_nb=at_approx, insert_argsort_nb=at_argsort, process_order_nb=at_process),
         schemas={PERM: permutation, "default order": default_order},
         loops={0: Inv(groups_inv, define=dict(from_col=lambda S, v: gstart(S, v.old.group_lens)(v.it))),
                1: Inv(bars_inv, reset=start_group), 2: Inv(prices_inv, reset=start_bar), 3: Inv(value_inv), 4: Inv(approx_inv),
                5: Inv(orders_inv, reset=start_orders)},
         raises={"ValueError": lambda S, a: True, "RejectedOrderError": lambda S, a: True, "IndexError": lambda S, a: True},
         props="C07 C08", gen=g_sim, trials=300, cost=170)

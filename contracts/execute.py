"""C01-C04: from an order to buy_nb/sell_nb and back: size resolution, records, value."""
from .orders import *
from vectorbt.portfolio.enums import log_dt, order_dt

DT_F = dict(size=Float("fin|nan|+inf|-inf"), price=Float("fin|nan|+inf|-inf"))
PSTATE = NTS(ProcessOrderState, cash=Float("fin|+inf"), position=Float(symnan=True), debt=Float(symnan=True),
             free_cash=Float("fin|+inf|nan"), val_price=Float(symnan=True, inf=True), value=Float(symnan=True, inf=True),
             oidx=Int(0), lidx=Int(0))
ORDER = dict(size=Float("fin|nan|+inf|-inf"), price=Float("fin|nan|+inf|-inf"), size_type=Enum(*range(-1, 7)),
             direction=Enum(-1, 0, 1, 2, 3), fees=Float(symnan=True, inf=True), fixed_fees=Float(symnan=True, inf=True),
             slippage=Float(symnan=True, inf=True), min_size=Float(symnan=True, inf=True),
             max_size=Float(symnan=True, inf=True), size_granularity=Float(symnan=True, inf=True),
             reject_prob=Float(symnan=True, inf=True), lock_cash=Bool(), allow_partial=Bool(), raise_reject=Bool(),
             log=Bool())


def order_spec(**over):
    return NTS(Order, **dict(ORDER, **over))


def z(S, x):
    """Zero up to the tolerance is zero."""
    x = S.f(x)
    return S.name(S.ite(S.close(x, 0.0), S.f(0.0), x))


def snapped_state(S, st):
    cls = ExecuteOrderState
    d = dict(cash=z(S, st.cash), position=z(S, st.position), debt=z(S, st.debt), free_cash=z(S, st.free_cash))
    if S.symbolic:
        from pyvc.values import NT
        return NT("ExecuteOrderState", d)
    return cls(**d)


def exec_pre(S, a):
    st, o = a.state, a.order
    S.require(S.iff(S.isinf(st.cash), S.isinf(st.free_cash)), "infinite cash")
    S.require(S.implies(S.and_(S.lt(st.position, 0.0), S.not_(S.close(st.position, 0.0))),
                        S.and_(S.gt(st.debt, 0.0), S.not_(S.close(st.debt, 0.0)))), "short has debt")
    # rebates and slippage of 100% and more are outside the domain of the property
    S.require(S.not_(S.lt(o.fees, 0.0)), "fees not negative")
    S.require(S.not_(S.lt(o.fixed_fees, 0.0)), "fixed fees not negative")
    S.require(S.not_(S.ge(o.slippage, 1.0)), "slippage below 1")
    S.require(S.implies(S.eq(o.size_type, SizeType.Percent), S.not_(S.isinf(o.size))), "percentage is finite")
    S.require(S.not_(S.isinf(st.value)), "value is not infinite")


def bad_state(S, a):
    """The state execution refuses with an error."""
    st, o = a.state, a.order
    return S.or_(S.isnan(st.position), S.isnan(st.debt), S.isnan(st.free_cash), S.isnan(st.cash),
                 S.lt(z(S, st.cash), 0.0), S.lt(z(S, st.debt), 0.0), S.isinf(st.position), S.isinf(st.debt))


def bad_kind(S, a):
    o = a.order
    pos = z(S, a.state.position)
    return S.or_(S.isinf(o.price), S.le(o.price, 0.0),
                 o.size_type < 0, o.size_type >= len(SizeType), o.direction < 0, o.direction >= len(Direction),
                 S.and_(o.direction == Direction.LongOnly, S.lt(pos, 0.0)),
                 S.and_(o.direction == Direction.ShortOnly, S.gt(pos, 0.0)))


def bad_cost(S, a):
    o = a.order
    return S.or_(S.not_(S.isfin(o.fees)), S.not_(S.isfin(o.fixed_fees)), S.not_(S.isfin(o.slippage)),
                 S.lt(o.slippage, 0.0))


def bad_limit(S, a):
    o = a.order
    return S.or_(S.not_(S.isfin(o.min_size)), S.lt(o.min_size, 0.0), S.isnan(o.max_size), S.le(o.max_size, 0.0),
                 S.isinf(o.size_granularity), S.le(o.size_granularity, 0.0))


def bad_prob(S, a):
    o = a.order
    return S.or_(S.not_(S.isfin(o.reject_prob)), S.lt(o.reject_prob, 0.0), S.gt(o.reject_prob, 1.0))


def bad_valuation(S, a):
    """The valuation the size type needs is not a price."""
    st, o = a.state, a.order
    if o.size_type not in (SizeType.Value, SizeType.TargetValue, SizeType.TargetPercent):
        return False
    v = z(S, st.val_price)
    b = S.or_(S.isinf(v), S.le(v, 0.0))
    if o.size_type == SizeType.TargetPercent:
        w = z(S, st.value)
        b = S.and_(b, S.gt(w, 0.0))
    return b


BAD = dict(state=bad_state, kind=bad_kind, cost=bad_cost, limit=bad_limit, prob=bad_prob)


def invalid(S, a):
    return S.or_(*[f(S, a) for f in BAD.values()], bad_valuation(S, a))


def resolve(S, a):
    """('none', info) or ('order', size, percent): the plain amount an order stands for."""
    st, o = a.state, a.order
    q, t = S.f(o.size), o.size_type
    pos = z(S, st.position)
    if o.direction == Direction.ShortOnly:
        q = -q
    if t == SizeType.Percent:
        if S.split(S.eq(q, 0.0)):
            return "order", S.f(0.0), S.f(0.0)
        up = S.split(S.gt(q, 0.0))
        return "order", (S.inf if up else -S.inf), S.abs(q)
    if t == SizeType.TargetPercent:
        v = z(S, st.value)
        if S.split(S.isnan(v)):
            return "none", OrderStatus.Ignored, OrderStatusInfo.ValueNaN
        if S.split(S.le(v, 0.0)):
            return "none", OrderStatus.Rejected, OrderStatusInfo.ValueZeroNeg
        q = q * v
    if t in (SizeType.Value, SizeType.TargetValue, SizeType.TargetPercent):
        vp = z(S, st.val_price)
        if S.split(S.isnan(vp)):
            return "none", OrderStatus.Ignored, OrderStatusInfo.ValPriceNaN
        q = S.div(q, vp)
    if t in (SizeType.TargetAmount, SizeType.TargetValue, SizeType.TargetPercent):
        q = q - pos
    if o.direction != Direction.LongOnly and S.split(S.isninf(q)):
        return "order", -S.inf, S.f(1.0)
    return "order", q, S.nan


def raise_skip(S):
    from pyvc.engine import PathEnd
    from pyvc.spec import Inconclusive
    raise (PathEnd() if S.symbolic else Inconclusive())


def none_result(S, st, res, st0, status, info, props="C01 C02 C04"):
    S.ensure("unfilled leaves the state", S.eq(st, st0), "C01 C03")
    S.ensure("unfilled has no fill", S.and_(S.isnan(res.size), S.isnan(res.price), S.isnan(res.fees),
                                            S.eq(res.side, -1)), "C01")
    S.ensure("status and reason", S.and_(S.eq(res.status, status), S.eq(res.status_info, info)), "C02 C04")


def exec_post(S, a, r):
    st0 = snapped_state(S, a.state)
    st, res = r[0], r[1]
    o = a.order
    if S.split(S.isnan(o.size)):
        none_result(S, st, res, st0, OrderStatus.Ignored, OrderStatusInfo.SizeNaN)
        S.ensure("nothing executed", len(S.calls) == 0)
        return
    if S.split(S.isnan(o.price)):
        none_result(S, st, res, st0, OrderStatus.Ignored, OrderStatusInfo.PriceNaN)
        S.ensure("nothing executed", len(S.calls) == 0)
        return
    S.ensure("refused when invalid", S.not_(invalid(S, a)), "C02 C03")
    k = resolve(S, a)
    if k[0] == "none":
        none_result(S, st, res, st0, k[1], k[2])
        S.ensure("nothing executed", len(S.calls) == 0)
        return
    _, q, pct = k
    buy = S.split(S.gt(q, 0.0))
    if not S.symbolic and len(S.calls) != 1:
        # executed some other way: judge the outcome itself
        sub = dict(exec_state=st0, size=q if buy else -q, percent=pct, price=o.price, direction=o.direction, fees=o.fees,
                   fixed_fees=o.fixed_fees, slippage=o.slippage, min_size=o.min_size, max_size=o.max_size,
                   size_granularity=o.size_granularity, lock_cash=o.lock_cash, allow_partial=o.allow_partial)
        if res.status_info != OrderStatusInfo.RandomEvent:
            result_post(S, NS_(sub), r, "buy" if buy else "sell")
        return
    S.ensure("executed once", len(S.calls) == 1, "C04")
    name, c, cr = S.calls[0]
    S.ensure("bought when positive, sold otherwise", name == ("buy_nb" if buy else "sell_nb"), "C04 C02")
    S.ensure("resolved size", S.eq(c.size, q if buy else -q), "C04")
    S.ensure("percentage", S.eq(c.percent, pct), "C04")
    S.ensure("state executed on", S.eq(c.exec_state, st0), "C01 C03 C04")
    for f in ("price", "direction", "fees", "fixed_fees", "slippage", "min_size", "max_size", "size_granularity",
              "lock_cash", "allow_partial"):
        S.ensure("passes " + f, S.eq(getattr(c, f), getattr(o, f)), "C02")
    # an execution itself never gives this reason (postcondition of buy_nb and sell_nb)
    if S.split(S.eq(cr[1].status_info, OrderStatusInfo.RandomEvent)):
        raise_skip(S)
    if S.split(S.eq(res.status_info, OrderStatusInfo.RandomEvent)):
        none_result(S, st, res, st0, OrderStatus.Rejected, OrderStatusInfo.RandomEvent)
        S.ensure("random rejection", S.gt(o.reject_prob, 0.0), "C02")
    else:
        S.ensure("state after", S.eq(st, cr[0]), "C01 C03")
        S.ensure("result", S.eq(res, cr[1]), "C01 C02")


class NS_:
    def __init__(self, d):
        self.__dict__.update(d)


def exec_may_raise(S, a):
    o = a.order
    if S.split(S.or_(S.isnan(o.size), S.isnan(o.price))):
        return False
    inv = invalid(S, a)
    if S.split(inv):
        return True
    k = resolve(S, a)
    if k[0] == "none":
        return False
    return S.isinf(k[1])


TYPES = {0: "amount", 1: "value", 2: "percent", 3: "target amount", 4: "target value", 5: "target percent"}


def only(*groups):
    """Everything is in order except, possibly, these groups of fields."""
    def pre(S, a):
        for g, f in BAD.items():
            if g not in groups:
                S.require(S.not_(f(S, a)), g + " in order")
    return pre


FINE = dict(fees=Float(), fixed_fees=Float(), slippage=Float(), min_size=Float(), max_size=Float("fin|+inf"),
            size_granularity=Float(symnan=True), reject_prob=Float(), price=Float("fin|nan"))
FSTATE = dict(cash=Float("fin|+inf"), position=Float(), debt=Float(), free_cash=Float("fin|+inf"),
              val_price=Float(symnan=True, inf=True), value=Float(symnan=True), oidx=Int(0), lidx=Int(0))
WSTATE = dict(FSTATE, cash=Float("fin|nan|+inf"), position=Float("fin|nan"), debt=Float("fin|nan"),
              free_cash=Float("fin|nan|+inf"))


def xcase(name, groups, state, **over):
    return (name, dict(state=NTS(ProcessOrderState, **state), order=order_spec(**dict(FINE, **over))), only(*groups))


EX_CASES = [xcase("%s/%s" % (tn, dn), (), FSTATE, size_type=Const(t), direction=Const(d))
            for t, tn in TYPES.items() for d, dn in ((0, "long"), (1, "short"), (2, "both"))]
PLAIN = dict(size_type=Const(0), direction=Const(2), size=Float("fin|nan"), price=Float("fin|nan"), max_size=Float())
EX_CASES += [
    xcase("unsound state", ("state",), WSTATE, **PLAIN),
    xcase("invalid price", ("kind",), FSTATE, **dict(PLAIN, price=Float("fin|nan|+inf|-inf"))),
    xcase("invalid type", ("kind",), FSTATE, **dict(PLAIN, size_type=Enum(-1, 0, 6))),
    xcase("invalid direction", ("kind",), FSTATE, **dict(PLAIN, direction=Enum(-1, 0, 1, 3))),
    xcase("invalid costs", ("cost",), FSTATE, **dict(PLAIN, **{k: Float(symnan=True, inf=True) for k in
                                                               ("fees", "fixed_fees", "slippage")})),
    xcase("invalid limits", ("limit",), FSTATE, **dict(PLAIN, **{k: Float(symnan=True, inf=True) for k in
                                                                 ("min_size", "max_size", "size_granularity")})),
    xcase("invalid probability", ("prob",), FSTATE, **dict(PLAIN, reject_prob=Float(symnan=True, inf=True))),
]


def g_ps(rng):
    st = g_state(rng)
    vp = pick(rng, 1.0, 2.0, 5.0, 10.0, 12.5, 10.0, math.nan, 0.0)
    val = st.cash + (st.position * vp if st.position else 0.0)
    d = dict(cash=st.cash, position=st.position, debt=st.debt, free_cash=st.free_cash, val_price=vp,
             value=pick(rng, val, val, val, 100.0, math.nan, -1.0, 0.0), oidx=int(rng.integers(0, 3)),
             lidx=int(rng.integers(0, 3)))
    if rng.random() < 0.08:
        k = pick(rng, "cash", "position", "debt", "free_cash")
        d[k] = pick(rng, math.nan, -1.0, 1e-13)
    return ProcessOrderState(**d)


def g_full_order(rng, st):
    d = int(rng.integers(3))
    if rng.random() < 0.9 and (d == 0 and st.position < 0 or d == 1 and st.position > 0):
        d = 2
    t = int(rng.integers(6))
    sgn = pick(rng, 1, 1, -1)
    if t in (0, 3):
        size = pick(rng, 1.0, 2.0, 5.0, 10.0, 100.0, 0.5, 2.5, math.inf, 0.0, abs(st.position), 7.25)
    elif t in (1, 4):
        size = pick(rng, 1.0, 10.0, 50.0, 100.0, 25.0, math.inf, 0.0)
    else:
        size = pick(rng, 0.5, 1.0, 0.25, 2.0, 0.0, 0.125)
    size = sgn * size
    price = pick(rng, 1.0, 2.0, 5.0, 10.0, 12.5, 0.5, 20.0)
    o = dict(size=size, price=price, size_type=t, direction=d, fees=pick(rng, 0.0, 0.0, 0.25, 0.125, 0.0078125),
             fixed_fees=pick(rng, 0.0, 0.0, 1.0, 0.5, 10.0), slippage=pick(rng, 0.0, 0.0, 0.25, 0.5, 0.125),
             min_size=pick(rng, 0.0, 0.0, 0.0, 1.0, 3.0, 7.0), max_size=pick(rng, math.inf, math.inf, 1.0, 3.0, 8.0),
             size_granularity=pick(rng, math.nan, math.nan, math.nan, 1.0, 0.5, 3.0),
             reject_prob=pick(rng, 0.0, 0.0, 0.0, 0.0, 0.0, 0.5), lock_cash=bool(rng.integers(2)),
             allow_partial=bool(rng.random() < 0.8), raise_reject=bool(rng.random() < 0.1), log=bool(rng.integers(2)))
    if rng.random() < 0.15:
        k = pick(rng, "size", "price", "size_type", "direction", "fees", "fixed_fees", "slippage", "min_size", "max_size",
                 "size_granularity", "reject_prob")
        if k in ("size_type", "direction"):
            o[k] = pick(rng, -1, 3, 6)
        else:
            o[k] = pick(rng, math.nan, math.inf, -math.inf, -1.0, 0.0, 1.5, 2.0)
    return Order(**o)


def g_exec(rng):
    st = g_ps(rng)
    return dict(state=st, order=g_full_order(rng, st))


Contract(NB + "execute_order_nb", dict(state=PSTATE, order=order_spec()), pre=exec_pre, post=exec_post,
         raises={"ValueError": exec_may_raise}, returns=RES, opaque=("buy_nb", "sell_nb"), merge=True, props=ORDER_PROPS,
         gen=g_exec, trials=4000, cases=EX_CASES, cost=3)

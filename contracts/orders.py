"""C01-C04: order execution. Postconditions of buy_nb, sell_nb, execute_order_nb, process_order_nb and the record fillers."""
from .common import *
from vectorbt.portfolio import enums as E
from vectorbt.portfolio.enums import (ExecuteOrderState, ProcessOrderState, OrderResult, Order, OrderStatus,
                                      OrderStatusInfo, OrderSide, Direction, SizeType)

NB = "vectorbt.portfolio.nb:"
FILLED, IGNORED, REJECTED = OrderStatus.Filled, OrderStatus.Ignored, OrderStatus.Rejected


# ----------------------------------------------------------------------------------------------- vocabulary
def near_sum(S, x, a, b):
    """x is a + b, or zero when the two cancel up to the tolerance."""
    a, b = S.f(a), S.f(b)
    return S.or_(S.eq(x, a + b), S.and_(S.eq(x, 0.0), S.or_(S.close(a, -b), S.close(a + b, 0.0))))


def snapped(S, x, y):
    """x is y, or zero when y is zero up to the tolerance."""
    return S.or_(S.eq(x, y), S.and_(S.eq(x, 0.0), S.close(y, 0.0)))


def gran(S, x, g):
    """x rounded down to a multiple of g, characterised (not computed)."""
    raise NotImplementedError


def state_pre(S, st):
    S.require(S.ge(st.cash, 0.0), "cash>=0")
    S.require(S.ge(st.debt, 0.0), "debt>=0")
    S.require(S.iff(S.isinf(st.cash), S.isinf(st.free_cash)), "infinite cash")


def order_pre(S, a, side):
    state_pre(S, a.exec_state)
    pos = a.exec_state.position
    S.require(S.gt(a.price, 0.0), "price>0")
    S.require(S.gt(a.size, 0.0) if side == "buy" else S.ge(a.size, 0.0), "size")
    S.require(S.ge(a.fees, 0.0), "fees>=0")
    S.require(S.ge(a.fixed_fees, 0.0), "fixed_fees>=0")
    S.require(S.ge(a.slippage, 0.0), "slippage>=0")
    if side == "sell":
        S.require(S.lt(a.slippage, 1.0), "slippage<1")
    S.require(S.ge(a.min_size, 0.0), "min_size>=0")
    S.require(S.gt(a.max_size, 0.0), "max_size>0")
    S.require(S.or_(S.isnan(a.size_granularity), S.gt(a.size_granularity, 0.0)), "granularity>0")
    S.require(S.or_(S.isnan(a.percent), S.and_(S.isinf(a.size), S.gt(a.percent, 0.0)),
                    False if side == "buy" else S.and_(S.eq(a.size, 0.0), S.eq(a.percent, 0.0))), "percent")
    S.require(S.implies(S.eq(a.direction, Direction.LongOnly), S.ge(pos, 0.0)), "long only")
    S.require(S.implies(S.eq(a.direction, Direction.ShortOnly), S.le(pos, 0.0)), "short only")
    # a short position carries the debt it was opened with
    S.require(S.implies(S.lt(pos, 0.0), S.gt(a.exec_state.debt, 0.0)), "short has debt")


STATE = NTS(ExecuteOrderState, cash=Float("fin|+inf"), position=Float(), debt=Float(), free_cash=Float("fin|+inf"))


def order_params(**over):
    d = dict(exec_state=STATE, size=Float("fin|+inf"), price=Float(), direction=Enum(0, 1, 2), fees=Float(),
             fixed_fees=Float(), slippage=Float(), min_size=Float(), max_size=Float("fin|+inf"),
             size_granularity=Float("fin|nan"), lock_cash=Bool(split=True), allow_partial=Bool(),
             percent=Float("fin|nan"))
    d.update(over)
    return d


CASES = [("%s/%s" % (dn, ln), dict(direction=Const(d), lock_cash=Const(l)))
         for d, dn in ((0, "long"), (1, "short"), (2, "both")) for l, ln in ((False, "free"), (True, "lock"))]


def unfilled(S, a, st, res, size=None):
    S.ensure("unfilled leaves the state", S.eq(st, a.exec_state), "C01 C03")
    S.ensure("unfilled has no fill", S.and_(S.isnan(res.size), S.isnan(res.price), S.isnan(res.fees),
                                            S.eq(res.side, -1)), "C01")
    S.ensure("unfilled states a reason", S.and_(S.or_(S.eq(res.status, IGNORED), S.eq(res.status, REJECTED)),
                                                S.between(0, res.status_info, len(OrderStatusInfo)),
                                                S.not_(S.eq(res.status_info, OrderStatusInfo.RandomEvent))), "C02")


def result_post(S, a, r, side):
    st, res = r[0], r[1]
    st0 = a.exec_state
    if not S.split(S.eq(res.status, FILLED)):
        unfilled(S, a, st, res)
        not_filled_reasons(S, a, res, side)
        return
    pos = st0.position
    size, price, fees = res.size, res.price, res.fees
    value = size * price
    buy = side == "buy"
    # ---- C02: limits
    S.ensure("side", S.eq(res.side, OrderSide.Buy if buy else OrderSide.Sell), "C01 C02")
    S.ensure("no failure reason on a fill", S.eq(res.status_info, -1), "C02")
    S.ensure("size>0", S.gt(size, 0.0), "C02")
    S.ensure("size<=requested", S.le(size, a.size), "C02")
    S.ensure("size<=max", S.le(size, a.max_size), "C02")
    S.ensure("size>=min", S.or_(S.ge(size, a.min_size), S.close(size, a.min_size)), "C02")
    if not S.split(S.isnan(a.size_granularity)):
        S.ensure("granularity", S.is_multiple(size, a.size_granularity), "C02")
    S.ensure("no partial fill", S.implies(S.and_(S.not_(a.allow_partial), S.isfin(a.size)),
                                          S.or_(S.ge(size, a.size), S.close(size, a.size))), "C02")
    slip = S.f(1.0) + a.slippage if buy else S.f(1.0) - a.slippage
    S.ensure("price", S.eq(price, a.price * slip), "C02")
    S.ensure("fees", S.eq(fees, value * a.fees + a.fixed_fees), "C02")
    if a.direction == Direction.LongOnly:
        S.ensure("long only", S.ge(st.position, 0.0), "C02")
    if a.direction == Direction.ShortOnly:
        S.ensure("short only", S.le(st.position, 0.0), "C02")
    # ---- C01: accounting
    cash_flow = -(value + fees) if buy else value - fees
    S.ensure("cash", near_sum(S, st.cash, st0.cash, cash_flow) if buy else
             S.eq(st.cash, st0.cash + S.ite(S.close(value, fees), S.f(0.0), cash_flow)), "C01")
    S.ensure("position", near_sum(S, st.position, pos, size if buy else -size), "C01 C04")
    if buy:
        if S.split(S.lt(pos, 0.0)):
            if S.split(S.ge(size, -pos)):
                ddebt = st0.debt
            elif S.split(S.eq(st.position, 0.0)):
                ddebt = st0.debt  # covered up to the tolerance
            else:
                ddebt = S.div(st0.debt, -pos) * size
            S.ensure("debt", near_sum(S, st.debt, st0.debt, -ddebt), "C01")
            S.ensure("debt cleared", S.implies(S.ge(size, -pos), S.eq(st.debt, 0.0)), "C03")
            S.ensure("free cash", near_sum(S, st.free_cash, st0.free_cash + S.f(2.0) * ddebt, cash_flow), "C01")
        else:
            S.ensure("debt", S.eq(st.debt, st0.debt), "C01")
            S.ensure("free cash", near_sum(S, st.free_cash, st0.free_cash, cash_flow), "C01")
    else:
        cf = S.ite(S.close(value, fees), S.f(0.0), cash_flow)
        if S.split(S.lt(st.position, 0.0)):
            borrowed = size if S.split(S.lt(pos, 0.0)) else -st.position
            S.ensure("debt", S.eq(st.debt, st0.debt + borrowed * price), "C01")
            locked = S.f(2.0) * (borrowed * price)
            S.ensure("free cash", S.or_(near_sum(S, st.free_cash, st0.free_cash, cf - locked),
                                        S.and_(S.close(cf, locked), snapped(S, st.free_cash, st0.free_cash))), "C01")
        else:
            S.ensure("debt", S.eq(st.debt, st0.debt), "C01")
            S.ensure("free cash", S.eq(st.free_cash, st0.free_cash + cf), "C01")
    # ---- C03: solvency
    S.ensure("cash>=0", S.ge(st.cash, 0.0), "C03")
    S.ensure("debt>=0", S.ge(st.debt, 0.0), "C03")
    S.ensure("defined state", S.and_(S.isfin(st.position), S.isfin(st.debt), S.not_(S.isnan(st.cash)),
                                     S.not_(S.isnan(st.free_cash))), "C03")
    S.ensure("long account", S.implies(S.and_(S.eq(st0.debt, 0.0), S.eq(st.debt, 0.0), S.eq(st0.cash, st0.free_cash)),
                                       S.eq(st.cash, st.free_cash)), "C03")
    if a.lock_cash:
        opens = S.gt(st.position, 0.0) if buy else S.lt(st.position, 0.0)
        # not below zero, up to what the tolerance of the additions can contribute
        scale = value + fees + st0.free_cash + S.f(2.0) * st0.debt
        if buy and S.split(S.lt(pos, 0.0)):
            # an order that costs no more than covering the position does not open another one
            cover = -pos * price * (S.f(1.0) + a.fees) + a.fixed_fees
            opens = S.gt(value + fees, cover * S.f(1 + 1e-8) + S.f(1e-11))
        if not buy:
            S.ensure("sold within resources", sold_within(S, st0, price, a.fees, a.fixed_fees, size), "C03", lemma=True)
        S.ensure("locked cash", S.implies(S.and_(S.ge(st0.free_cash, 0.0), opens),
                                          S.ge(st.free_cash, scale * S.f(-1e-8))), "C03")
    fill_extent(S, a, st, res, side)


def buy_cash_limit(S, a):
    """Cash the order may spend, where no short position has to be covered with locked cash; None otherwise."""
    st0 = a.exec_state
    if a.lock_cash:
        if S.split(S.lt(st0.position, 0.0)):
            return None
        lim = S.min(st0.free_cash, st0.cash)
    else:
        lim = st0.cash
    if not S.split(S.isnan(a.percent)):
        lim = S.min(lim, a.percent * lim)
    return lim


def requested(S, a, side):
    """Size wanted before cash is considered (None: not determined here)."""
    if side == "buy":
        q = a.size
        if a.direction == Direction.ShortOnly:
            q = S.min(-a.exec_state.position, q)
    else:
        if a.lock_cash and a.direction != Direction.LongOnly:
            return None
        q = a.size
        if a.direction == Direction.LongOnly:
            q = S.min(a.exec_state.position, q)
            if not S.split(S.isnan(a.percent)):
                q = S.min(q * a.percent, a.exec_state.position)
        elif S.split(S.isinf(a.size)):
            return None
    return S.min(q, a.max_size)


def fill_extent(S, a, st, res, side):
    """A fill is as large as cash and limits permit."""
    q = requested(S, a, side)
    if q is None:
        return
    g = a.size_granularity
    has_g = not S.split(S.isnan(g))
    if side == "sell":
        if has_g:
            S.ensure("full up to granularity", S.lt(q, res.size + g), "C02 C04")
        else:
            S.ensure("full size", S.eq(res.size, q), "C02 C04")
        return
    lim = buy_cash_limit(S, a)
    if lim is None:
        return
    total = res.size * res.price + res.fees
    S.ensure("within cash limit", S.or_(S.le(total, lim), S.close(total, lim)), "C02 C03 C04")
    if has_g:
        nxt = res.size + g
        more = nxt * res.price * (S.f(1.0) + a.fees) + a.fixed_fees
        S.ensure("full up to granularity", S.or_(S.lt(q, nxt), S.gt(more, lim)), "C02 C04")
    else:
        S.ensure("full or all cash", S.or_(S.eq(res.size, q), S.eq(total, lim)), "C02 C04")


def not_filled_reasons(S, a, res, side):
    """Why an order may go unfilled."""
    st0 = a.exec_state
    info = res.status_info
    I = OrderStatusInfo
    pos = st0.position
    rej = S.eq(res.status, REJECTED)
    P = "C02"
    if S.split(S.eq(info, I.NoCashLong)):
        lim = buy_cash_limit(S, a) if side == "buy" else None
        S.ensure("reason NoCashLong", S.and_(side == "buy", rej, a.direction != Direction.ShortOnly,
                                             True if lim is None else S.eq(lim, 0.0)), P)
    elif S.split(S.eq(info, I.NoOpenPosition)):
        S.ensure("reason NoOpenPosition", S.and_(S.eq(pos, 0.0), rej, a.direction == (
            Direction.ShortOnly if side == "buy" else Direction.LongOnly)), P)
    elif S.split(S.eq(info, I.SizeZero)):
        q = requested(S, a, side)
        if q is not None:
            g = a.size_granularity
            zero = S.close(q, 0.0)
            if not S.split(S.isnan(g)):
                zero = S.or_(zero, S.lt(q, g), S.close(g, 0.0))
                if side == "buy":
                    lim = buy_cash_limit(S, a)
                    if lim is not None:
                        slip = S.f(1.0) + a.slippage
                        zero = S.or_(zero, S.gt(g * (a.price * slip) * (S.f(1.0) + a.fees) + a.fixed_fees, lim))
                    else:
                        zero = True
            elif side == "buy":
                zero = S.or_(zero, True)
            S.ensure("reason SizeZero", S.and_(S.eq(res.status, IGNORED), zero), P)
    elif S.split(S.eq(info, I.MaxSizeExceeded)):
        S.ensure("reason MaxSizeExceeded", S.and_(rej, S.not_(a.allow_partial), S.ge(a.size, a.max_size)), P)
    elif S.split(S.eq(info, I.CantCoverFees)):
        lim = buy_cash_limit(S, a) if side == "buy" else None
        if side == "buy" and lim is not None:
            S.ensure("reason CantCoverFees", S.and_(rej, S.or_(S.le(lim, a.fixed_fees), S.close(lim, a.fixed_fees))), P)
        else:
            S.ensure("reason CantCoverFees", rej, P)
    elif S.split(S.eq(info, I.MinSizeNotReached)):
        q = requested(S, a, side)
        S.ensure("reason MinSizeNotReached", S.and_(rej, True if q is None else S.gt(a.min_size, 0.0)), P)
        if side == "sell" and q is not None and S.split(S.isnan(a.size_granularity)):
            S.ensure("reason MinSizeNotReached", S.lt(q, a.min_size), P)
    elif S.split(S.eq(info, I.PartialFill)):
        S.ensure("reason PartialFill", S.and_(rej, S.not_(a.allow_partial), S.isfin(a.size)), P)
        q = requested(S, a, side)
        if side == "sell" and q is not None and S.split(S.isnan(a.size_granularity)):
            S.ensure("reason PartialFill", S.lt(q, a.size), P)
    else:
        S.ensure("reason NoCashShort", S.and_(rej, S.eq(info, I.NoCashShort), side == "sell", S.le(pos, 0.0)), P)


ABS_F = 1e-11


# ----------------------------------------------------------------------------------------------- generators
def g_state(rng):
    r = rng.random()
    cash = float(rng.choice([0.0, 1.0, 5.0, 10.0, 50.0, 100.0, 100.0, 1000.0, 12.5, 7.25]))
    pos = float(rng.choice([0.0, 0.0, 1.0, 5.0, 10.0, -1.0, -5.0, -10.0, 2.5, -2.5]))
    debt = 0.0
    if pos < 0:
        debt = -pos * float(rng.choice([1.0, 2.0, 5.0, 10.0, 12.5]))
    elif rng.random() < 0.1:
        debt = float(rng.choice([0.0, 10.0]))
    free = cash - 2 * debt if rng.random() < 0.7 else cash * float(rng.choice([0, 0.5, 1, 1]))
    if r < 0.05:
        cash = free = math.inf
    return ExecuteOrderState(cash=cash, position=pos, debt=debt, free_cash=free)


def g_order(side):
    def g(rng):
        st = g_state(rng)
        d = int(rng.integers(3))
        if d == 0 and st.position < 0 or d == 1 and st.position > 0:
            d = 2
        size = pick(rng, 1.0, 2.0, 5.0, 10.0, 100.0, 0.5, 2.5, 7.25, math.inf, math.inf, abs(st.position) or 1.0,
                    abs(st.position) + 1)
        if side == "sell" and rng.random() < 0.1:
            size = 0.0
        pct = math.nan
        if size == math.inf and rng.random() < 0.5:
            pct = pick(rng, 0.5, 1.0, 0.25, 2.0, 0.0)
        return dict(exec_state=st, size=size, price=pick(rng, 1.0, 2.0, 5.0, 10.0, 12.5, 0.5, 20.0), direction=d,
                    fees=pick(rng, 0.0, 0.0, 0.25, 0.125, 0.0078125), fixed_fees=pick(rng, 0.0, 0.0, 1.0, 0.5, 10.0),
                    slippage=pick(rng, 0.0, 0.0, 0.25, 0.5, 0.125), min_size=pick(rng, 0.0, 0.0, 1.0, 3.0, 7.0),
                    max_size=pick(rng, math.inf, math.inf, 1.0, 3.0, 8.0), size_granularity=pick(
                        rng, math.nan, math.nan, 1.0, 0.5, 3.0), lock_cash=bool(rng.integers(2)),
                    allow_partial=bool(rng.integers(2)), percent=pct)
    return g


def unit_of(S, v, sign):
    """Price per share after slippage."""
    if v.has("adj_price"):
        return v.adj_price
    return v.price * (S.f(1.0) + v.slippage if sign > 0 else S.f(1.0) - v.slippage)


def price_cut(sign):
    def fn(S, v):
        S.ensure("slippage", S.eq(v.adj_price, v.price * (S.f(1.0) + v.slippage if sign > 0 else S.f(1.0) - v.slippage)))
        S.ensure("positive", S.gt(v.adj_price, 0.0))
    return Cut("adj_price", Float(), fn)


def buy_cash_cut(S, v):
    """What the code after the cash limit may rely on."""
    st, lim = v.exec_state, v.cash_limit
    S.ensure("kind", S.iff(S.isinf(lim), S.isinf(st.cash)))
    S.ensure("not above cash", S.le(lim, st.cash))
    want = buy_cash_limit(S, v)
    if want is not None:
        S.ensure("cash limit", S.eq(lim, want))
    else:
        unit = unit_of(S, v, 1)
        cover = -st.position * unit * (S.f(1.0) + v.fees) + v.fixed_fees
        S.ensure("leaves free cash or covers only", S.or_(S.le(lim, st.free_cash + S.f(2.0) * st.debt),
                                                          S.le(lim, cover)))


def short_capacity(S, v, check):
    """check(M) for the largest size that can be sold (closing the long position and shorting with all free cash)."""
    st = v.exec_state
    unit = unit_of(S, v, -1)
    held = S.ite(S.ge(st.position, 0.0), st.position, S.f(0.0))
    if S.symbolic:
        held = st.position if S.split(S.ge(st.position, 0.0)) else S.f(0.0)
    total = snap_add(S, st.free_cash, held * unit * (S.f(1.0) - v.fees))
    more = snap_add(S, held, S.div(snap_add(S, total, -v.fixed_fees), unit * (S.f(1.0) + v.fees)))
    return S.or_(S.and_(S.le(total, 0.0), check(held)), S.and_(S.gt(total, 0.0), check(more)))


def sold_within(S, st, unit, fees, fixed, size):
    """Selling this much needs no more than the free cash and the value of the long position."""
    held = st.position if S.split(S.ge(st.position, 0.0)) else S.f(0.0)
    return S.or_(S.le(size, held), S.le((size - held) * unit * (S.f(1.0) + fees) + fixed,
                                        st.free_cash + held * unit * (S.f(1.0) - fees)))


def sell_size_cut(S, v):
    st, lim, size = v.exec_state, v.size_limit, v.size
    pct = v.old.percent
    if v.direction == Direction.LongOnly:
        S.ensure("size limit", S.eq(lim, S.min(st.position, size)))
        return
    if S.split(S.isnan(pct)):
        wish = size
    elif S.split(S.isinf(size)):
        wish = None
    else:
        wish = pct * size if v.lock_cash else size
    # (in terms of the capacity formula; what follows needs only the clauses that are not hidden)
    proving = not S.symbolic or S.mode == "prove"
    if v.lock_cash:
        S.ensure("not negative", S.ge(lim, 0.0))
        S.ensure("within resources", sold_within(S, st, unit_of(S, v, -1), v.fees, v.fixed_fees, lim))
        if wish is not None:
            S.ensure("within request", S.le(lim, wish))
        if proving and wish is not None:
            S.ensure("within capacity", short_capacity(S, v, lambda m: S.le(lim, m)))
            S.ensure("request or capacity", S.or_(S.eq(lim, wish), short_capacity(S, v, lambda m: S.eq(lim, m))))
        elif proving:
            S.ensure("share of capacity", short_capacity(S, v, lambda m: S.eq(lim, S.min(m, pct * m))))
    elif wish is None:
        if proving:
            S.ensure("capacity", short_capacity(S, v, lambda m: S.eq(lim, m)))
    else:
        S.ensure("size limit", S.eq(lim, wish))


def percent_after(v):
    import math as _m
    if v.direction == Direction.LongOnly or not v.lock_cash:
        return v.percent
    return NAN


RES = Tup(NTS(ExecuteOrderState, cash=Float("fin|+inf"), position=Float(), debt=Float(), free_cash=Float("fin|+inf")),
          NTS(OrderResult, size=Float(symnan=True), price=Float(symnan=True), fees=Float(symnan=True), side=Int(-1, 1),
              status=SymEnum(0, 2), status_info=SymEnum(-1, len(OrderStatusInfo) - 1)))

Contract(NB + "buy_nb", order_params(), pre=lambda S, a: order_pre(S, a, "buy"),
         post=lambda S, a, r: result_post(S, a, r, "buy"),
         raises={"ValueError": lambda S, a: S.and_(S.isinf(a.size), S.isinf(a.exec_state.cash))},
         cuts=[price_cut(1), Cut("cash_limit", Float("fin|+inf"), buy_cash_cut)],
         returns=RES, props=ORDER_PROPS, gen=g_order("buy"), trials=3000, max_paths=6000, cases=CASES, cost=10)
Contract(NB + "sell_nb", order_params(), pre=lambda S, a: order_pre(S, a, "sell"),
         post=lambda S, a, r: result_post(S, a, r, "sell"),
         raises={"ValueError": lambda S, a: S.and_(S.isinf(a.size), a.direction != Direction.LongOnly)},
         cuts=[price_cut(-1), Cut("size_limit", Float("fin|+inf"), sell_size_cut, count=1, assigns={"percent": percent_after})],
         returns=RES, props=ORDER_PROPS, gen=g_order("sell"), trials=3000, max_paths=6000, cases=CASES, cost=10)

"""C01, C02, C04, C07: records and value around one executed order; order constructors; approximate order values."""
from .execute import *
from vectorbt.portfolio.enums import log_dt, order_dt, NoOrder

ANYF = Float(symnan=True, inf=True)
RESULT = NTS(OrderResult, size=ANYF, price=ANYF, fees=ANYF, side=Int(-1, 1), status=Int(-1, 2), status_info=Int(-1, 13))
ANY_ORDER = NTS(Order, size=ANYF, price=ANYF, size_type=Int(-1, 7), direction=Int(-1, 3), fees=ANYF, fixed_fees=ANYF,
                slippage=ANYF, min_size=ANYF, max_size=ANYF, size_granularity=ANYF, reject_prob=ANYF, lock_cash=Bool(),
                allow_partial=Bool(), raise_reject=Bool(), log=Bool())


def g_result(rng):
    if rng.random() < 0.3:
        return OrderResult(math.nan, math.nan, math.nan, -1, int(rng.integers(1, 3)), int(rng.integers(0, 14)))
    return OrderResult(pick(rng, 1.0, 2.5, 3.0), pick(rng, 1.0, 7.5), pick(rng, 0.0, 1.25), int(rng.integers(2)), 0, -1)


def order_record(S, r, id_, i, col, res):
    return S.and_(S.eq(r["id"], id_), S.eq(r["col"], col), S.eq(r["idx"], i), S.eq(r["size"], res.size),
                  S.eq(r["price"], res.price), S.eq(r["fees"], res.fees), S.eq(r["side"], res.side))


def fill_order_post(S, a, r):
    S.ensure("order record states the fill", order_record(S, a.record, a.record_id, a.i, a.col, a.order_result), "C01 C07")


Contract(NB + "fill_order_record_nb", dict(record=RecRef_(order_dt, inf=True), record_id=Int(0), i=Int(0), col=Int(0),
                                           order_result=RESULT), post=fill_order_post, modifies=("record",), inline=True,
         props="C01 C07", gen=lambda rng: dict(record=np.zeros(1, order_dt)[0:1][0], record_id=int(rng.integers(9)),
                                               i=int(rng.integers(9)), col=int(rng.integers(9)), order_result=g_result(rng)),
         trials=200)

LOG_ARGS = ["record_id", "i", "col", "group", "cash", "position", "debt", "free_cash", "val_price", "value", "order",
            "new_cash", "new_position", "new_debt", "new_free_cash", "new_val_price", "new_value", "order_result", "order_id"]


def log_record(S, r, a):
    o, res = a.order, a.order_result
    c = [S.eq(r["id"], a.record_id), S.eq(r["idx"], a.i), S.eq(r["col"], a.col), S.eq(r["group"], a.group),
         S.eq(r["order_id"], a.order_id)]
    for f in ("cash", "position", "debt", "free_cash", "val_price", "value"):
        c += [S.eq(r[f], getattr(a, f)), S.eq(r["new_" + f], getattr(a, "new_" + f))]
    for f in ("size", "price", "size_type", "direction", "fees", "fixed_fees", "slippage", "min_size", "max_size",
              "size_granularity", "reject_prob"):
        c.append(S.eq(r["req_" + f], getattr(o, f)))
    for f in ("lock_cash", "allow_partial", "raise_reject", "log"):
        c.append(S.iff(r["req_" + f], getattr(o, f)) if S.symbolic else bool(r["req_" + f]) == bool(getattr(o, f)))
    for f in ("size", "price", "fees", "side", "status", "status_info"):
        c.append(S.eq(r["res_" + f], getattr(res, f)))
    return c


def fill_log_post(S, a, r):
    for k, c in enumerate(log_record(S, a.record, a)):
        S.ensure("log record field %d" % k, c, "C01")


def g_log(rng):
    d = {k: pick(rng, 0.0, 1.0, -2.5, 100.0, math.nan) if k.split("_")[-1] in ("cash", "position", "debt", "price", "value")
         else int(rng.integers(9)) for k in LOG_ARGS}
    d["order"] = g_full_order(rng, g_state(rng))
    d["order_result"] = g_result(rng)
    return dict(d, record=np.zeros(1, log_dt)[0:1][0])


Contract(NB + "fill_log_record_nb",
         dict(record=RecRef_(log_dt, inf=True), record_id=Int(0), i=Int(0), col=Int(0), group=Int(0),
              **{k: ANYF for k in ("cash", "position", "debt", "free_cash", "val_price", "value")}, order=ANY_ORDER,
              **{"new_" + k: ANYF for k in ("cash", "position", "debt", "free_cash", "val_price", "value")},
              order_result=RESULT, order_id=Int(-1)),
         post=fill_log_post, modifies=("record",), inline=True, props="C01", gen=g_log, trials=200)


def new_value(S, a):
    """Cash flow plus the change of the asset value, at the fill price."""
    before = S.ite(S.eq(a.position_before, 0.0), S.f(0.0), a.position_before * a.val_price_before)
    now = S.ite(S.eq(a.position_now, 0.0), S.f(0.0), a.position_now * a.price)
    return S.f(a.value_before) + (S.f(a.cash_now) - a.cash_before) + (now - before)


def update_value_post(S, a, r):
    S.ensure("valued at the fill price", S.eq(r[0], a.price), "C01")
    S.ensure("value moves with cash flow and assets", S.eq(r[1], new_value(S, a)), "C01")


VALUE_ARGS = ("cash_before", "cash_now", "position_before", "position_now", "val_price_before", "price", "value_before")
Contract(NB + "update_value_nb", {k: Float(symnan=k in ("val_price_before", "value_before")) for k in VALUE_ARGS},
         post=update_value_post, merge=True, inline=True, props="C01", trials=400)


def process_post(S, a, r):
    res, st = r[0], r[1]
    st0, o = a.state, a.order
    S.ensure("executed once", len(S.calls) == 1)
    if not S.symbolic and len(S.calls) != 1:
        return
    _, c, (es, eres) = S.calls[0]
    S.ensure("executes this order", S.and_(S.eq(c.order, o), S.eq(c.state, st0)), "C01 C04 C07")
    S.ensure("returns its result", S.eq(res, eres), "C01 C02")
    for f in ("cash", "position", "debt", "free_cash"):
        S.ensure("new " + f, S.eq(getattr(st, f), getattr(es, f)), "C01 C03")
    rej = S.and_(S.eq(eres.status, REJECTED), o.raise_reject)
    S.ensure("raised when rejected", S.not_(rej), "C02")
    filled = S.split(S.eq(eres.status, FILLED))
    if filled and S.split(a.update_value):
        v = NS_(dict(cash_before=st0.cash, cash_now=es.cash, position_before=st0.position, position_now=es.position,
                     val_price_before=st0.val_price, price=eres.price, value_before=st0.value))
        S.ensure("valued at the fill price", S.eq(st.val_price, eres.price), "C01")
        S.ensure("value moves with cash flow and assets", S.eq(st.value, new_value(S, v)), "C01")
    else:
        S.ensure("valuation unchanged", S.and_(S.eq(st.val_price, st0.val_price), S.eq(st.value, st0.value)), "C01")
    n, m = S.len(a.order_records), S.len(a.log_records)
    old_o, old_l = a.old.order_records, a.old.log_records

    def untouched(rs, old, n, dt, but):
        return S.forall(0, n, lambda k: S.implies(True if but is None else S.not_(S.eq(k, but)), S.and_(*[
            S.eq(rs[f][k], old[f][k]) for f in dt.names])))
    if filled:
        S.ensure("room for the record", S.lt(st0.oidx, n), "C01 C07")
        S.ensure("order record", order_record(S, a.order_records[st0.oidx], st0.oidx, a.i, a.col, eres), "C01 C07")
        S.ensure("next order number", S.eq(st.oidx, st0.oidx + 1), "C01 C07")
        S.ensure("other records kept", untouched(a.order_records, old_o, n, order_dt, st0.oidx), "C01 C07")
    else:
        S.ensure("same order number", S.eq(st.oidx, st0.oidx), "C01 C07")
        S.ensure("records kept", untouched(a.order_records, old_o, n, order_dt, None), "C01 C07")
    if S.split(o.log):
        S.ensure("room for the log", S.lt(st0.lidx, m), "C01")
        d = dict(record_id=st0.lidx, i=a.i, col=a.col, group=a.group, order=o, order_result=eres,
                 order_id=st0.oidx if filled else -1)
        for f in ("cash", "position", "debt", "free_cash", "val_price", "value"):
            d[f], d["new_" + f] = getattr(st0, f), getattr(st, f)
        for k, c in enumerate(log_record(S, a.log_records[st0.lidx], NS_(d))):
            S.ensure("log record field %d" % k, c, "C01")
        S.ensure("next log number", S.eq(st.lidx, st0.lidx + 1), "C01")
        S.ensure("other logs kept", untouched(a.log_records, old_l, m, log_dt, st0.lidx), "C01")
    else:
        S.ensure("same log number", S.eq(st.lidx, st0.lidx), "C01")
        S.ensure("logs kept", untouched(a.log_records, old_l, m, log_dt, None), "C01")


def process_rejects(S, a):
    if S.calls:
        _, c, (es, eres) = S.calls[0]
        return S.and_(S.eq(eres.status, REJECTED), a.order.raise_reject)
    return not S.symbolic


def process_full(S, a):
    if not S.calls:
        return True
    _, c, (es, eres) = S.calls[0]
    full_o = S.and_(S.eq(eres.status, FILLED), S.ge(a.state.oidx, S.len(a.order_records)))
    return S.or_(full_o, S.and_(a.order.log, S.ge(a.state.lidx, S.len(a.log_records))))


def process_pre(S, a):
    exec_pre(S, a)
    S.require(S.ge(a.state.oidx, 0), "order number")
    S.require(S.ge(a.state.lidx, 0), "log number")


def g_process(rng):
    d = g_exec(rng)
    n = int(rng.integers(0, 4))
    return dict(i=int(rng.integers(5)), col=int(rng.integers(3)), group=int(rng.integers(2)), state=d["state"],
                update_value=bool(rng.integers(2)), order=d["order"], order_records=np.zeros(n, order_dt),
                log_records=np.zeros(int(rng.integers(0, 4)), log_dt))


def raised_by_execute(S, a):
    return True     # the exceptions of execute_order_nb, specified there


PNF = Float("fin")
Contract(NB + "process_order_nb",
         dict(i=Int(0), col=Int(0), group=Int(0),
              state=NTS(ProcessOrderState, cash=PNF, position=PNF, debt=PNF, free_cash=PNF, val_price=Float(symnan=True),
                        value=Float(symnan=True), oidx=Int(0), lidx=Int(0)),
              update_value=Bool(), order=ANY_ORDER, order_records=RecArr_(order_dt, "n", inf=True),
              log_records=RecArr_(log_dt, "m", inf=True)),
         pre=process_pre, post=process_post, opaque=("execute_order_nb!",), modifies=("order_records", "log_records"),
         raises={"ValueError": raised_by_execute, "RejectedOrderError": process_rejects, "IndexError": process_full},
         props="C01 C02 C03 C04 C07", gen=g_process, trials=2000)


# ---------------------------------------------------------------------------------------------- orders and values
def order_fields(S, r, a, **over):
    for f in Order._fields:
        want = over.get(f, getattr(a, f, None))
        x = getattr(r, f)
        S.ensure("order " + f, (S.iff(x, want) if S.symbolic else bool(x) == bool(want)) if f in (
            "lock_cash", "allow_partial", "raise_reject", "log") else S.eq(x, want), "C04 C07")


def order_nb_post(S, a, r):
    order_fields(S, r, a)


ORDER_ARGS = dict(size=ANYF, price=ANYF, size_type=Int(-1, 6), direction=Int(-1, 3), fees=ANYF, fixed_fees=ANYF,
                  slippage=ANYF, min_size=ANYF, max_size=ANYF, size_granularity=ANYF, reject_prob=ANYF, lock_cash=Bool(),
                  allow_partial=Bool(), raise_reject=Bool(), log=Bool())
Contract(NB + "order_nb", ORDER_ARGS, post=order_nb_post, inline=True, props="C04 C07", trials=200,
         gen=lambda rng: g_full_order(rng, g_state(rng))._asdict())
Contract(NB + "close_position_nb", {k: v for k, v in ORDER_ARGS.items() if k not in ("size", "size_type", "direction")},
         post=lambda S, a, r: order_fields(S, r, a, size=0.0, size_type=SizeType.TargetAmount, direction=Direction.Both),
         inline=True, props="C04", trials=200,
         gen=lambda rng: {k: v for k, v in g_full_order(rng, g_state(rng))._asdict().items()
                          if k not in ("size", "size_type", "direction")})


def g_inf_price(rng):
    o = g_full_order(rng, g_state(rng))
    return dict(prev_close=pick(rng, 1.0, 2.0, math.nan), close=pick(rng, 3.0, 4.0, math.nan),
                order=o._replace(price=pick(rng, math.inf, -math.inf)))


Contract(NB + "replace_inf_price_nb", dict(prev_close=Float(symnan=True), close=Float(symnan=True),
                                           order=NTS(Order, **dict(ORDER_ARGS, price=Float("+inf|-inf")))),
         post=lambda S, a, r: order_fields(S, r, a.order, price=S.ite(S.gt(a.order.price, 0.0), S.f(a.close), S.f(a.prev_close))),
         inline=True, props="C07", gen=g_inf_price, trials=200)


def approx_spec(S, a):
    """Value of the resolved amount at the valuation price."""
    q = -S.f(a.size) if a.direction == Direction.ShortOnly else S.f(a.size)
    pos, vp = S.f(a.position_now), S.f(a.val_price_now)
    t = a.size_type
    if t == SizeType.Amount:
        return q * vp
    if t == SizeType.Value:
        return q
    if t == SizeType.TargetAmount:
        return (q - pos) * vp
    if t == SizeType.TargetValue:
        return (S.div(q, vp) - pos) * vp
    if t == SizeType.TargetPercent:
        return (S.div(q * a.value_now, vp) - pos) * vp
    if S.split(S.ge(q, 0.0)):
        return q * a.cash_now
    if a.direction == Direction.LongOnly:
        return q * pos * vp
    # shorting: sell what is open and reuse what it and free cash bring
    return q * (S.f(2.0) * S.max(pos * vp, S.f(0.0)) + S.max(S.f(a.free_cash_now), S.f(0.0)))


Contract(NB + "approx_order_value_nb",
         dict(size=Float(), size_type=Enum(0, 1, 2, 3, 4, 5), direction=Enum(0, 1, 2), cash_now=Float(), position_now=Float(),
              free_cash_now=Float(), val_price_now=Float(), value_now=Float()),
         pre=lambda S, a: S.require(S.gt(a.val_price_now, 0.0), "price"),
         post=lambda S, a, r: S.ensure("value of the order", S.eq(r, approx_spec(S, a)), "C04 C08"),
         inline=True, props="C04 C08", trials=600)


def group_value_post(S, a, r):
    n = a.to_col - a.from_col
    t = S.sum(lambda k: S.ite(S.eq(a.last_position[a.from_col + k], 0.0), S.f(0.0),
                              S.f(a.last_position[a.from_col + k]) * a.last_val_price[a.from_col + k]))
    S.ensure("group value", S.eq(r, S.f(a.cash_now) + t(n)), "C04 C07 C11")


def group_value_inv(S, v):
    t = S.sum(lambda k: S.ite(S.eq(v.last_position[v.from_col + k], 0.0), S.f(0.0),
                              S.f(v.last_position[v.from_col + k]) * v.last_val_price[v.from_col + k]))
    S.ensure("value so far", S.eq(v.group_value, S.f(v.cash_now) + t(v.it)))


def g_group_value(rng):
    n = int(rng.integers(1, 5))
    f = int(rng.integers(0, n))
    t = int(rng.integers(f, n + 1))
    return dict(from_col=f, to_col=t, cash_now=pick(rng, 0.0, 10.0, 100.0),
                last_position=np.array([pick(rng, 0.0, 1.0, -2.0, 3.5) for _ in range(n)]),
                last_val_price=np.array([pick(rng, 1.0, 2.0, 12.5, math.nan) for _ in range(n)]))


Contract(NB + "get_group_value_nb",
         dict(from_col=Int(0), to_col=Int(0), cash_now=Float(), last_position=Arr_("f", "n"),
              last_val_price=Arr_("f", "n")),
         pre=lambda S, a: S.require(S.and_(S.le(0, a.from_col), S.le(a.from_col, a.to_col), S.le(a.to_col, S.len(a.last_position)),
                                           S.eq(S.len(a.last_position), S.len(a.last_val_price))), "columns of the group"),
         post=group_value_post, returns=Float(symnan=True), loops={0: group_value_inv}, props="C04 C07 C11", gen=g_group_value, trials=300)

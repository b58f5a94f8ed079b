"""C10: profit of a trade, trade and position records (vectorbt/portfolio/nb.py)."""
from .common import *
import vectorbt  # noqa: F401
from vectorbt.portfolio.enums import trade_dt, order_dt, OrderResult
from .process import RESULT, g_result, NS_

N = "vectorbt.portfolio.nb:"
FIELDS = trade_dt.names


def trade_stats(S, size, entry_price, entry_fees, exit_price, exit_fees, direction):
    """Exit value minus entry value, reversed for shorts, minus all fees; and that over the entry value."""
    size, entry_price, exit_price = S.f(size), S.f(entry_price), S.f(exit_price)
    diff = snap_add(S, size * exit_price, -(size * entry_price))
    diff = S.ite(S.eq(direction, 1), -diff, diff)
    pnl = S.name(diff - entry_fees - exit_fees)
    return pnl, pnl


STATS = dict(size=Float("fin"), entry_price=Float("fin"), entry_fees=Float("fin"), exit_price=Float("fin|nan"), exit_fees=Float("fin"))


def stats_post(S, a, r):
    pnl, _ = trade_stats(S, a.size, a.entry_price, a.entry_fees, a.exit_price, a.exit_fees, a.direction)
    S.ensure("profit", S.eq(r[0], pnl), "C10")
    S.ensure("return", S.eq(r[1], S.div(r[0], S.f(a.size) * a.entry_price)), "C10")


def g_stats(rng):
    return dict(size=pick(rng, 0.5, 1.0, 3.0), entry_price=pick(rng, 1.0, 2.5), entry_fees=pick(rng, 0.0, 0.25),
                exit_price=pick(rng, 1.0, 2.0, 4.0, 2.5, math.nan), exit_fees=pick(rng, 0.0, 0.5), direction=int(rng.integers(2)))


def stats_pre(S, a):
    S.require(S.and_(S.gt(a.size, 0.0), S.gt(a.entry_price, 0.0)))


Contract(N + "get_trade_stats_nb", dict(STATS, direction=Enum(0, 1)), pre=stats_pre, post=stats_post, props="C10", gen=g_stats, trials=500,
         returns=lambda ex, a, name: (Float("fin", symnan=True).make(ex, name + ".pnl"), Float("fin", symnan=True).make(ex, name + ".ret")))


def written(S, r, id_, col, size, ei, ep, ef, xi, xp, xf, d, st, par):
    for f, x in zip(FIELDS, (id_, col, size, ei, ep, ef, xi, xp, xf, None, None, d, st, par)):
        if x is not None:
            S.ensure("field " + f, S.eq(r[f], x), "C10")


def stat_fields(S, r):
    pnl, _ = trade_stats(S, r["size"], r["entry_price"], r["entry_fees"], r["exit_price"], r["exit_fees"], r["direction"])
    S.ensure("profit of the record", S.eq(r["pnl"], pnl), "C10")
    S.ensure("return of the record", S.eq(r["return"], S.div(S.f(r["pnl"]), S.f(r["size"]) * r["entry_price"])), "C10")


def fill_post(S, a, r):
    written(S, a.record, a.id_, a.col, a.size, a.entry_idx, a.entry_price, a.entry_fees, a.exit_idx, a.exit_price, a.exit_fees,
            a.direction, a.status, a.parent_id)
    stat_fields(S, a.record)


def one():
    return np.zeros(1, trade_dt)[0:1][0]


def g_fill(rng):
    d = g_stats(rng)
    return dict(d, record=one(), id_=int(rng.integers(5)), col=int(rng.integers(3)), entry_idx=int(rng.integers(5)), exit_idx=int(rng.integers(9)),
                status=int(rng.integers(2)), parent_id=int(rng.integers(4)))


FILL = dict(STATS, record=RecRef_(trade_dt), id_=Int(0), col=Int(0), entry_idx=Int(0), exit_idx=Int(0), direction=Enum(0, 1), status=Enum(0, 1),
            parent_id=Int(0))
Contract(N + "fill_trade_record_nb", FILL, pre=stats_pre, post=fill_post, modifies=("record",), props="C10", gen=g_fill, trials=300, inline=True)


# --------------------------------------------------------------------------------------- positions
def rec_sum(S, rs, fn):
    return S.fold(S.f(0.0), lambda s, k: s + fn(k))


def pos_pre(S, a):
    t = a.trade_records
    n = t.shape[0]
    S.require(S.gt(n, 0))
    S.require(S.forall(0, n, lambda k: S.and_(S.gt(t["size"][k], 0.0), S.gt(t["entry_price"][k], 0.0))))
    for lab, fn in (("total size", lambda k: S.f(t["size"][k])), ("total entry value", lambda k: S.f(t["size"][k]) * t["entry_price"][k])):
        P = S.fold(S.f(0.0), lambda s, k, fn=fn: s + fn(k))
        S.induct(lab + " is positive", 0, n, lambda k: S.and_(S.ge(P(k), 0.0), S.implies(S.gt(k, 0), S.gt(P(k), 0.0))))


def pos_post(S, a, r):
    t, p = a.trade_records, a.record
    n = t.shape[0]

    def total(fn):
        return S.fold(S.f(0.0), lambda s, k: s + fn(k))(n)
    size = total(lambda k: S.f(t["size"][k]))
    for f, x in (("id", a.id_), ("parent_id", a.id_), ("col", t["col"][0]), ("entry_idx", t["entry_idx"][0]), ("exit_idx", t["exit_idx"][n - 1]),
                 ("direction", t["direction"][n - 1]), ("status", t["status"][n - 1])):
        S.ensure("field " + f, S.eq(p[f], x), "C10")
    S.ensure("size of all trades", S.eq(p["size"], size), "C10")
    S.ensure("entry fees of all trades", S.eq(p["entry_fees"], total(lambda k: S.f(t["entry_fees"][k]))), "C10")
    S.ensure("exit fees of all trades", S.eq(p["exit_fees"], total(lambda k: S.f(t["exit_fees"][k]))), "C10")
    S.ensure("average entry price", S.eq(p["entry_price"], S.div(total(lambda k: S.f(t["size"][k]) * t["entry_price"][k]), size)), "C10")
    S.ensure("average exit price", S.eq(p["exit_price"], S.div(total(lambda k: S.f(t["size"][k]) * t["exit_price"][k]), size)), "C10")
    if not S.symbolic:
        stat_fields(S, p)


def g_pos(rng):
    n = int(rng.integers(1, 4))
    t = np.zeros(n, trade_dt)
    for k in range(n):
        d = g_fill(rng)
        for f in ("size", "entry_price", "entry_fees", "exit_price", "exit_fees", "entry_idx", "exit_idx", "status"):
            t[f][k] = d[f]
    t["direction"], t["col"] = int(rng.integers(2)), int(rng.integers(3))
    return dict(record=one(), id_=int(rng.integers(5)), trade_records=t)


def copy_post(S, a, r):
    for f in FIELDS:
        S.ensure("field " + f, S.eq(a.record[f], a.trade_record[f]), "C10")


Contract(N + "copy_trade_record_nb", dict(record=RecRef_(trade_dt, inf=True), trade_record=RecRef_(trade_dt, inf=True)), post=copy_post,
         modifies=("record",), props="C10", gen=lambda rng: dict(record=one(), trade_record=g_pos(rng)["trade_records"][0]), trials=100, inline=True)


# --------------------------------------------------------------------------------------- streaks
def streak(cmp_):
    def fold(S, recs):
        return S.fold(0, lambda s, k: S.ite(cmp_(S, recs["pnl"][k]), s + 1, 0))

    def post(S, a, r):
        P = fold(S, a.records)
        n = a.records.shape[0]
        S.ensure("size", S.eq(S.len(r), n), "C10")
        S.ensure("length of the run ending here", S.forall(0, n, lambda k: S.eq(r[k], P(k + 1))), "C10")

    def inv(S, v):
        P = fold(S, v.records)
        S.ensure("current run", S.eq(v.curr_rank, P(v.it)))
        S.ensure("runs so far", S.forall(0, v.it, lambda k: S.eq(v.out[k], P(k + 1))))
    return post, inv


def g_streak(rng):
    t = np.zeros(int(rng.integers(0, 8)), trade_dt)
    t["pnl"] = rng.choice([1.0, -1.0, 0.0, np.nan, 2.0], len(t))
    return dict(records=t)


for _f, _c in (("trade_winning_streak_nb", lambda S, x: S.gt(x, 0.0)), ("trade_losing_streak_nb", lambda S, x: S.lt(x, 0.0))):
    _p, _i = streak(_c)
    Contract(N + _f, dict(records=RecArr_(trade_dt, "n")), post=_p, loops={0: _i}, props="C10", gen=g_streak, trials=200)


# --------------------------------------------------------------------------------------- running position record
def closed_part_price(S, r, price, part, left):
    """Average exit price after `part` more is closed at `price`, when size - left was closed before at the recorded exit price."""
    first = S.isnan(r["exit_price"])
    done = S.f(r["size"]) - left
    return first, done


def abs_(S, x):
    return S.abs(S.f(x))


def open_stats_post(S, a, r):
    o, n = a.old.record, a.record
    live = S.and_(S.ge(o["id"], 0), S.eq(o["status"], 0))
    for f in FIELDS:
        if f not in ("pnl", "return"):
            S.ensure("keeps " + f, S.eq(n[f], o[f]), "C10")
    size, left = S.f(o["size"]), abs_(S, a.position_now)
    if S.split(live):
        if S.split(S.isnan(o["exit_price"])):
            xp = S.f(a.price)
        else:
            xp = S.div((size - left) * o["exit_price"] + left * a.price, size)
        pnl, _ = trade_stats(S, size, o["entry_price"], o["entry_fees"], xp, o["exit_fees"], o["direction"])
        S.ensure("profit if the rest were sold at this price", S.eq(n["pnl"], pnl), "C10")
        S.ensure("return", S.eq(n["return"], S.div(S.f(n["pnl"]), size * o["entry_price"])), "C10")
    else:
        S.ensure("closed records keep profit and return", S.and_(S.eq(n["pnl"], o["pnl"]), S.eq(n["return"], o["return"])), "C10")


def live_ok(S, r):
    return S.and_(S.isfin(r["size"]), S.isfin(r["entry_price"]), S.isfin(r["entry_fees"]), S.isfin(r["exit_fees"]),
                  S.gt(r["size"], 0.0), S.gt(r["entry_price"], 0.0), S.or_(S.eq(r["direction"], 0), S.eq(r["direction"], 1)))


def open_pre(S, a):
    S.require(S.implies(S.and_(S.ge(a.record["id"], 0), S.eq(a.record["status"], 0)), live_ok(S, a.record)))


def g_live(rng):
    r = one()
    d = g_fill(rng)
    for f in ("size", "entry_price", "entry_fees", "exit_price", "exit_fees", "entry_idx", "exit_idx", "status", "direction"):
        r[f] = d[f]
    r["id"] = int(rng.integers(-1, 3))
    r["parent_id"] = r["id"]
    r["pnl"], r["return"] = 5.0, 0.5
    return r


def g_open(rng):
    r = g_live(rng)
    return dict(record=r, position_now=pick(rng, 1.0, 0.5, 0.25, 1.0) * float(r["size"]) * (1 if r["direction"] == 0 else -1),
                price=pick(rng, 1.0, 2.0, 3.5, math.nan))


Contract(N + "update_open_pos_stats_nb", dict(record=RecRef_(trade_dt), position_now=Float("fin"), price=Float("fin|nan")), pre=open_pre,
         post=open_stats_post, modifies=("record",), props="C10", gen=g_open, trials=400, inline=True)


def upd_pre(S, a):
    r, o = a.record, a.order_result
    before, now = S.f(a.position_before), S.f(a.position_now)
    S.require(S.or_(S.eq(o.status, 0), S.eq(o.status, 1), S.eq(o.status, 2)))
    f = S.eq(o.status, 0)
    S.require(S.implies(f, S.and_(S.isfin(o.size), S.isfin(o.price), S.isfin(o.fees), S.gt(o.size, 0.0), S.gt(o.price, 0.0), S.ge(o.fees, 0.0),
                                  S.or_(S.eq(o.side, 0), S.eq(o.side, 1)), S.ne(before, now))))
    S.require(S.ge(r["id"], -1))
    S.require(S.implies(S.and_(f, S.ne(before, 0.0)), S.and_(live_ok(S, r), S.ge(r["id"], 0), S.eq(r["status"], 0), S.le(abs_(S, before), r["size"]),
                        S.implies(S.not_(S.isnan(r["exit_price"])), S.gt(r["exit_price"], 0.0)))))


def upd_post(S, a, _):
    o, n, q = a.old.record, a.record, a.order_result
    before, now = S.f(a.position_before), S.f(a.position_now)
    if not S.split(S.eq(q.status, 0)):
        for f in FIELDS:
            S.ensure("unfilled orders change nothing: " + f, S.eq(n[f], o[f]), "C10")
        return
    opened = S.split(S.and_(S.eq(before, 0.0), S.ne(now, 0.0)))
    closed = not opened and S.split(S.eq(now, 0.0))
    flip = not opened and not closed and S.split(S.or_(S.and_(S.gt(before, 0.0), S.lt(now, 0.0)), S.and_(S.lt(before, 0.0), S.gt(now, 0.0))))
    if opened or flip:
        S.ensure("a new record", S.and_(S.eq(n["id"], o["id"] + 1), S.eq(n["parent_id"], n["id"]), S.eq(n["entry_idx"], a.i), S.eq(n["exit_idx"], -1),
                                        S.eq(n["status"], 0), S.eq(n["exit_fees"], 0.0), S.isnan(n["exit_price"]), S.eq(n["entry_price"], q.price)), "C10")
        S.ensure("direction of the order", S.eq(n["direction"], S.ite(S.eq(q.side, 0), 0, 1)), "C10")
        if opened:
            S.ensure("size, fees and column of the order", S.and_(S.eq(n["size"], q.size), S.eq(n["entry_fees"], q.fees), S.eq(n["col"], a.col)), "C10")
        else:
            S.ensure("size of the new side", S.eq(n["size"], abs_(S, now)), "C10")
            S.ensure("its share of the fees", S.eq(n["entry_fees"], S.div(abs_(S, now), abs_(S, now - before)) * q.fees), "C10")
            S.ensure("same column", S.eq(n["col"], o["col"]), "C10")
    else:
        keep = ["id", "col", "entry_idx", "direction", "parent_id"]
        grow = not closed and S.split(S.le(abs_(S, before), abs_(S, now)))
        if grow:
            keep += ["exit_idx", "exit_price", "exit_fees", "status"]
            S.ensure("size grows by the order", S.eq(n["size"], S.f(o["size"]) + q.size), "C10")
            S.ensure("fees grow by the order's", S.eq(n["entry_fees"], S.f(o["entry_fees"]) + q.fees), "C10")
            S.ensure("average entry price", S.eq(n["entry_price"], S.div(S.f(o["size"]) * o["entry_price"] + S.f(q.size) * q.price,
                                                                        S.f(o["size"]) + q.size)), "C10")
        else:
            keep += ["size", "entry_price", "entry_fees"]
            S.ensure("exit fees grow by the order's", S.eq(n["exit_fees"], S.f(o["exit_fees"]) + q.fees), "C10")
            done, part = S.f(o["size"]) - abs_(S, before), (abs_(S, before) if closed else S.f(q.size))
            if S.split(S.isnan(o["exit_price"])):
                S.ensure("first exit price", S.eq(n["exit_price"], q.price), "C10")
            elif closed:
                S.ensure("average exit price", S.eq(n["exit_price"], S.div(done * o["exit_price"] + part * q.price, S.f(o["size"]))), "C10")
            else:
                S.ensure("average exit price", S.eq(n["exit_price"], S.div(done * o["exit_price"] + part * q.price, done + part)), "C10")
            if closed:
                S.ensure("closed here", S.and_(S.eq(n["status"], 1), S.eq(n["exit_idx"], a.i)), "C10")
            else:
                keep += ["status", "exit_idx"]
        for f in keep:
            S.ensure("keeps " + f, S.eq(n[f], o[f]), "C10")
    if closed and not S.symbolic:
        stat_fields(S, n)


def g_upd(rng):
    r = g_live(rng)
    sgn = 1 if r["direction"] == 0 else -1
    if rng.random() < 0.25:
        before = 0.0
        now = pick(rng, 1.0, -2.0)
    else:
        r["id"], r["status"] = max(int(r["id"]), 0), 0
        r["exit_price"] = pick(rng, math.nan, 2.0, 3.0)
        before = float(r["size"]) * (1.0 if math.isnan(r["exit_price"]) else 0.5) * sgn
        now = pick(rng, 0.0, before * 0.5, before * 2, -before, -before * 0.25)
    side = 0 if now > before else 1
    res = OrderResult(abs(now - before), pick(rng, 1.0, 2.5), pick(rng, 0.0, 0.25), side, 0, -1) if rng.random() < 0.85 else g_result(rng)
    if res.status == 0 and now == before:
        res = res._replace(status=1)
    return dict(record=r, i=int(rng.integers(9)), col=int(rng.integers(3)), position_before=before, position_now=now, order_result=res)


Contract(N + "update_pos_record_nb", dict(record=RecRef_(trade_dt), i=Int(0), col=Int(0), position_before=Float("fin"), position_now=Float("fin"),
                                          order_result=RESULT), pre=upd_pre, post=upd_post, modifies=("record",), props="C10", gen=g_upd, trials=800)
Contract(N + "fill_position_record_nb", dict(record=RecRef_(trade_dt), id_=Int(0), trade_records=RecArr_(trade_dt, "n", nan=False)), pre=pos_pre,
         post=pos_post, modifies=("record",), props="C10", gen=g_pos, trials=300)

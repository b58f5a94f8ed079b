"""C01-C04 from the outside: every log and order record a portfolio simulation writes, against the accounting rules (bounded, random small inputs).

The contracts in contracts/orders.py .. process.py prove the kernels; this looks at what the simulators and the Portfolio front end make of them:
arguments reach the order they belong to, and the states written down chain into each other."""
import math
import warnings
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.portfolio.enums import *

from pyvc.run import monitor, expect, same, Skip
from monitors.msim import flex, choice, prices, pick

nan, inf = math.nan, math.inf
ARGS = ["size", "size_type", "direction", "price", "fees", "fixed_fees", "slippage", "min_size", "max_size", "size_granularity", "reject_prob",
        "lock_cash", "allow_partial"]


class Run:
    pass


def simulate(rng):
    k = Run()
    n, m = int(rng.integers(1, 8)), int(rng.integers(1, 4))
    close = prices(rng, n, m, nans=bool(rng.random() < 0.4))
    a = {}

    def add(name, gen, dtype=float, simple=None, p=0.5):
        if simple is not None and rng.random() > p:
            a[name] = (simple, np.broadcast_to(np.asarray(simple), (n, m)))
        else:
            a[name] = flex(rng, n, m, gen, True, dtype)
    percent = rng.random() < 0.35
    target = rng.random() < 0.45

    def sizes(s):
        if percent:
            return rng.choice([0.5, 1.0, -0.5, -1.0, 0.25, 0.0, nan, -0.25], s)
        return rng.choice([nan, 1, 2, 3, -1, -2, -3.5, inf, -inf, 0.5, 0, 12, -7, 1.3, -1.4, 2.9, -2.7], s, p=[.05, .06, .06, .06, .06, .06, .06, .06, .06, .06, .04, .07, .06, .06, .06, .06, .06])
    add("size", sizes)
    add("size_type", choice(rng, [2] if percent and not target else [5] if percent else [3, 4] if target else [0, 1] if rng.random() < 0.5 else [0]), int)
    k.dirs = pick(rng, [2], [2], [0], [1], None)
    if k.dirs is None:
        x = rng.integers(0, 3, (1, m))
        a["direction"] = (x, np.broadcast_to(x, (n, m)))
    else:
        a["direction"] = (k.dirs[0], np.full((n, m), k.dirs[0]))
    add("price", lambda s: np.where(rng.random(s) < 0.5, inf, rng.integers(2, 14, s).astype(float)), float, inf, 0.4)
    add("fees", choice(rng, [0.0, 0.01, 0.1, 0.3]), float, 0.0)
    add("fixed_fees", choice(rng, [0.0, 0.5, 2.0]), float, 0.0)
    add("slippage", choice(rng, [0.0, 0.05, 0.25]), float, 0.0)
    add("min_size", choice(rng, [0.0, 1.2, 2.6]), float, 0.0, 0.3)
    add("max_size", choice(rng, [inf, 4.0, 2.3, 0.9]), float, inf, 0.3)
    add("size_granularity", choice(rng, [nan, 1.0, 0.5, 0.75]), float, nan, 0.3)
    add("reject_prob", choice(rng, [0.0, 1.0], [0.8, 0.2]), float, 0.0, 0.2)
    add("lock_cash", choice(rng, [False, True]), bool, False)
    add("allow_partial", choice(rng, [True, False], [0.7, 0.3]), bool, True, 0.3)
    if rng.random() < 0.4:
        add("val_price", lambda s: np.where(rng.random(s) < 0.3, -inf, rng.integers(2, 14, s).astype(float)))
    add("log", choice(rng, [True, True, True, False]), bool, True, 0.2)
    groups = np.sort(rng.integers(0, m, m)) if rng.random() < 0.5 else None
    k.share = bool(groups is not None and rng.random() < 0.7)
    lens = np.unique(groups, return_counts=True)[1] if k.share else np.ones(m, int)
    k.group = np.repeat(np.arange(len(lens)), lens)
    init = pick(rng, 100.0, 20.0, rng.integers(5, 60, len(lens)) / 1.0)
    k.init = np.broadcast_to(np.asarray(init, float), (len(lens),))
    k.upd = bool(rng.random() < 0.5)
    kw = dict(init_cash=init, update_value=k.upd, freq="1D", **{x: y[0] for x, y in a.items()})
    if groups is not None:
        kw.update(group_by=groups, cash_sharing=k.share)
        if k.share and rng.random() < 0.6:
            kw.update(call_seq=pick(rng, "random", "auto", "reversed"), seed=int(rng.integers(100)))
    k.front = pick(rng, "orders", "orders", "signals")
    frame = pd.DataFrame(close, index=pd.date_range("2020-01-01", periods=n), columns=["c%d" % c for c in range(m)])
    k.a, k.n, k.m, k.close = a, n, m, close
    k.ctx = dict(close=close, front=k.front, **kw)
    if k.front == "signals":
        kw["size"] = np.abs(np.asarray(a["size"][0]))
        kw["size_type"] = pick(rng, 0, 0, 1)
        if percent or target:
            kw["size_type"] = pick(rng, 0, 2)
        for x in ("size", "size_type"):
            a.pop(x)
        d = kw.pop("direction")
        a.pop("direction")
        en, ex = (rng.random((n, m)) < 0.5 for _ in range(2))
        if kw["size_type"] != 2 and rng.random() < 0.5:
            kw.update(accumulate=pick(rng, True, False))
        if k.dirs == [2] and rng.random() < 0.5 and kw["size_type"] != 2:
            kw.update(short_entries=rng.random((n, m)) < 0.3, short_exits=rng.random((n, m)) < 0.3)
        elif kw["size_type"] == 2:
            kw["direction"] = pick(rng, 0, 1)
        else:
            kw["direction"] = d
        k.ctx = dict(close=close, front=k.front, entries=en, exits=ex, **kw)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pf = vbt.Portfolio.from_orders(frame, **kw) if k.front == "orders" else vbt.Portfolio.from_signals(frame, en, ex, **kw)
    except ValueError as e:
        # a direction-only order on an opposite position, or valuation at a missing price: refused, not executed
        raise Skip(str(e))
    k.pf = pf
    k.logs = pf.logs.values
    k.orders = pf.orders.values
    k.tot = 1.0 + float(np.max(k.init)) + 100.0
    return k


def near(a, b, s=100.0):
    return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= 1e-7 * max(1.0, s, abs(a) if math.isfinite(a) else 1.0)


def walk(k):
    """(log record as dict, all columns' previous logs) in order of execution."""
    for r in k.logs:
        yield {f: r[f].item() for f in k.logs.dtype.names}


def key(rec):
    return (rec["col"], rec["idx"])


@monitor("C01", 800, "vectorbt.portfolio.nb:simulate_from_orders_nb vectorbt.portfolio.nb:simulate_from_signals_nb vectorbt.portfolio.nb:process_order_nb "
         "vectorbt.portfolio.nb:fill_order_record_nb vectorbt.portfolio.nb:fill_log_record_nb")
def every_order_accounted_for(rng):
    k = simulate(rng)
    full = k.a["log"][1].all()
    cash, free = dict(enumerate(k.init)), dict(enumerate(k.init))
    pos, debt = np.zeros(k.m), np.zeros(k.m)
    expect(same(k.logs["id"], np.arange(len(k.logs))), "logs are numbered consecutively", **k.ctx)
    expect(same(k.orders["id"], np.arange(len(k.orders))), "orders are numbered consecutively", **k.ctx)
    by = {(int(o["col"]), int(o["idx"])): o for o in k.orders}
    expect(len(by) == len(k.orders), "one order per column and bar", **k.ctx)
    logged = {}
    for r in walk(k):
        c, g, i = r["col"], r["group"], r["idx"]
        x = dict(rec=r, **k.ctx)
        logged[(c, i)] = r
        expect(g == k.group[c], "log names the column's group", **x)
        expect(bool(k.a["log"][1][i, c]), "logged only where logging is on", **x)
        if full:
            expect(near(r["cash"], cash[g]) and near(r["free_cash"], free[g]) and near(r["position"], pos[c]) and near(r["debt"], debt[c]),
                   "an order starts from the state the previous one left", state=(cash[g], free[g], pos[c], debt[c]), **x)
        filled = r["res_status"] == OrderStatus.Filled
        o = by.get((c, i))
        expect(filled == (o is not None), "an order record exactly for a filled order", **x)
        dc, dp = r["new_cash"] - r["cash"], r["new_position"] - r["position"]
        if not filled:
            expect(near(dc, 0) and near(dp, 0) and near(r["new_debt"], r["debt"]) and near(r["new_free_cash"], r["free_cash"]), "an unfilled order changes nothing", **x)
            expect(r["order_id"] == -1, "no order id without a fill", **x)
            expect(near(r["new_value"], r["value"]) and near(r["new_val_price"], r["val_price"]), "value is kept", **x)
        else:
            expect(r["order_id"] == o["id"] and all(near(float(o[f]), float(r["res_" + f])) for f in ("size", "price", "fees", "side")),
                   "log and order record agree", order=o, **x)
            s, p, fe = r["res_size"], r["res_price"], r["res_fees"]
            if r["res_side"] == OrderSide.Buy:
                expect(near(dc, -s * p - fe), "buying takes size times price plus fees from cash", want=-s * p - fe, **x)
                expect(near(dp, s), "buying adds the size to the position", **x)
                nd = r["debt"] * min(0.0, r["new_position"]) / r["position"] if r["position"] < 0 else r["debt"]
            else:
                expect(near(dc, s * p - fe), "selling adds size times price minus fees to cash", want=s * p - fe, **x)
                expect(near(dp, -s), "selling takes the size from the position", **x)
                nd = r["debt"] + (s if r["position"] <= 0 else max(0.0, s - r["position"])) * p
            expect(near(r["new_debt"], nd), "debt follows the borrowed shares", want=nd, **x)
            expect(near(r["new_free_cash"] - r["free_cash"], dc - 2 * (r["new_debt"] - r["debt"])), "free cash follows cash and debt", **x)
            if k.upd:
                av = lambda q, v: q * v if q != 0 else 0.0
                want = r["value"] + dc + av(r["new_position"], p) - av(r["position"], r["val_price"])
                expect(near(r["new_val_price"], p) and near(r["new_value"], want), "value is updated at the fill", want=want, **x)
            else:
                expect(near(r["new_value"], r["value"]) and near(r["new_val_price"], r["val_price"]), "value is kept", **x)
        cash[g], free[g], pos[c], debt[c] = r["new_cash"], r["new_free_cash"], r["new_position"], r["new_debt"]
    if k.front == "orders":
        for c in range(k.m):
            for i in range(k.n):
                expect(bool(k.a["log"][1][i, c]) == ((c, i) in logged), "every order of a logged element is logged", at=(c, i), **k.ctx)


@monitor("C02", 800, "vectorbt.portfolio.nb:simulate_from_orders_nb vectorbt.portfolio.nb:simulate_from_signals_nb vectorbt.portfolio.nb:process_order_nb")
def every_fill_within_limits(rng):
    k = simulate(rng)
    filled = {key(o): o for o in k.orders}
    for r in walk(k):
        i, c = r["idx"], r["col"]
        x = dict(rec=r, **k.ctx)
        for f in ARGS:
            if f in k.a:
                v = float(k.a[f][1][i, c])
                if f == "price" and math.isinf(v):
                    v = k.close[i, c]
                if f == "reject_prob" or k.front == "orders" or f not in ("price", "slippage"):
                    expect(near(float(r["req_" + f]), v), "the element's own %s is used" % f, want=v, **x)
        p = r["req_price"]
        # what was asked for, in shares (None: as much as possible)
        st, size = r["req_size_type"], r["req_size"]
        if r["req_direction"] == Direction.ShortOnly:
            size = -size
        amount = asked(r, size)
        if r["res_status"] != OrderStatus.Filled:
            expect(math.isnan(r["res_size"]) and math.isnan(r["res_price"]) and math.isnan(r["res_fees"]) and r["res_side"] == -1, "an unfilled order reports no fill", **x)
            expect(r["res_status"] in (OrderStatus.Ignored, OrderStatus.Rejected) and 0 <= r["res_status_info"] < len(OrderStatusInfo), "an unfilled order has a reason", **x)
            if math.isnan(r["req_size"]):
                expect(r["res_status"] == OrderStatus.Ignored and r["res_status_info"] == OrderStatusInfo.SizeNaN, "no size", **x)
            elif math.isnan(p):
                expect(r["res_status"] == OrderStatus.Ignored and r["res_status_info"] == OrderStatusInfo.PriceNaN, "no price", **x)
            elif amount is not None and r["req_reject_prob"] == 0 and not math.isinf(amount):
                want, cost = permitted(r, amount)
                if want > 1e-6 and want >= r["req_min_size"] and (abs(want - abs(amount)) < 1e-9 or r["req_allow_partial"]) and cost is not None and cost >= 1e-6:
                    expect(False, "an order that fits is filled", want=want, **x)
            continue
        expect(r["req_reject_prob"] < 1, "certain rejection rejects", **x)
        s, q = r["res_size"], r["res_price"]
        o = filled.get((c, i))
        if o is not None:
            expect(near(float(o["size"]), s) and near(float(o["price"]), q) and near(float(o["fees"]), r["res_fees"]) and int(o["side"]) == r["res_side"],
                   "order record and log agree on the fill", **x)
        buy = r["res_side"] == OrderSide.Buy
        expect(s > 0, "size above zero", **x)
        expect(s <= r["req_max_size"] + 1e-9, "not above the maximum size", **x)
        expect(s >= r["req_min_size"] - 1e-9, "not below the minimum size", **x)
        if not math.isnan(r["req_size_granularity"]):
            w = s / r["req_size_granularity"]
            expect(abs(w - round(w)) < 1e-6, "a multiple of the granularity", **x)
        expect(near(q, p * (1 + r["req_slippage"]) if buy else p * (1 - r["req_slippage"])), "price is moved against the trader by the slippage", **x)
        expect(near(r["res_fees"], s * q * r["req_fees"] + r["req_fixed_fees"]), "fees are the percentage fee plus the fixed one", **x)
        if r["req_direction"] == Direction.LongOnly:
            expect(r["new_position"] >= 0, "a long-only order never goes short", **x)
        if r["req_direction"] == Direction.ShortOnly:
            expect(r["new_position"] <= 0, "a short-only order never goes long", **x)
        if amount is not None:
            expect(buy == (amount > 0), "the side asked for", amount=amount, **x)
            expect(s <= abs(amount) * (1 + 1e-9) + 1e-9, "not more than asked for", amount=amount, **x)
            if math.isfinite(amount) and not r["req_allow_partial"]:
                expect(near(s, abs(amount)), "partial filling was not allowed", amount=amount, **x)
            if math.isfinite(amount) and r["req_allow_partial"]:
                want, cost = permitted(r, amount)
                if cost is not None and cost >= 1e-6:
                    expect(near(s, want), "filled in full where cash and limits permit", want=want, **x)
                elif buy and math.isnan(r["req_size_granularity"]) and cost is not None and cost < -1e-6 and not r["req_lock_cash"]:
                    expect(near(r["new_cash"], 0.0) or near(s, want), "as much as the cash permits", want=want, **x)
    check_unlogged(k)


def check_unlogged(k):
    """Orders seen without their logs: limits still hold."""
    for o in k.orders:
        i, c = int(o["idx"]), int(o["col"])
        f = {x: float(k.a[x][1][i, c]) for x in ARGS if x in k.a}
        x = dict(order=o, **k.ctx)
        expect(0 < o["size"] <= f["max_size"] + 1e-9 and o["size"] >= f["min_size"] - 1e-9, "size within the element's limits", **x)
        expect(near(float(o["fees"]), float(o["size"] * o["price"] * f["fees"] + f["fixed_fees"])), "fees of the element", **x)
        if k.front == "orders":
            p = f["price"] if not math.isinf(f["price"]) else k.close[i, c]
            sl = f["slippage"] if o["side"] == OrderSide.Buy else -f["slippage"]
            expect(near(float(o["price"]), p * (1 + sl)), "price of the element", **x)


def asked(r, size):
    """The signed number of shares an order asks for, None where it depends on resources."""
    st = r["req_size_type"]
    if math.isnan(size) or math.isnan(r["req_price"]):
        return None
    if st == SizeType.TargetPercent:
        if math.isnan(r["value"]) or r["value"] <= 0:
            return None
        size, st = size * r["value"], SizeType.TargetValue
    if st in (SizeType.Value, SizeType.TargetValue):
        if math.isnan(r["val_price"]):
            return None
        size = size / r["val_price"]
        st = SizeType.Amount if st == SizeType.Value else SizeType.TargetAmount
    if st == SizeType.TargetAmount:
        size, st = size - r["position"], SizeType.Amount
    if st == SizeType.Amount:
        if size == -inf and r["req_direction"] != Direction.LongOnly:
            return None
        return size if abs(size) > 1e-9 else None
    return None


def permitted(r, amount):
    """Size after direction, maximum and granularity, and what remains of the cash after it (None: not comparable)."""
    s = abs(amount)
    if r["req_direction"] == Direction.LongOnly and amount < 0:
        s = min(s, r["position"])
    if r["req_direction"] == Direction.ShortOnly and amount > 0:
        s = min(s, -r["position"])
    s = min(s, r["req_max_size"])
    gr = r["req_size_granularity"]
    if not math.isnan(gr):
        w = s / gr
        exact = r["req_size_type"] == SizeType.Amount and w == round(w)
        if abs(w - round(w)) < 1e-6 and not exact:
            return s, None   # a multiple up to rounding: rounded down by the code or not
        s = math.floor(w) * gr
    q = r["req_price"] * (1 + r["req_slippage"] if amount > 0 else 1 - r["req_slippage"])
    if r["req_lock_cash"]:
        return s, None
    if amount > 0:
        return s, r["cash"] - s * q * (1 + r["req_fees"]) - r["req_fixed_fees"]
    return s, s * q * (1 - r["req_fees"]) - r["req_fixed_fees"]


@monitor("C03", 800, "vectorbt.portfolio.nb:simulate_from_orders_nb vectorbt.portfolio.nb:simulate_from_signals_nb vectorbt.portfolio.nb:process_order_nb")
def accounts_stay_valid(rng):
    k = simulate(rng)
    full = bool(k.a["log"][1].all())
    pos, debt = np.zeros(k.m), np.zeros(k.m)
    for r in walk(k):
        c, g = r["col"], r["group"]
        x = dict(rec=r, **k.ctx)
        for f in ("new_cash", "new_debt"):
            expect(r[f] >= 0, "%s is not negative" % f, **x)
        expect(not math.isnan(r["new_position"]) and not math.isnan(r["new_free_cash"]), "position and free cash are defined", **x)
        expect(bool(r["req_lock_cash"]) == bool(k.a["lock_cash"][1][r["idx"], c]), "cash is locked where asked for", **x)
        pos[c], debt[c] = r["new_position"], r["new_debt"]
        if r["res_status"] == OrderStatus.Filled and r["req_lock_cash"] and r["free_cash"] >= 0 and abs(r["new_position"]) > abs(r["position"]) \
                and r["position"] * r["new_position"] >= 0:
            expect(r["new_free_cash"] >= -1e-7 * k.tot, "locked cash is not spent", **x)
        if r["new_position"] == 0:
            expect(near(r["new_debt"], 0), "no debt without a position", **x)
        expect((r["new_debt"] > 0) == (r["new_position"] < 0) or r["res_status"] != OrderStatus.Filled, "debt exactly with a short position", **x)
        if full and not debt[k.group == g].any():
            expect(near(r["new_free_cash"], r["new_cash"]), "without a short position all cash is free", **x)
    cash, fc = k.pf.cash(), k.pf.cash(free=True)
    expect(bool((np.asarray(cash) >= -1e-7 * k.tot).all()), "cash of the portfolio is never negative", cash=cash, **k.ctx)
    if k.dirs == [0] and k.front == "orders":
        expect(same(np.asarray(cash), np.asarray(fc), 1e-9), "free cash of a long portfolio is its cash", cash=cash, free=fc, **k.ctx)


@monitor("C04", 800, "vectorbt.portfolio.nb:simulate_from_orders_nb vectorbt.portfolio.nb:simulate_from_signals_nb vectorbt.portfolio.nb:process_order_nb")
def size_types_resolve(rng):
    k = simulate(rng)
    for r in walk(k):
        x = dict(rec=r, **k.ctx)
        for f in ("size", "size_type", "direction"):
            if f in k.a:
                expect(near(float(r["req_" + f]), float(k.a[f][1][r["idx"], r["col"]])), "the element's own %s is used" % f, **x)
        if r["res_status"] != OrderStatus.Filled:
            continue
        size = -r["req_size"] if r["req_direction"] == Direction.ShortOnly else r["req_size"]
        amount = asked(r, size)
        buy = r["res_side"] == OrderSide.Buy
        unlimited = math.isinf(r["req_max_size"]) and math.isnan(r["req_size_granularity"]) and not r["req_lock_cash"]
        if r["req_size_type"] == SizeType.Percent and unlimited:
            q, pc = r["res_price"], abs(size)
            if pc > 1:
                continue
            if buy:
                spend = r["res_size"] * q + r["res_fees"]
                cap = -r["position"] if r["req_direction"] == Direction.ShortOnly else inf
                # a percentage of the cash pays for the shares and the fees
                want = (pc * r["cash"] - r["req_fixed_fees"]) / (q * (1 + r["req_fees"]))
                expect(near(r["res_size"], min(want, cap)), "a percentage of the cash", want=want, spend=spend, **x)
            elif r["position"] > 0 and r["req_direction"] == Direction.LongOnly:
                expect(near(r["res_size"], pc * r["position"]), "a percentage of the position", **x)
            continue
        if amount is None or not math.isfinite(amount):
            continue
        expect(buy == (amount > 0), "the side follows from the resolved amount", amount=amount, **x)
        want, left = permitted(r, amount)
        if left is not None and left >= 1e-6 and (r["req_allow_partial"] or near(want, abs(amount))):
            expect(near(r["res_size"], want), "executed as the equivalent amount", amount=amount, want=want, **x)
            if near(want, abs(amount)) and r["req_size_type"] in (SizeType.TargetAmount, SizeType.TargetValue, SizeType.TargetPercent):
                t = size if r["req_size_type"] == SizeType.TargetAmount else size / r["val_price"] * (1 if r["req_size_type"] == SizeType.TargetValue else r["value"])
                expect(near(r["new_position"], t), "the target is reached", target=t, **x)
                if t == 0:
                    expect(r["new_position"] == 0, "closing leaves exactly zero", **x)

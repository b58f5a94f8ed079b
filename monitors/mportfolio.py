"""C09-C11: a portfolio's derived series and records against a book kept from its log records (bounded, random small inputs)."""
import math
import numpy as np
import pandas as pd
import vectorbt as vbt
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
from vectorbt.records import nb as rnb

from pyvc.run import monitor, expect, same, Skip

nan = math.nan
DIRS = ["both", "longonly", "shortonly"]


def pick(rng, *xs):
    return xs[int(rng.integers(0, len(xs)))]


class Case:
    pass


def random_portfolio(rng, nans=True, share=None):
    k = Case()
    n, m = int(rng.integers(1, 7)), int(rng.integers(1, 5))
    close = rng.integers(4, 40, (n, m)) / 2.0
    if nans and rng.random() < 0.35:
        close[rng.random((n, m)) < 0.2] = nan
    groups = None
    if rng.random() < 0.7:
        groups = np.sort(rng.integers(0, m, m))
    k.share = bool(groups is not None and (rng.random() < 0.6 if share is None else share))
    size = rng.choice([nan, 1, 2, 3, -1, -2, -3.5, np.inf, -np.inf, 0.5], size=(n, m), p=[.15, .15, .1, .1, .1, .1, .1, .05, .05, .1])
    lens = np.unique(groups, return_counts=True)[1] if groups is not None else np.ones(m, int)
    ng = len(lens) if k.share else m
    init = pick(rng, 100.0, 20.0, rng.integers(5, 200, ng) / 1.0)
    kw = dict(size=size, direction=pick(rng, "both", "both", *DIRS),
              fees=pick(rng, 0.0, 0.01, 0.25), fixed_fees=pick(rng, 0.0, 0.0, 0.5), slippage=pick(rng, 0.0, 0.0, 0.125),
              init_cash=init, log=True, attach_call_seq=True, freq="1D")
    if rng.random() < 0.3:
        kw["price"] = np.nan_to_num(close, nan=5.0) * rng.choice([1.0, 0.5, 1.25], size=(n, m))
    if groups is not None:
        kw.update(group_by=groups, cash_sharing=k.share)
        if k.share and rng.random() < 0.7:
            kw["call_seq"] = pick(rng, "random", "auto", "reversed")
            kw["seed"] = int(rng.integers(100))
    if rng.random() < 0.2:
        kw["lock_cash"] = True
    if rng.random() < 0.2:
        kw["size_granularity"] = 0.5
    k.n, k.m, k.groups, k.lens, k.kw, k.close = n, m, groups, lens, kw, close
    k.idx = pd.date_range("2020-01-01", periods=n)
    k.cols = ["c%d" % i for i in range(m)]
    k.pf = vbt.Portfolio.from_orders(pd.DataFrame(close, index=k.idx, columns=k.cols), **kw)
    k.ctx = dict(close=close, **{a: b for a, b in kw.items() if a not in ("log", "attach_call_seq", "freq")})
    k.logs = k.pf.logs.values
    k.orders = k.pf.orders.values
    k.gcols = [list(range(sum(lens[:g]), sum(lens[:g + 1]))) for g in range(len(lens))]   # columns of each group
    k.init = np.broadcast_to(np.asarray(init, dtype=float), (ng,))
    return k


def track(k, field, default, by_group=False):
    """Value of a log field after each bar, carried forward, per column or per cash-sharing group."""
    parts = k.gcols if by_group else [[c] for c in range(k.m)]
    out = np.empty((k.n, len(parts)))
    for g, cols in enumerate(parts):
        cur = default[g]
        rows = [r for r in k.logs if r["col"] in cols]
        rows.sort(key=lambda r: r["id"])
        for i in range(k.n):
            for r in rows:
                if r["idx"] == i:
                    cur = r[field]
            out[i, g] = cur
    return out


def vals(x):
    x = x.values
    return x if x.ndim == 2 else x.reshape(-1, 1)


def sums(k, a):
    return np.stack([a[:, c].sum(axis=1) for c in k.gcols], axis=1)


@monitor("C09", 160, "vectorbt.portfolio.nb:asset_flow_nb vectorbt.portfolio.nb:assets_nb vectorbt.portfolio.nb:cash_flow_nb vectorbt.portfolio.nb:cash_nb "
         "vectorbt.portfolio.nb:cash_grouped_nb vectorbt.portfolio.nb:cash_in_sim_order_nb vectorbt.portfolio.nb:init_cash_nb vectorbt.portfolio.nb:init_cash_grouped_nb "
         "vectorbt.portfolio.nb:get_free_cash_diff_nb vectorbt.portfolio.base:Portfolio")
def replay_matches_simulation(rng):
    k = random_portfolio(rng)
    pf = k.pf
    assets = track(k, "new_position", np.zeros(k.m))
    got = vals(pf.assets(direction="both"))
    expect(same(got, assets, 1e-8), "assets equal the simulated positions", got=got, want=assets, **k.ctx)
    for d, w in (("longonly", np.maximum(assets, 0)), ("shortonly", np.maximum(-assets, 0))):
        expect(same(vals(pf.assets(direction=d)), w, 1e-8), "assets of one direction", side=d, want=w, **k.ctx)
        diff = np.diff(np.vstack([np.zeros((1, k.m)), w]), axis=0)
        expect(same(vals(pf.asset_flow(direction=d)), diff, 1e-8), "flow of one direction", side=d, got=vals(pf.asset_flow(direction=d)), want=diff, **k.ctx)
    flow = vals(pf.asset_flow(direction="both"))
    expect(same(flow, np.diff(np.vstack([np.zeros((1, k.m)), assets]), axis=0), 1e-8), "asset flow", got=flow, **k.ctx)
    grouped = k.groups is not None
    if k.share:
        for free, f in ((False, "new_cash"), (True, "new_free_cash")):
            w = track(k, f, k.init, by_group=True)
            g = vals(pf.cash(free=free))
            expect(same(g, w, 1e-7), "cash of the group equals the simulated cash", free=free, got=g, want=w, **k.ctx)
        # in simulation order: cash right after each column's turn
        seq = vals(pf.call_seq)
        g = vals(pf.cash(group_by=False, in_sim_order=True))
        want = np.empty((k.n, k.m))
        for gi, cols in enumerate(k.gcols):
            cash = k.init[gi]
            for i in range(k.n):
                for j in range(len(cols)):
                    c = cols[0] + seq[i, cols[0] + j]
                    for r in k.logs:
                        if r["idx"] == i and r["col"] == c:
                            cash = r["new_cash"]
                    want[i, c] = cash
        expect(same(g, want, 1e-7), "cash in simulation order", got=g, want=want, turn_order=seq, **k.ctx)
        expect(same(vals(pf.cash(group_by=False))[-1], np.repeat(k.init, k.lens) + vals(pf.cash_flow(group_by=False)).sum(axis=0), 1e-7),
               "cash of a column on its own", **k.ctx)
    else:
        for free, f in ((False, "new_cash"), (True, "new_free_cash")):
            w = track(k, f, np.broadcast_to(k.init, (k.m,)))
            g = vals(pf.cash(group_by=False, free=free))
            expect(same(g, w, 1e-7), "cash equals the simulated cash", free=free, got=g, want=w, **k.ctx)
            if grouped:
                expect(same(vals(pf.cash(free=free)), sums(k, w), 1e-7), "cash of a group is the sum over its columns", **k.ctx)
    # flows from the order records, written out
    cf = np.zeros((k.n, k.m))
    for r in k.orders:
        s = r["size"] if r["side"] == OrderSide.Buy else -r["size"]
        cf[r["idx"], r["col"]] += -s * r["price"] - r["fees"]
    expect(same(vals(pf.cash_flow(group_by=False)), cf, 1e-8), "cash flow", want=cf, got=vals(pf.cash_flow(group_by=False)), **k.ctx)
    if grouped:
        expect(same(vals(pf.cash_flow()), sums(k, cf), 1e-8), "cash flow of a group", **k.ctx)
    mask = assets != 0
    expect(np.array_equal(vals(pf.position_mask(group_by=False)), mask), "position mask", **k.ctx)
    if grouped:
        expect(np.array_equal(vals(pf.position_mask()), np.stack([mask[:, c].any(axis=1) for c in k.gcols], axis=1)), "position mask of a group", **k.ctx)
        expect(same(np.atleast_1d(pf.position_coverage()), [mask[:, c].mean() for c in k.gcols]), "coverage of a group",
               got=np.atleast_1d(pf.position_coverage()), **k.ctx)
    expect(same(np.atleast_1d(pf.position_coverage(group_by=False)), mask.mean(axis=0)), "coverage", **k.ctx)


# --------------------------------------------------------------------------------------- C11
def ret(x, y):
    if x == 0:
        return 0.0 if y == 0 else (nan if math.isnan(y) else math.copysign(math.inf, y))
    return (y - x) / abs(x)


def rets(first, v):
    out = np.empty(v.shape)
    for c in range(v.shape[1]):
        p = first[c]
        for i in range(v.shape[0]):
            out[i, c] = ret(p, v[i, c])
            p = v[i, c]
    return out


@monitor("C11", 160, "vectorbt.portfolio.nb:asset_value_nb vectorbt.portfolio.nb:value_nb vectorbt.portfolio.nb:total_profit_nb vectorbt.portfolio.nb:gross_exposure_nb "
         "vectorbt.portfolio.nb:benchmark_value_nb vectorbt.portfolio.nb:value_in_sim_order_nb vectorbt.portfolio.nb:returns_in_sim_order_nb "
         "vectorbt.portfolio.nb:init_cash_nb vectorbt.portfolio.base:Portfolio")
def value_and_returns(rng):
    k = random_portfolio(rng)
    pf = k.pf
    close = pd.DataFrame(k.close).ffill().bfill().values
    assets = track(k, "new_position", np.zeros(k.m))
    av = np.where(assets == 0, 0.0, close * assets)
    per_col_init = np.repeat(k.init, k.lens) if k.share else np.broadcast_to(k.init, (k.m,))
    cf = np.zeros((k.n, k.m))
    for r in k.orders:
        s = r["size"] if r["side"] == OrderSide.Buy else -r["size"]
        cf[r["idx"], r["col"]] += -s * r["price"] - r["fees"]
    T = 1e-7
    for grouped in ([False] if k.groups is None else [False, True]):
        gb = dict(group_by=False) if not grouped else {}
        if grouped:
            a, f = sums(k, av), sums(k, cf)
            init = k.init if k.share else np.array([np.broadcast_to(k.init, (k.m,))[c].sum() for c in k.gcols])
        else:
            a, f, init = av, cf, per_col_init
        ctx = dict(k.ctx, grouped=grouped)
        cash = init + np.cumsum(f, axis=0)
        value = cash + a
        expect(same(np.atleast_1d(pf.get_init_cash(**gb)), init), "initial cash", got=pf.get_init_cash(**gb), want=init, **ctx)
        expect(same(vals(pf.asset_value(**gb)), a, T), "asset value is holdings times price", got=vals(pf.asset_value(**gb)), want=a, **ctx)
        expect(same(vals(pf.cash(**gb)), cash, T), "cash", got=vals(pf.cash(**gb)), want=cash, **ctx)
        expect(same(vals(pf.value(**gb)), value, T), "value is cash plus asset value", got=vals(pf.value(**gb)), want=value, **ctx)
        profit = value[-1] - init
        has = np.array([any(r["col"] in c for r in k.orders) for c in (k.gcols if grouped else [[c] for c in range(k.m)])])
        profit = np.where(has, profit, 0.0)
        expect(same(np.atleast_1d(pf.total_profit(**gb)), profit, T), "total profit is final minus initial value",
               got=np.atleast_1d(pf.total_profit(**gb)), want=profit, **ctx)
        expect(same(np.atleast_1d(pf.final_value(**gb)), profit + init, T), "final value", **ctx)
        expect(same(np.atleast_1d(pf.total_return(**gb)), profit / init, T), "total return", **ctx)
        expect(same(vals(pf.returns(**gb)), rets(init, value), 1e-6), "returns are value changes over the preceding value",
               got=vals(pf.returns(**gb)), want=rets(init, value), **ctx)
        ar = np.empty(a.shape)
        for i in range(k.n):
            for c in range(a.shape[1]):
                ar[i, c] = ret(a[i - 1, c] if i else 0.0, a[i, c] + f[i, c])
        expect(same(vals(pf.asset_returns(**gb)), ar, 1e-6), "asset returns", got=vals(pf.asset_returns(**gb)), want=ar, **ctx)
        if grouped:
            bench = np.stack([init[g] / len(c) * (close[:, c] / close[0, c]).sum(axis=1) for g, c in enumerate(k.gcols)], axis=1)
        else:
            bench = close / close[0] * init
        expect(same(vals(pf.benchmark_value(**gb)), bench, T), "benchmark value", got=vals(pf.benchmark_value(**gb)), want=bench, **ctx)
        expect(same(np.atleast_1d(pf.total_benchmark_return(**gb)), [ret(bench[0, c], bench[-1, c]) for c in range(bench.shape[1])], T), "benchmark return", **ctx)
        expect(same(vals(pf.benchmark_returns(**gb)), rets(init, bench), T), "benchmark returns", **ctx)
        free = vals(pf.cash(free=True, **gb))
        ex = {}
        for d in DIRS:
            x = av if d == "both" else np.where(assets > 0, av, 0.0) if d == "longonly" else np.where(assets < 0, -av, 0.0)
            x = np.abs(x)
            x = sums(k, x) if grouped else x
            with np.errstate(all="ignore"):
                tot = x + free
                w = np.where(np.isclose(tot, 0, atol=1e-12), 0.0, x / tot)
            near0 = (np.abs(tot) < 1e-6) & (tot != 0)
            ex[d] = w
            g = vals(pf.gross_exposure(direction=d, **gb))
            expect(same(np.where(near0, 0, g), np.where(near0, 0, w), 1e-6), "gross exposure", side=d, got=g, want=w, **ctx)
        if not (np.abs(free) < 1e-6).any():
            expect(same(vals(pf.net_exposure(**gb)), ex["longonly"] - ex["shortonly"], 1e-6), "net exposure", **ctx)
    if k.share:
        # value in simulation order: cash after the column's turn plus the latest asset value of every column of the group
        seq = vals(pf.call_seq)
        cash_iso = vals(pf.cash(group_by=False, in_sim_order=True))
        want = np.empty((k.n, k.m))
        order = []
        for gi, cols in enumerate(k.gcols):
            now = {c: 0.0 for c in cols}
            last = k.init[gi]
            for i in range(k.n):
                for j in range(len(cols)):
                    c = cols[0] + seq[i, cols[0] + j]
                    now[c] = av[i, c]
                    want[i, c] = cash_iso[i, c] + sum(now.values())
                    order.append((i, c, last))
                    last = want[i, c]
        g = vals(pf.value(group_by=False, in_sim_order=True))
        expect(same(g, want, T), "value in simulation order", got=g, want=want, turn_order=seq, **k.ctx)
        wr = np.empty((k.n, k.m))
        for i, c, last in order:
            wr[i, c] = ret(last, want[i, c])
        expect(same(vals(pf.returns(group_by=False, in_sim_order=True)), wr, 1e-6), "returns in simulation order", **k.ctx)


@monitor("C11", 60, "vectorbt.portfolio.base:Portfolio.get_init_cash")
def automatic_initial_cash(rng):
    k = random_portfolio(rng, share=False)
    kw = dict(k.kw, init_cash=pick(rng, "auto", "autoalign"))
    kw.pop("lock_cash", None)
    pf = vbt.Portfolio.from_orders(pd.DataFrame(k.close, index=k.idx, columns=k.cols), **dict(kw, size=np.where(np.isinf(kw["size"]), 1.0, kw["size"])))
    cf = np.zeros((k.n, k.m))
    for r in pf.orders.values:
        s = r["size"] if r["side"] == OrderSide.Buy else -r["size"]
        cf[r["idx"], r["col"]] += -s * r["price"] - r["fees"]
    for gb, f in ((dict(group_by=False), cf),) + (() if k.groups is None else (({}, sums(k, cf)),)):
        low = np.cumsum(f, axis=0).min(axis=0)
        w = np.where(low < 0, -low, 1.0)
        if kw["init_cash"] == "autoalign":
            w = np.full(w.shape, w.max())
        g = np.atleast_1d(pf.get_init_cash(**gb))
        expect(same(g, w, 1e-8), "automatic initial cash is the most cash ever needed", got=g, want=w, **dict(k.ctx, init_cash=kw["init_cash"]))


# --------------------------------------------------------------------------------------- C10
class Trade:
    def __init__(self, **d):
        self.__dict__.update(d)


def value_of(t):
    t.entry_value, t.exit_value = t.size * t.entry_price, t.size * t.exit_price
    t.pnl = (t.exit_value - t.entry_value) * (1 if t.direction == 0 else -1) - t.entry_fees - t.exit_fees
    t.ret = t.pnl / t.entry_value
    return t


def episodes(rows):
    """Splits the orders of one column into positions: lists of (order, signed part, share of its fees) from flat to flat."""
    out, cur, pos = [], [], 0.0
    for r in rows:
        s = r["size"] if r["side"] == OrderSide.Buy else -r["size"]
        new = pos + s
        if abs(new) <= 1e-9 * max(abs(pos), abs(s), 1e-3):
            new = 0.0
            s = -pos
        if pos * new < 0:
            close, rest = -pos, new
            cur.append((r, close, abs(close) / abs(s)))
            out.append((cur, True))
            cur = [(r, rest, abs(rest) / abs(s))]
        else:
            cur.append((r, s, 1.0))
            if new == 0:
                out.append((cur, True))
                cur = []
        pos = new
    if cur:
        out.append((cur, False))
    return out


def expected_trades(orders, close, m):
    n = close.shape[0]
    ex, en, ps = [], [], []
    for c in range(m):
        rows = sorted([r for r in orders if r["col"] == c], key=lambda r: r["id"])
        for legs, closed in episodes(rows):
            d = 0 if legs[0][1] > 0 else 1
            sg = 1 if d == 0 else -1
            pid = len(ps)
            # exit trades: every exit takes its share of the entries so far
            size = gross = fees = 0.0
            mine = []
            for r, s, share in legs:
                if s * sg > 0:
                    size, gross, fees = size + abs(s), gross + abs(s) * r["price"], fees + share * r["fees"]
                else:
                    q = abs(s) / size
                    mine.append(value_of(Trade(col=c, size=abs(s), entry_idx=legs[0][0]["idx"], entry_price=gross / size, entry_fees=q * fees,
                                               exit_idx=r["idx"], exit_price=r["price"], exit_fees=share * r["fees"], direction=d, status=1, parent_id=pid)))
                    size, gross, fees = size * (1 - q), gross * (1 - q), fees * (1 - q)
            if not closed:
                mine.append(value_of(Trade(col=c, size=size, entry_idx=legs[0][0]["idx"], entry_price=gross / size, entry_fees=fees, exit_idx=n - 1,
                                           exit_price=close[n - 1, c], exit_fees=0.0, direction=d, status=0, parent_id=pid)))
            ex += mine
            # entry trades: every entry takes its share of the exits
            ins = [(r, abs(s), share) for r, s, share in legs if s * sg > 0]
            outs = [(r, abs(s), share) for r, s, share in legs if s * sg < 0]
            tot = sum(s for _, s, _ in ins)
            left = 0.0 if closed else tot - sum(s for _, s, _ in outs)
            xg = sum(s * r["price"] for r, s, _ in outs) + (left * close[n - 1, c] if left else 0.0)
            xf = sum(share * r["fees"] for r, _, share in outs)
            en_mine = [value_of(Trade(col=c, size=s, entry_idx=r["idx"], entry_price=r["price"], entry_fees=share * r["fees"],
                                      exit_idx=outs[-1][0]["idx"] if closed else n - 1, exit_price=xg / tot, exit_fees=xf * s / tot,
                                      direction=d, status=int(closed), parent_id=pid)) for r, s, share in ins]
            en += en_mine
            ps.append(value_of(Trade(col=c, size=tot, entry_idx=legs[0][0]["idx"], entry_price=sum(s * r["price"] for r, s, _ in ins) / tot,
                                     entry_fees=sum(x.entry_fees for x in en_mine), exit_idx=en_mine[-1].exit_idx, exit_price=xg / tot,
                                     exit_fees=xf, direction=d, status=int(closed), parent_id=pid)))
    return ex, en, ps


FIELDS = ["col", "size", "entry_idx", "entry_price", "entry_fees", "exit_idx", "exit_price", "exit_fees", "pnl", "direction", "status", "parent_id"]


def compare(got, want, what, ctx):
    expect(len(got) == len(want), "number of " + what, got=got, want=[t.__dict__ for t in want], **ctx)
    for j, (r, t) in enumerate(zip(got, want)):
        expect(r["id"] == j, "ids are consecutive: " + what, got=got, **ctx)
        for f in FIELDS:
            expect(same(r[f], getattr(t, f), 1e-7), "%s: %s" % (what, f), index=j, got=got[j], want=t.__dict__, **ctx)
        expect(same(r["return"], t.ret, 1e-6), "%s: return" % what, index=j, got=got[j], want=t.__dict__, **ctx)


def order_stream(rng):
    """Order records and closes, not necessarily from a simulation: any stream of fills is valid."""
    n, m = int(rng.integers(1, 8)), int(rng.integers(1, 4))
    rows = []
    for c in range(m):
        pos = 0.0
        if rng.random() < 0.1:
            continue
        for i in range(n):
            for _ in range(pick(rng, 0, 1, 1, 2) if rng.random() < 0.9 else 3):
                q = rng.random()
                if pos and q < 0.2:
                    s = -pos
                elif pos and q < 0.35:
                    s = -2 * pos
                else:
                    s = float(rng.integers(1, 9)) / 2 * pick(rng, 1, -1)
                pos += s
                rows.append((i, c, s, rng.integers(2, 30) / 2.0, pick(rng, 0.0, 0.25, 1.0)))
    rows.sort(key=lambda r: (r[0],))
    if rng.random() < 0.5:
        rows.sort(key=lambda r: (r[1], r[0]))
    recs = np.zeros(len(rows), order_dt)
    for j, (i, c, s, p, f) in enumerate(rows):
        recs[j] = tuple({"id": j, "col": c, "idx": i, "size": abs(s), "price": p, "fees": f, "side": 0 if s > 0 else 1}[x] for x in order_dt.names)
    return recs, rng.integers(2, 30, (n, m)) / 2.0


@monitor("C10", 500, "vectorbt.portfolio.nb:get_exit_trades_nb vectorbt.portfolio.nb:get_entry_trades_nb vectorbt.portfolio.nb:get_positions_nb "
         "vectorbt.portfolio.nb:fill_entry_trades_in_position_nb vectorbt.portfolio.nb:fill_position_record_nb")
def trades_of_order_streams(rng):
    recs, close = order_stream(rng)
    m = close.shape[1]
    ctx = dict(orders=recs, close=close)
    cm = rnb.col_map_nb(recs["col"], m)
    ex, en, ps = expected_trades(recs, close, m)
    gx = nb.get_exit_trades_nb(recs, close, cm)
    ge = nb.get_entry_trades_nb(recs, close, cm)
    compare(gx, ex, "exit trades", ctx)
    compare(ge, en, "entry trades", ctx)
    for src, what in ((gx, "positions from exit trades"), (ge, "positions from entry trades")):
        gp = nb.get_positions_nb(src, rnb.col_map_nb(src["col"], m))
        compare(gp, ps, what, ctx)
    gp = nb.get_positions_nb(gx, rnb.col_map_nb(gx["col"], m))
    gp2 = nb.get_positions_nb(gp, rnb.col_map_nb(gp["col"], m))
    compare(gp2, ps, "positions from positions", ctx)
    # conservation, straight from the records
    for c in range(m):
        o = recs[recs["col"] == c]
        sgn = np.where(o["side"] == 0, 1, -1)
        flow = -(sgn * o["size"] * o["price"]).sum() - o["fees"].sum()
        held = (sgn * o["size"]).sum()
        for what, t in (("exit trades", gx), ("entry trades", ge), ("positions", gp)):
            t = t[t["col"] == c]
            expect(same(t["pnl"].sum(), flow + held * close[-1, c], 1e-7), "profit of the %s is the cash flow plus what is still held" % what, col=c, **ctx)
            expect(same(t["entry_fees"].sum() + t["exit_fees"].sum(), o["fees"].sum(), 1e-7), "fees of the %s" % what, col=c, **ctx)
            expect((t["entry_idx"] <= t["exit_idx"]).all(), "entry before exit: %s" % what, col=c, **ctx)
    # streaks
    for f, win in ((nb.trade_winning_streak_nb, True), (nb.trade_losing_streak_nb, False)):
        run, w = 0, []
        for r in gx:
            run = run + 1 if (r["pnl"] > 0 if win else r["pnl"] < 0) else 0
            w.append(run)
        expect(same(f(gx), np.array(w, dtype=int)), "streak", win=win, got=f(gx), want=w, **ctx)
    bad = recs.copy()
    if len(bad):
        j = int(rng.integers(len(bad)))
        for fld, v in (("size", 0.0), ("size", -1.0), ("price", 0.0)):
            b2 = bad.copy()
            b2[fld][j] = v
            for fn in (nb.get_exit_trades_nb, nb.get_entry_trades_nb):
                try:
                    fn(b2, close, cm)
                except ValueError:
                    continue
                expect(False, "orders without size or price are refused", field=fld, index=j, **ctx)


@monitor("C10", 80, "vectorbt.portfolio.trades:Trades vectorbt.portfolio.base:Portfolio")
def trades_of_portfolios(rng):
    k = random_portfolio(rng)
    ex, en, ps = expected_trades(k.orders, k.close, k.m)     # what is still open is valued at the last close as given
    compare(k.pf.exit_trades.values, ex, "exit trades", k.ctx)
    compare(k.pf.entry_trades.values, en, "entry trades", k.ctx)
    compare(k.pf.positions.values, ps, "positions", k.ctx)
    t = k.pf.exit_trades
    pnl = np.array([x.pnl for x in ex])
    expect(same(t.winning.values["pnl"], pnl[pnl > 0], 1e-7), "winning trades", **k.ctx)
    expect(same(t.losing.values["pnl"], pnl[pnl < 0], 1e-7), "losing trades", **k.ctx)
    col = np.array([x.col for x in ex], dtype=int)
    if len(ex):
        parts = k.gcols if k.groups is not None else [[c] for c in range(k.m)]
        wr = [np.mean(pnl[np.isin(col, c)] > 0) if np.isin(col, c).any() else nan for c in parts]
        if not (np.abs(pnl) < 1e-9).any():
            expect(same(np.atleast_1d(t.win_rate()), wr, 1e-7), "win rate", got=np.atleast_1d(t.win_rate()), want=wr, **k.ctx)
    st = np.array([x.status for x in ex], dtype=int)
    expect(same(t.open.values["id"], np.flatnonzero(st == 0)), "open trades", **k.ctx)
    expect(same(t.closed.values["id"], np.flatnonzero(st == 1)), "closed trades", **k.ctx)
    dr = np.array([x.direction for x in ex], dtype=int)
    expect(same(t.long.values["id"], np.flatnonzero(dr == 0)), "long trades", **k.ctx)
    expect(same(t.short.values["id"], np.flatnonzero(dr == 1)), "short trades", **k.ctx)



# ------------------------------------------------------------------------ selecting, regrouping, rebuilding
SERIES = dict(C09=("asset_flow", "assets", "cash_flow", "cash", "position_mask"),
              C11=("asset_value", "value", "returns", "gross_exposure", "asset_returns", "benchmark_value"))
NUMBERS = dict(C09=("position_coverage", "init_cash_"), C11=("total_profit", "final_value", "total_return", "init_cash_"))


def number(pf, name, **kw):
    return np.atleast_1d(pf.get_init_cash(**kw) if name == "init_cash_" else getattr(pf, name)(**kw))


def selected(prop, rng):
    """A portfolio of some columns (or groups) holds exactly those columns of the whole, in the order asked for."""
    k = random_portfolio(rng)
    pf = k.pf
    grouped = k.groups is not None
    G = len(k.gcols) if grouped else k.m
    if G == 1:
        return
    want = [int(x) for x in rng.permutation(G)[:int(rng.integers(1, G + 1))]]
    single = rng.random() < 0.3
    if single:
        want = want[:1]
    sub = pf.iloc[want[0]] if single else pf.iloc[want]
    cols = [c for g in want for c in (k.gcols[g] if grouped else [g])]
    ctx = dict(k.ctx, selected=want, columns=cols)
    one = dict(group_by=False)
    ways = [(one, cols)] + ([({}, want)] if grouped else [])
    for kw, pick_ in ways:
        for name in SERIES[prop]:
            if name in ("asset_flow", "assets"):
                if kw is not one and grouped:
                    continue
                a, b = vals(getattr(pf, name)())[:, pick_], vals(getattr(sub, name)())
            else:
                a, b = vals(getattr(pf, name)(**kw))[:, pick_], vals(getattr(sub, name)(**kw))
            if name == "gross_exposure" and (np.abs(a) > 1e5).any():
                continue
            expect(same(b, a, 1e-7), "%s of a selection is the selection of the whole" % name, grouped=kw is not one, got=b, want=a, **ctx)
        for name in NUMBERS[prop]:
            a, b = number(pf, name, **kw)[pick_], number(sub, name, **kw)
            expect(same(b, a, 1e-7), "%s of a selection is the selection of the whole" % name.strip("_"), grouped=kw is not one, got=b, want=a, **ctx)
    if k.share:
        for name in ("cash",) if prop == "C09" else ("value", "returns"):
            kw = dict(group_by=False, in_sim_order=True)
            a, b = vals(getattr(pf, name)(**kw))[:, cols], vals(getattr(sub, name)(**kw))
            expect(same(b, a, 1e-7), "%s in simulation order of a selection" % name, got=b, want=a, **ctx)
    if prop == "C09":
        expect(same(vals(sub.close), k.close[:, cols]), "close of a selection", **ctx)
        w = [[tuple(r[f] for f in ("idx", "size", "price", "fees", "side")) for r in k.orders if r["col"] == c] for c in cols]
        r_ = sub.orders.values
        g = [[tuple(r[f] for f in ("idx", "size", "price", "fees", "side")) for r in r_ if r["col"] == j] for j in range(len(cols))]
        expect(w == g, "orders of a selection", got=g, want=w, **ctx)
        expect([int(x) for x in sub.logs.values["col"]] == [j for j, c in enumerate(cols) for r in k.logs if r["col"] == c], "logs of a selection", **ctx)


@monitor("C09", 100, "vectorbt.portfolio.base:Portfolio.indexing_func vectorbt.portfolio.base:Portfolio.cash vectorbt.portfolio.base:Portfolio.assets")
def selected_columns_replay_alike(rng):
    selected("C09", rng)


@monitor("C11", 100, "vectorbt.portfolio.base:Portfolio.indexing_func vectorbt.portfolio.base:Portfolio.value vectorbt.portfolio.base:Portfolio.total_profit")
def selected_columns_value_alike(rng):
    selected("C11", rng)


def regrouped(prop, rng):
    """Grouping chosen afterwards (without cash sharing) only adds up the columns of each group."""
    k = random_portfolio(rng, share=False)
    pf = k.pf
    groups = np.sort(rng.integers(0, k.m, k.m))
    lens = np.unique(groups, return_counts=True)[1]
    k.gcols = [list(range(sum(lens[:g]), sum(lens[:g + 1]))) for g in range(len(lens))]
    ctx = dict(k.ctx, regrouped=groups)
    again = pf.regroup(groups)
    for how, obj, kw in (("by argument", pf, dict(group_by=groups)), ("by regroup", again, {})):
        init = np.broadcast_to(k.init, (k.m,))
        gi = np.array([init[c].sum() for c in k.gcols])
        expect(same(number(obj, "init_cash_", **kw), gi), "initial cash of a group", how=how, got=number(obj, "init_cash_", **kw), want=gi, **ctx)
        for name in ("cash_flow", "cash") if prop == "C09" else ("asset_value", "value"):
            a = sums(k, vals(getattr(pf, name)(group_by=False)))
            b = vals(getattr(obj, name)(**kw))
            expect(same(b, a, 1e-7), "%s of a group is the sum over its columns" % name, how=how, got=b, want=a, **ctx)
        if prop == "C09":
            m = vals(pf.position_mask(group_by=False))
            w = np.stack([m[:, c].any(axis=1) for c in k.gcols], axis=1)
            expect(np.array_equal(vals(obj.position_mask(**kw)), w), "position mask of a group", how=how, **ctx)
            expect(same(number(obj, "position_coverage", **kw), [m[:, c].mean() for c in k.gcols]), "coverage of a group", how=how, **ctx)
            f = sums(k, vals(pf.cash_flow(group_by=False, free=True)))
            expect(same(vals(obj.cash_flow(free=True, **kw)), f, 1e-7), "free cash flow of a group", how=how, **ctx)
        else:
            p = np.array([number(pf, "total_profit", group_by=False)[c].sum() for c in k.gcols])
            expect(same(number(obj, "total_profit", **kw), p, 1e-7), "profit of a group", how=how, got=number(obj, "total_profit", **kw), want=p, **ctx)
            expect(same(number(obj, "final_value", **kw), p + gi, 1e-7), "final value of a group", how=how, **ctx)
            expect(same(number(obj, "total_return", **kw), p / gi, 1e-7), "return of a group", how=how, **ctx)
            v = vals(obj.value(**kw))
            expect(same(vals(obj.returns(**kw)), rets(gi, v), 1e-6), "returns of a group", how=how, **ctx)
            close = pd.DataFrame(k.close).ffill().bfill().values
            with np.errstate(all="ignore"):
                w = np.stack([gi[g] / len(c) * (close[:, c] / close[0, c]).sum(axis=1) for g, c in enumerate(k.gcols)], axis=1)
            b = vals(obj.benchmark_value(**kw))
            expect(same(b, w, 1e-7), "benchmark of a group", how=how, got=b, want=w, **ctx)
    if k.share:
        return
    if prop == "C11":
        dd = pf.get_drawdowns(group_by=False)
        expect(same(vals(dd.ts), vals(pf.value(group_by=False))), "drawdowns are those of the value", **ctx)
        v = vals(pf.value(group_by=False))
        acc = pf.get_returns_acc(group_by=False)
        expect(same(vals(acc.obj), vals(pf.returns(group_by=False)), 1e-9), "returns accessor holds the returns", **ctx)
        expect(same(vals(acc.benchmark_rets), vals(pf.benchmark_returns(group_by=False)), 1e-9), "returns accessor holds the benchmark", **ctx)


@monitor("C09", 80, "vectorbt.portfolio.base:Portfolio.regroup vectorbt.portfolio.base:Portfolio.get_init_cash vectorbt.portfolio.base:Portfolio.cash_flow")
def regrouped_columns_replay_alike(rng):
    regrouped("C09", rng)


@monitor("C11", 80, "vectorbt.portfolio.base:Portfolio.regroup vectorbt.portfolio.base:Portfolio.get_init_cash vectorbt.portfolio.base:Portfolio.value")
def regrouped_columns_value_alike(rng):
    regrouped("C11", rng)


@monitor("C11", 60, "vectorbt.portfolio.base:Portfolio.asset_value (closing prices left as they are)")
def unfilled_close(rng):
    k = random_portfolio(rng, share=False)
    pf = k.pf.replace(fillna_close=False)
    assets = track(k, "new_position", np.zeros(k.m))
    av = np.where(assets == 0, 0.0, k.close * assets)
    g = vals(pf.asset_value(group_by=False))
    expect(same(g, av, 1e-7), "asset value with the closing price as given, zero when nothing is held", got=g, want=av, **k.ctx)
    c = vals(pf.cash(group_by=False))
    expect(same(vals(pf.value(group_by=False)), c + av, 1e-7), "value with the closing price as given", **k.ctx)


@monitor("C10", 80, "vectorbt.portfolio.base:Portfolio.indexing_func vectorbt.portfolio.trades:Trades.indexing_func vectorbt.portfolio.base:Portfolio.get_trades")
def trades_of_selected_columns(rng):
    k = random_portfolio(rng, nans=rng.random() < 0.2)
    grouped = k.groups is not None
    G = len(k.gcols) if grouped else k.m
    if G == 1:
        return
    want = [int(x) for x in rng.permutation(G)[:int(rng.integers(1, G + 1))]]
    cols = [c for g in want for c in (k.gcols[g] if grouped else [g])]
    ctx = dict(k.ctx, selected=want, columns=cols)
    fields = ("col", "size", "entry_idx", "entry_price", "entry_fees", "exit_idx", "exit_price", "exit_fees", "pnl", "return", "direction", "status", "parent_id")
    for name in ("exit_trades", "entry_trades", "positions"):
        whole = getattr(k.pf, name)
        full = whole.values
        w = [[tuple(np.round(float(r[f]), 9) if not math.isnan(float(r[f])) else "nan" for f in fields if f not in ("col", "parent_id")) for r in full if r["col"] == c] for c in cols]
        for how, obj in (("selected trades", whole.iloc[want]), ("trades of the selection", getattr(k.pf.iloc[want], name))):
            g = [[tuple(np.round(float(r[f]), 9) if not math.isnan(float(r[f])) else "nan" for f in fields if f not in ("col", "parent_id")) for r in obj.values if r["col"] == j] for j in range(len(cols))]
            expect(w == g, "%s: %s" % (name, how), got=g, want=w, **ctx)
    from vectorbt.portfolio.enums import TradesType
    for t, name in ((TradesType.ExitTrades, "exit_trades"), (TradesType.EntryTrades, "entry_trades"), (TradesType.Positions, "positions")):
        a, b = k.pf.replace(trades_type=t).trades.values, getattr(k.pf, name).values
        expect(len(a) == len(b) and all(same(a[f].astype(float), b[f].astype(float)) for f in b.dtype.names), "trades of the chosen kind", kind=name, **ctx)


@monitor("C10", 80, "vectorbt.portfolio.trades:Trades.profit_factor vectorbt.portfolio.trades:Trades.expectancy vectorbt.portfolio.trades:Trades.sqn "
         "vectorbt.portfolio.nb:trade_winning_streak_nb vectorbt.portfolio.nb:trade_losing_streak_nb")
def figures_of_trades(rng):
    k = random_portfolio(rng, nans=False)
    for name in ("exit_trades", "entry_trades", "positions"):
        t = getattr(k.pf, name)
        rec = t.values
        if len(rec) and (np.abs(rec["pnl"]) < 1e-9).any():
            continue
        ways = [(dict(group_by=False), [[c] for c in range(k.m)])] + ([({}, k.gcols)] if k.groups is not None else [])
        for kw, parts in ways:
            ctx = dict(k.ctx, trades=name, parts=parts)
            p = [rec["pnl"][np.isin(rec["col"], c)] for c in parts]
            win, loss = [x[x > 0] for x in p], [x[x < 0] for x in p]
            with np.errstate(all="ignore"):
                want = [np.float64(w.sum()) / abs(l.sum()) if len(x) else nan for x, w, l in zip(p, win, loss)]
                exp = [len(w) / len(x) * (w.mean() if len(w) else 0) - len(l) / len(x) * (abs(l.mean()) if len(l) else 0) if len(x) else nan
                       for x, w, l in zip(p, win, loss)]
            expect(same(np.atleast_1d(t.win_rate(**kw)), [len(w) / len(x) if len(x) else nan for x, w in zip(p, win)]), "win rate", **ctx)
            expect(same(np.atleast_1d(t.profit_factor(**kw)), want, 1e-7), "profit factor", got=np.atleast_1d(t.profit_factor(**kw)), want=want, **ctx)
            expect(same(np.atleast_1d(t.expectancy(**kw)), exp, 1e-7), "expectancy", got=np.atleast_1d(t.expectancy(**kw)), want=exp, **ctx)
            got = np.atleast_1d(t.sqn(**kw))
            for g, x in zip(got, p):
                if len(x) > 1 and x.std() > 1e-6 * np.abs(x).max():
                    expect(same(g, np.sqrt(len(x)) * x.mean() / x.std(ddof=1), 1e-6), "system quality number", got=g, pnl=x, **ctx)
        for attr, sign in (("winning_streak", 1), ("losing_streak", -1)):
            want, run, last = [], 0, None
            for r in rec:
                run = (run if r["col"] == last else 0) + 1 if r["pnl"] * sign > 0 else 0
                last = r["col"]
                want.append(run)
            expect(same(getattr(t, attr).values, want), attr, got=getattr(t, attr).values, want=want, **k.ctx)

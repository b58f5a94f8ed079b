"""C05-C08: the simulators against a straightforward bar-by-bar interpreter (bounded, random small inputs).

The interpreter executes single orders with the real execute_order_nb (under contract, C01-C04); everything around it
(price resolution, valuation, ordering, threading of state, records, signal pipeline, stops) is written independently."""
import math
import numpy as np
from vectorbt.portfolio import nb
from vectorbt.portfolio.enums import *
from vectorbt.base import reshape_fns

from pyvc.run import monitor, expect, same, Skip

nan, inf = math.nan, math.inf


def pick(rng, *xs):
    return xs[int(rng.integers(0, len(xs)))]


def flex(rng, n, m, gen, flex_2d, dtype=None, narrow=0.4):
    """A flexible array and its broadcast form. gen(shape) -> array."""
    k = rng.random()
    if k < narrow:
        s = ()
    elif k < narrow + 0.1:
        s = (m,) if flex_2d else (n,)
    elif k < narrow + 0.2:
        s = (1, m)
    elif k < narrow + 0.3:
        s = (n, 1)
    else:
        s = (n, m)
    a = np.asarray(gen(s))
    if dtype is not None:
        a = a.astype(dtype)
    if a.ndim == 1 and not flex_2d:
        full = np.broadcast_to(a[:, None], (n, m))
    else:
        full = np.broadcast_to(a, (n, m))
    return a, full


def choice(rng, xs, p=None):
    xs = list(xs)
    return lambda s: rng.choice(xs, size=s, p=p) if s != () else np.asarray(rng.choice(xs, p=p))


def prices(rng, n, m, nans=True):
    c = rng.integers(2, 14, (n, m)).astype(float)
    if rng.random() < 0.5:
        c = c + rng.integers(0, 4, (n, m)) / 4
    if nans and rng.random() < 0.3:
        c[rng.random((n, m)) < 0.15] = nan
    return c


def grouping(rng, m):
    if rng.random() < 0.5:
        return np.ones(m, dtype=int)
    gl = []
    while sum(gl) < m:
        gl.append(int(rng.integers(1, m - sum(gl) + 1)))
    return np.array(gl)


def stable_order(vals, seen=None):
    """Ascending, NaN last, ties in the original order; the order among NaN is not specified and taken from `seen`."""
    o = sorted(range(len(vals)), key=lambda k: (math.isnan(vals[k]), 0 if math.isnan(vals[k]) else vals[k], k))
    k = sum(not math.isnan(v) for v in vals)
    if seen is not None and sorted(seen[k:]) == sorted(o[k:]):
        o[k:] = [int(x) for x in seen[k:]]
    return o


def approx_value(size, st, d, cash, pos, free, vp, value):
    if d == Direction.ShortOnly:
        size = -size
    av = pos * vp
    if st == SizeType.Amount:
        return size * vp
    if st == SizeType.Value:
        return size
    if st == SizeType.Percent:
        if size >= 0:
            return size * cash
        if d == Direction.LongOnly:
            return size * av
        return size * (2 * max(av, 0) + max(free, 0))
    if st == SizeType.TargetAmount:
        return size * vp - av
    if st == SizeType.TargetValue:
        return size - av
    return size * value - av


class Book:
    """State of a simulation and the records it should write."""

    def __init__(self, init_cash, group_lens, m):
        self.cash = {g: float(c) for g, c in enumerate(init_cash)}
        self.free = dict(self.cash)
        self.pos = np.zeros(m)
        self.debt = np.zeros(m)
        self.vp = np.full(m, nan)
        self.orders, self.logs = [], []

    def value(self, g, cols):
        v = self.cash[g]
        for c in cols:
            if self.pos[c] != 0:
                v = v + self.pos[c] * self.vp[c]
        return v

    def run(self, i, col, g, value, order, update_value, ffill):
        st = ProcessOrderState(cash=self.cash[g], position=float(self.pos[col]), debt=float(self.debt[col]), free_cash=self.free[g],
                               val_price=float(self.vp[col]), value=value, oidx=0, lidx=0)
        es, r = nb.execute_order_nb(st, order)
        filled = r.status == OrderStatus.Filled
        nvp, nval = st.val_price, value
        if filled and update_value:
            nvp = r.price
            nval = value + (es.cash - st.cash) + (es.position * r.price if es.position != 0 else 0.0) - \
                (st.position * st.val_price if st.position != 0 else 0.0)
        if filled:
            self.orders.append((len(self.orders), col, i, r.size, r.price, r.fees, r.side))
        if order.log:
            self.logs.append((len(self.logs), g, col, i, st.cash, st.position, st.debt, st.free_cash, st.val_price, st.value,
                              order.size, order.price, order.size_type, order.direction, order.fees, order.fixed_fees,
                              order.slippage, order.min_size, order.max_size, order.size_granularity, order.reject_prob,
                              order.lock_cash, order.allow_partial, order.raise_reject, order.log,
                              es.cash, es.position, es.debt, es.free_cash, nvp, nval, r.size, r.price, r.fees, r.side,
                              r.status, r.status_info, len(self.orders) - 1 if filled else -1))
        self.cash[g], self.pos[col], self.debt[col], self.free[g] = es.cash, es.position, es.debt, es.free_cash
        if not math.isnan(nvp) or not ffill:
            self.vp[col] = nvp
        return st, es, r, nvp, nval


ORDER_FIELDS = ["id", "col", "idx", "size", "price", "fees", "side"]
LOG_FIELDS = ["id", "group", "col", "idx", "cash", "position", "debt", "free_cash", "val_price", "value", "req_size", "req_price",
              "req_size_type", "req_direction", "req_fees", "req_fixed_fees", "req_slippage", "req_min_size", "req_max_size",
              "req_size_granularity", "req_reject_prob", "req_lock_cash", "req_allow_partial", "req_raise_reject", "req_log",
              "new_cash", "new_position", "new_debt", "new_free_cash", "new_val_price", "new_value", "res_size", "res_price",
              "res_fees", "res_side", "res_status", "res_status_info", "order_id"]


def rows(a, fields):
    return np.array([[float(r[f]) for f in fields] for r in a]).reshape(len(a), len(fields))


def compare(ctx, got, book):
    orders, logs = got
    w = np.array(book.orders, dtype=float).reshape(len(book.orders), len(ORDER_FIELDS))
    g = rows(orders, ORDER_FIELDS)
    expect(g.shape == w.shape, "number of orders", got=orders, want=w, **ctx)
    expect(same(g, w), "order records are the fills of the elements' orders on the state so far", got=orders, want=w, **ctx)
    w = np.array([[float(x) for x in r] for r in book.logs]).reshape(len(book.logs), len(LOG_FIELDS))
    g = rows(logs, LOG_FIELDS)
    expect(g.shape == w.shape, "number of logs", got=g, want=w, **ctx)
    for k, f in enumerate(LOG_FIELDS):
        expect(same(g[:, k], w[:, k]), "log field %s" % f, got=g[:, k], want=w[:, k], **ctx)
    structure(ctx, orders)
    expect(same(logs["id"], np.arange(len(logs))), "log numbering", got=logs["id"], **ctx)


def structure(ctx, orders):
    n, m = ctx["shape"]
    expect(same(orders["id"], np.arange(len(orders))), "numbering is consecutive from zero", got=orders["id"], **ctx)
    expect(bool(((orders["col"] >= 0) & (orders["col"] < m) & (orders["idx"] >= 0) & (orders["idx"] < n)).all()), "records inside the shape", **ctx)
    for c in range(m):
        x = orders["idx"][orders["col"] == c]
        expect(bool((np.diff(x) > 0).all()), "at most one order per bar, in bar order", col=c, got=x, **ctx)


def order_inputs(rng, n, m, signals=False):
    """Random arguments shared by the simulators: name -> (given, full)."""
    f2 = bool(rng.random() < 0.7)
    close = prices(rng, n, m)
    a = {"close": (close, close)}

    def add(name, gen, dtype=None, simple=None, p=0.5):
        if simple is not None and rng.random() > p:
            v = np.asarray(simple)
            a[name] = (v, np.broadcast_to(v, (n, m)))
        else:
            a[name] = flex(rng, n, m, gen, f2, dtype)
    a["price"] = flex(rng, n, m, lambda s: np.where(rng.random(s) < 0.6, inf, np.where(rng.random(s) < 0.4, -inf, rng.integers(2, 14, s).astype(float))), f2)
    if rng.random() < 0.15:
        a["price"] = flex(rng, n, m, lambda s: np.where(rng.random(s) < 0.3, nan, rng.integers(2, 14, s).astype(float)), f2)
    if rng.random() < 0.4:
        a["val_price"] = flex(rng, n, m, choice(rng, [inf, -inf, 5.0, 8.0, nan], [0.3, 0.4, 0.1, 0.1, 0.1]), f2)
    else:
        a["val_price"] = (np.asarray(inf), np.full((n, m), inf))
    add("fees", choice(rng, [0.0, 0.01, 0.1]), float, 0.0)
    add("fixed_fees", choice(rng, [0.0, 0.5, 2.0]), float, 0.0)
    add("slippage", choice(rng, [0.0, 0.05]), float, 0.0)
    add("min_size", choice(rng, [0.0, 1.0, 3.0]), float, 0.0, 0.3)
    add("max_size", choice(rng, [inf, 4.0, 2.0]), float, inf, 0.3)
    add("size_granularity", choice(rng, [nan, 1.0, 0.5]), float, nan, 0.3)
    add("reject_prob", choice(rng, [0.0, 1.0], [0.8, 0.2]), float, 0.0, 0.3)
    add("lock_cash", choice(rng, [False, True]), bool, False)
    add("allow_partial", choice(rng, [True, False], [0.8, 0.2]), bool, True, 0.3)
    add("raise_reject", choice(rng, [False]), bool, False)
    add("log", choice(rng, [False, True]), bool, True)
    return a, f2


def sizes(rng, s):
    k = rng.random()
    x = rng.integers(-6, 7, s).astype(float)
    if k < 0.3:
        x = np.where(rng.random(s) < 0.3, rng.choice([inf, -inf, nan], s), x)
    elif k < 0.6:
        x = x / 4
    return x


def make_order(a, i, c, size, price, st, d, slippage=None):
    f = {k: v[1][i, c] for k, v in a.items() if k in ("fees", "fixed_fees", "min_size", "max_size", "size_granularity", "reject_prob")}
    b = {k: bool(a[k][1][i, c]) for k in ("lock_cash", "allow_partial", "raise_reject", "log")}
    return nb.order_nb(size=float(size), price=float(price), size_type=int(st), direction=int(d),
                       slippage=float(a["slippage"][1][i, c] if slippage is None else slippage),
                       **{k: float(v) for k, v in f.items()}, **b)


def resolve_price(a, i, c, lower=None):
    p = a["price"][1][i, c]
    cl = a["close"][1]
    if p == inf:
        return cl[i, c]
    if p == -inf:
        if lower is not None and not math.isnan(lower[i, c]):
            return lower[i, c]
        return cl[i - 1, c] if i else nan
    return p


def resolve_val(a, i, c, price):
    v = a["val_price"][1][i, c]
    if v == inf:
        return price
    if v == -inf:
        return a["close"][1][i - 1, c] if i else nan
    return v


def bounds(gl):
    e = np.cumsum(gl)
    return [(int(b - l), int(b)) for b, l in zip(e, gl)]


def oracle_orders(a, gl, sharing, init_cash, call_seq, auto, ffill, upd, n, m, seen=None):
    bk = Book(init_cash, gl, m)
    for g, (lo, hi) in enumerate(bounds(gl)):
        cols = list(range(lo, hi))
        for i in range(n):
            pr = {}
            for c in cols:
                pr[c] = resolve_price(a, i, c)
                v = resolve_val(a, i, c, pr[c])
                if not math.isnan(v) or not ffill:
                    bk.vp[c] = v
            seq = cols
            gv = None
            if sharing:
                gv = bk.value(g, cols)
                if auto:
                    vals = [approx_value(*(float(a[k][1][i, c]) for k in ("size", "size_type", "direction")), bk.cash[g], bk.pos[c], bk.free[g], bk.vp[c], gv) for c in cols]
                    seq = [cols[k] for k in stable_order(vals, None if seen is None else seen[i, lo:hi].tolist())]
                    call_seq[i, lo:hi] = [c - lo for c in seq]
                else:
                    seq = [lo + k for k in call_seq[i, lo:hi]]
            for c in seq:
                val = gv if sharing else bk.value(g, [c])
                o = make_order(a, i, c, a["size"][1][i, c], pr[c], a["size_type"][1][i, c], a["direction"][1][i, c])
                r = bk.run(i, c, g, val, o, upd, ffill)
                if sharing:
                    gv = r[4]
    return bk


def orders_case(rng, n=None, m=None):
    n = n or int(rng.integers(1, 6))
    m = m or int(rng.integers(1, 4))
    a, f2 = order_inputs(rng, n, m)
    a["size"] = flex(rng, n, m, lambda s: sizes(rng, s), f2, narrow=0.15)
    st = pick(rng, [0], [0], [1], [2], [3], [4], [5], list(range(6)))
    a["size_type"] = flex(rng, n, m, choice(rng, st), f2, int)
    if SizeType.Percent in st or SizeType.TargetPercent in st:
        s = a["size"][0]
        w = np.where(np.isfinite(s), np.clip(s / 4, -1.5, 1.5), 0.5)
        if m > 1:
            w = np.abs(w) if rng.random() < 0.5 else w
        x = w if w.ndim else np.asarray(w)
        full = np.broadcast_to(x[:, None] if (x.ndim == 1 and not f2) else x, (n, m))
        a["size"] = (x, full)
    d = pick(rng, [0], [1], [2], [2])
    a["direction"] = flex(rng, n, m, choice(rng, d), f2, int)
    if rng.random() < 0.3 and m > 1:
        x = rng.integers(0, 3, (1, m))
        a["direction"] = (x, np.broadcast_to(x, (n, m)))
    gl = grouping(rng, m)
    sharing = bool((gl > 1).any())
    init_cash = rng.choice([20.0, 50.0, 100.0, 0.0, inf], len(gl), p=[0.3, 0.3, 0.2, 0.1, 0.1])
    auto = bool(rng.random() < 0.5)
    cst = 0 if auto else int(rng.integers(0, 3))
    call_seq = nb.build_call_seq((n, m), gl, cst)
    ffill, upd = bool(rng.random() < 0.7), bool(rng.random() < 0.5)
    return a, f2, gl, sharing, init_cash, call_seq, auto, ffill, upd, n, m


def desc(a, gl, init_cash, call_seq, auto, ffill, upd, n, m, f2):
    return dict(shape=(n, m), group_lens=gl, init_cash=init_cash, call_seq=call_seq.copy(), auto_call_seq=auto, ffill_val_price=ffill,
                update_value=upd, flex_2d=f2, **{k: v[0] for k, v in a.items()})


def sim_orders(a, gl, init_cash, call_seq, auto, ffill, upd, n, m, f2, **kw):
    return nb.simulate_from_orders_nb((n, m), gl, init_cash, call_seq, **{k: v[0] for k, v in a.items()}, auto_call_seq=auto,
                                      ffill_val_price=ffill, update_value=upd, max_logs=n * m, flex_2d=f2, **kw)


EXPECTED = (ValueError, ZeroDivisionError)


@monitor("C07 C08", 480, "vectorbt.portfolio.nb:simulate_from_orders_nb vectorbt.portfolio.nb:process_order_nb vectorbt.portfolio.nb:order_nb")
def orders_simulator(rng):
    a, f2, gl, sharing, ic, cs, auto, ffill, upd, n, m = orders_case(rng)
    ctx = desc(a, gl, ic, cs, auto, ffill, upd, n, m, f2)
    cs2 = cs.copy()
    try:
        got = sim_orders(a, gl, ic, cs, auto, ffill, upd, n, m, f2)
    except EXPECTED:
        got = None
    try:
        bk = oracle_orders(a, gl, sharing, ic, cs2, auto, ffill, upd, n, m, seen=cs if got is not None else None)
    except EXPECTED:
        bk = None
    if bk is None or got is None:
        expect(bk is None and got is None, "refused exactly when one of the orders is refused", oracle_refuses=bk is None, **ctx)
        raise Skip
    compare(ctx, got, bk)
    if auto and sharing:
        expect(same(cs, cs2), "call sequence is the stable ascending order of the approximate order values", got=cs, want=cs2, **ctx)


def cut(a, t, f2, n, m, rng):
    """The same inputs with everything after bar t replaced."""
    b = {}
    for k, (v, full) in a.items():
        x = np.array(full)
        perm = rng.permutation(n)
        x[t + 1:] = x[perm][t + 1:]
        if k in ("close", "price"):
            y = rng.integers(2, 14, x.shape).astype(float)
            x[t + 1:] = np.where(rng.random(x.shape)[t + 1:] < 0.5, y[t + 1:], x[t + 1:])
        b[k] = (x, x)
    return b


@monitor("C07", 240, "vectorbt.portfolio.nb:simulate_from_orders_nb")
def orders_no_look_ahead(rng):
    a, f2, gl, sharing, ic, cs, auto, ffill, upd, n, m = orders_case(rng, n=int(rng.integers(2, 7)))
    ctx = desc(a, gl, ic, cs, auto, ffill, upd, n, m, f2)
    t = int(rng.integers(0, n - 1))
    b = cut(a, t, f2, n, m, rng)
    try:
        o1, _ = sim_orders(a, gl, ic, cs.copy(), auto, ffill, upd, n, m, f2)
        o2, _ = sim_orders(b, gl, ic, cs.copy(), auto, ffill, upd, n, m, True)
    except EXPECTED:
        raise Skip
    F = ORDER_FIELDS[1:]
    x, y = rows(o1[o1["idx"] <= t], F), rows(o2[o2["idx"] <= t], F)
    expect(same(x, y), "orders up to a bar do not depend on later bars", t=t, got=y, want=x, **ctx)
    # a group alone
    g = int(rng.integers(0, len(gl)))
    lo, hi = bounds(gl)[g]
    c = {k: (np.array(v[1][:, lo:hi]), np.array(v[1][:, lo:hi])) for k, v in a.items()}
    if sharing and hi - lo == 1:
        raise Skip
    o3, _ = sim_orders(c, gl[g:g + 1], ic[g:g + 1], cs[:, lo:hi].copy(), auto, ffill, upd, n, hi - lo, True)
    o1 = o1[(o1["col"] >= lo) & (o1["col"] < hi)]
    x, y = rows(o1, F), rows(o3, F)
    y[:, 0] += lo
    expect(same(x, y), "the orders of a group do not depend on other groups", group=g, got=x, want=y, **ctx)


# ------------------------------------------------------------------------------------------------ signals
def conflict(pos, en, ex, mode):
    if not (en and ex):
        return en, ex
    if mode == ConflictMode.Entry:
        return True, False
    if mode == ConflictMode.Exit:
        return False, True
    if pos == 0 or mode == ConflictMode.Ignore:
        return False, False
    return (True, False) if mode == ConflictMode.Adjacent else (False, True)


def dir_conflict(pos, le, se, mode):
    if not (le and se):
        return le, se
    if mode == DirectionConflictMode.Long:
        return True, False
    if mode == DirectionConflictMode.Short:
        return False, True
    if pos == 0 or mode == DirectionConflictMode.Ignore:
        return False, False
    long_ = (pos > 0) == (mode == DirectionConflictMode.Adjacent)
    return long_, not long_


def opposite(pos, s, mode, acc):
    le, lx, se, sx = s
    if (pos > 0 and se) or (pos < 0 and le):
        if mode == OppositeEntryMode.Ignore:
            s = (le, lx, False, sx) if pos > 0 else (False, lx, se, sx)
        elif mode in (OppositeEntryMode.Close, OppositeEntryMode.CloseReduce):
            s = (le, True, False, sx) if pos > 0 else (False, lx, se, True)
        if mode in (OppositeEntryMode.Close, OppositeEntryMode.Reverse):
            acc = AccumulationMode.Disabled
    return s, acc


def to_size(pos, s, size, st, acc, vp):
    """(signed size, size type, direction) of the surviving signal."""
    le, lx, se, sx = s
    if st not in (SizeType.Amount, SizeType.Value, SizeType.Percent) or size < 0:
        raise ValueError
    reduce = acc in (AccumulationMode.Both, AccumulationMode.RemoveOnly)
    add = acc in (AccumulationMode.Both, AccumulationMode.AddOnly)
    if pos == 0:
        return (size if le else -size if se else 0.0), st, Direction.Both
    sg = 1 if pos > 0 else -1
    opp, ex, own = (se, lx, le) if pos > 0 else (le, sx, se)
    side = Direction.LongOnly if pos > 0 else Direction.ShortOnly
    if opp:
        if reduce:
            return -sg * size, st, Direction.Both
        x = abs(pos)
        if not math.isnan(size):
            if st == SizeType.Percent:
                raise ValueError
            x += size / vp if st == SizeType.Value else size
        return -sg * x, SizeType.Amount, Direction.Both
    if ex:
        return (-sg * size, st, side) if reduce else (-sg * abs(pos), SizeType.Amount, side)
    if own:
        return (sg * size if add else 0.0), st, side
    return 0.0, st, Direction.Both


def stop_hit(pos, ref, stop, o, lo, hi, below):
    if stop < 0:
        raise ValueError
    if pos == 0:
        return nan
    down = (pos > 0) == below
    level = ref * (1 - stop) if down else ref * (1 + stop)
    if (o <= level) if down else (o >= level):
        return o
    return level if lo <= level <= hi else nan


def oracle_signals(a, gl, sharing, init_cash, call_seq, auto, ffill, upd, use_stops, n, m, note=None, seen=None):
    bk = Book(init_cash, gl, m)
    A = {k: v[1] for k, v in a.items()}
    for g, (lo, hi) in enumerate(bounds(gl)):
        cols = list(range(lo, hi))
        stops = {c: None for c in cols}     # c -> dict(sl, sl_ref, trail, tp, tp_ref)
        for i in range(n):
            pr, todo = {}, {}
            for c in cols:
                pr[c] = resolve_price(a, i, c, A["open"])
                v = resolve_val(a, i, c, pr[c])
                if not math.isnan(v) or not ffill:
                    bk.vp[c] = v
            for c in cols:
                pos = bk.pos[c]
                hit = nan
                s = stops[c]
                price, slip = pr[c], A["slippage"][i, c]
                acc = A["accumulate"][i, c]
                if use_stops and s and not (math.isnan(s["sl"]) and math.isnan(s["tp"])):
                    o, h, l, cl = (A[k][i, c] for k in ("open", "high", "low", "close"))
                    o = cl if math.isnan(o) else o
                    l = min(o, cl) if math.isnan(l) else l
                    h = max(o, cl) if math.isnan(h) else h
                    if not math.isnan(s["sl"]):
                        hit = stop_hit(pos, s["sl_ref"], s["sl"], o, l, h, True)
                    if math.isnan(hit) and not math.isnan(s["tp"]):
                        hit = stop_hit(pos, s["tp_ref"], s["tp"], o, l, h, False)
                    if not math.isnan(s["sl"]) and s["trail"]:
                        if pos > 0 and h > s["sl_ref"]:
                            s["sl_ref"] = h
                        if pos < 0 and l < s["sl_ref"]:
                            s["sl_ref"] = l
                if not math.isnan(hit):
                    if note is not None:
                        note.append((i, c, hit))
                    mode = A["upon_stop_exit"][i, c]
                    rev = mode in (StopExitMode.Reverse, StopExitMode.ReverseReduce)
                    sig = ((False, not rev, rev, False) if pos > 0 else (rev, False, False, not rev))
                    if mode in (StopExitMode.Close, StopExitMode.Reverse):
                        acc = AccumulationMode.Disabled
                    sep = A["stop_exit_price"][i, c]
                    if sep == StopExitPrice.StopMarket:
                        price = hit
                    elif sep == StopExitPrice.StopLimit:
                        price, slip = hit, 0.0
                    elif sep == StopExitPrice.Close:
                        price = A["close"][i, c]
                else:
                    en, ex, d = bool(A["entries"][i, c]), bool(A["exits"][i, c]), A["direction"][i, c]
                    le, lx, se, sx = (bool(A[k][i, c]) for k in ("long_entries", "long_exits", "short_entries", "short_exits"))
                    if d == Direction.LongOnly:
                        le, lx = le or en, lx or ex
                    elif d == Direction.ShortOnly:
                        se, sx = se or en, sx or ex
                    else:
                        le, se = le or en, se or ex
                    if le or se:
                        le, lx = conflict(pos, le, lx, A["upon_long_conflict"][i, c])
                        se, sx = conflict(pos, se, sx, A["upon_short_conflict"][i, c])
                        le, se = dir_conflict(pos, le, se, A["upon_dir_conflict"][i, c])
                        (le, lx, se, sx), acc = opposite(pos, (le, lx, se, sx), A["upon_opposite_entry"][i, c], acc)
                    sig = (le, lx, se, sx)
                size, st, d = to_size(pos, sig, A["size"][i, c], A["size_type"][i, c], acc, bk.vp[c])
                todo[c] = (size, st, d, price, slip)
            gv, seq = None, cols
            if sharing:
                if auto:
                    vals = []
                    for c in cols:
                        size, st, d = todo[c][:3]
                        vals.append(0.0 if size == 0 else approx_value(size if d != Direction.ShortOnly else -size, st, d, bk.cash[g], bk.pos[c],
                                                                      bk.free[g], bk.vp[c], nan))
                    seq = [cols[k] for k in stable_order(vals, None if seen is None else seen[i, lo:hi].tolist())]
                    call_seq[i, lo:hi] = [c - lo for c in seq]
                else:
                    seq = [lo + k for k in call_seq[i, lo:hi]]
                gv = bk.value(g, cols)
            for c in seq:
                size, st, d, price, slip = todo[c]
                if size == 0:
                    continue
                val = gv if sharing else bk.value(g, [c])
                o = make_order(a, i, c, -size if d == Direction.ShortOnly else size, price, st, d, slip)
                s0, es, r, nvp, nval = bk.run(i, c, g, val, o, upd, ffill)
                if sharing:
                    gv = nval
                if not use_stops or r.status != OrderStatus.Filled:
                    continue
                if es.position == 0:
                    stops[c] = None
                    continue
                sep = A["stop_entry_price"][i, c]
                ref = (nvp if sep == StopEntryPrice.ValPrice else price if sep == StopEntryPrice.Price else
                       r.price if sep == StopEntryPrice.FillPrice else A["close"][i, c])
                new = dict(sl=A["sl_stop"][i, c], sl_ref=ref, trail=bool(A["sl_trail"][i, c]), tp=A["tp_stop"][i, c], tp_ref=ref)
                if s0.position == 0 or (s0.position > 0) != (es.position > 0):
                    stops[c] = new
                elif abs(es.position) > abs(s0.position):
                    mode = A["upon_stop_update"][i, c]
                    for k, ks in (("sl", ("sl", "sl_ref", "trail")), ("tp", ("tp", "tp_ref"))):
                        if mode == StopUpdateMode.OverrideNaN or (mode == StopUpdateMode.Override and not math.isnan(new[k])):
                            for x in ks:
                                stops[c][x] = new[x]
    return bk


def signals_case(rng, n=None, m=None, mode=None):
    n = n or int(rng.integers(1, 8))
    m = m or int(rng.integers(1, 4))
    a, f2 = order_inputs(rng, n, m)

    def add(name, gen, dtype=None, simple=None, p=0.5):
        if simple is not None and rng.random() > p:
            v = np.asarray(simple)
            a[name] = (v, np.broadcast_to(v, (n, m)))
        else:
            a[name] = flex(rng, n, m, gen, f2, dtype)
    close = a["close"][1]
    pad = rng.integers(0, 6, (2, n, m)) / 2
    op = np.where(rng.random((n, m)) < 0.3, close, close + rng.integers(-4, 5, (n, m)) / 2)
    hi, lo = np.fmax(op, close) + pad[0], np.fmax(0.5, np.fmin(op, close) - pad[1])
    k = rng.random()
    for name, x in (("open", op), ("high", hi), ("low", lo)):
        if k < 0.2:
            x = np.asarray(nan)
        elif k < 0.4:
            x = np.where(rng.random((n, m)) < 0.3, nan, x)
        a[name] = (x, np.broadcast_to(x, (n, m)))
    add("size", choice(rng, [1.0, 2.0, 5.0, inf, nan, 0.5]), float, pick(rng, inf, 2.0))
    st = pick(rng, [0], [0], [0], [1], [2])
    if st == [2]:
        a["size"] = flex(rng, n, m, choice(rng, [0.25, 0.5, 1.0]), f2, float)
    a["size_type"] = flex(rng, n, m, choice(rng, st), f2, int)
    mode = mode or pick(rng, "dir", "ls", "ls", "both")
    p = float(rng.choice([0.2, 0.5, 0.8]))
    for x in ("entries", "exits"):
        add(x, lambda s: rng.random(s) < p, bool, False, 1.0 if mode != "ls" else 0.0)
    for x in ("long_entries", "long_exits", "short_entries", "short_exits"):
        add(x, lambda s: rng.random(s) < p, bool, False, 1.0 if mode != "dir" else 0.0)
    add("direction", choice(rng, pick(rng, [0], [1], [2], [0, 1, 2])), int)
    add("accumulate", choice(rng, range(4)), int, 0)
    add("upon_long_conflict", choice(rng, range(5)), int)
    add("upon_short_conflict", choice(rng, range(5)), int)
    add("upon_dir_conflict", choice(rng, range(5)), int)
    add("upon_opposite_entry", choice(rng, range(5)), int)
    use_stops = bool(rng.random() < 0.75)
    S = [nan, 0.05, 0.1, 0.25, 0.5]
    add("sl_stop", choice(rng, S), float, nan, 0.8)
    add("sl_trail", choice(rng, [False, True]), bool, True)
    add("tp_stop", choice(rng, S), float, nan, 0.6)
    add("stop_entry_price", choice(rng, range(4)), int)
    add("stop_exit_price", choice(rng, range(4)), int)
    add("upon_stop_exit", choice(rng, range(4)), int)
    add("upon_stop_update", choice(rng, range(3)), int)
    gl = grouping(rng, m)
    sharing = bool((gl > 1).any())
    init_cash = rng.choice([20.0, 50.0, 100.0, 400.0], len(gl))
    auto = bool(rng.random() < 0.5)
    call_seq = nb.build_call_seq((n, m), gl, 0 if auto else int(rng.integers(0, 3)))
    ffill, upd = bool(rng.random() < 0.7), bool(rng.random() < 0.5)
    return a, f2, gl, sharing, init_cash, call_seq, auto, ffill, upd, use_stops, n, m


def sim_signals(a, gl, init_cash, call_seq, auto, ffill, upd, use_stops, n, m, f2):
    return nb.simulate_from_signals_nb((n, m), gl, init_cash, call_seq, **{k: v[0] for k, v in a.items()}, use_stops=use_stops,
                                       auto_call_seq=auto, ffill_val_price=ffill, update_value=upd, max_logs=n * m, flex_2d=f2)


@monitor("C05 C06 C07", 640, "vectorbt.portfolio.nb:simulate_from_signals_nb")
def signals_simulator(rng):
    a, f2, gl, sharing, ic, cs, auto, ffill, upd, us, n, m = signals_case(rng)
    ctx = desc(a, gl, ic, cs, auto, ffill, upd, n, m, f2)
    ctx["use_stops"] = us
    cs2 = cs.copy()
    try:
        got = sim_signals(a, gl, ic, cs, auto, ffill, upd, us, n, m, f2)
    except EXPECTED:
        got = None
    try:
        bk = oracle_signals(a, gl, sharing, ic, cs2, auto, ffill, upd, us, n, m, seen=cs if got is not None else None)
    except EXPECTED:
        bk = None
    if bk is None or got is None:
        expect(bk is None and got is None, "refused exactly when a signal or order is refused", oracle_refuses=bk is None, **ctx)
        raise Skip
    compare(ctx, got, bk)
    if auto and sharing:
        expect(same(cs, cs2), "call sequence is the stable ascending order of the approximate order values", got=cs, want=cs2, **ctx)


@monitor("C05 C07", 200, "vectorbt.portfolio.nb:simulate_from_signal_func_nb vectorbt.portfolio.nb:dir_enex_signal_func_nb vectorbt.portfolio.nb:ls_enex_signal_func_nb")
def signal_function_simulator(rng):
    mode = pick(rng, "dir", "ls")
    a, f2, gl, sharing, ic, cs, auto, ffill, upd, us, n, m = signals_case(rng, mode=mode)
    ctx = desc(a, gl, ic, cs, auto, ffill, upd, n, m, f2)
    ctx["use_stops"] = us
    cs2 = cs.copy()
    names = ("entries", "exits", "direction") if mode == "dir" else ("long_entries", "long_exits", "short_entries", "short_exits")
    if mode == "ls":
        z = np.asarray(False)
        a["entries"] = a["exits"] = (z, np.broadcast_to(z, (n, m)))
    f = nb.dir_enex_signal_func_nb if mode == "dir" else nb.ls_enex_signal_func_nb
    drop = ("entries", "exits", "direction", "long_entries", "long_exits", "short_entries", "short_exits")
    try:
        got = nb.simulate_from_signal_func_nb((n, m), gl, ic, cs, signal_func_nb=f, signal_args=tuple(a[k][0] for k in names),
                                              **{k: v[0] for k, v in a.items() if k not in drop}, use_stops=us, auto_call_seq=auto,
                                              ffill_val_price=ffill, update_value=upd, max_logs=n * m, flex_2d=f2)
        bk = oracle_signals(a, gl, sharing, ic, cs2, auto, ffill, upd, us, n, m, seen=cs)
    except EXPECTED:
        raise Skip
    compare(ctx, got, bk)


@monitor("C07", 160, "vectorbt.portfolio.nb:simulate_from_signals_nb")
def signals_no_look_ahead(rng):
    a, f2, gl, sharing, ic, cs, auto, ffill, upd, us, n, m = signals_case(rng, n=int(rng.integers(2, 7)))
    ctx = desc(a, gl, ic, cs, auto, ffill, upd, n, m, f2)
    t = int(rng.integers(0, n - 1))
    b = cut(a, t, f2, n, m, rng)
    try:
        o1, _ = sim_signals(a, gl, ic, cs.copy(), auto, ffill, upd, us, n, m, f2)
        o2, _ = sim_signals(b, gl, ic, cs.copy(), auto, ffill, upd, us, n, m, True)
    except EXPECTED:
        raise Skip
    F = ORDER_FIELDS[1:]
    x, y = rows(o1[o1["idx"] <= t], F), rows(o2[o2["idx"] <= t], F)
    expect(same(x, y), "orders up to a bar do not depend on later bars", t=t, got=y, want=x, **ctx)


# ------------------------------------------------------------------------------------------------ function driven simulators
def order_from(c, A, f2):
    sel = reshape_fns.flex_select_auto_nb
    return nb.order_nb(**{k: sel(A[k], c.i, c.col, f2) for k in A})


NAMES = ("size", "price", "size_type", "direction", "fees", "fixed_fees", "slippage", "min_size", "max_size", "size_granularity",
         "reject_prob", "lock_cash", "allow_partial", "raise_reject", "log")


@monitor("C07", 320, "vectorbt.portfolio.nb:simulate_nb vectorbt.portfolio.nb:simulate_row_wise_nb vectorbt.portfolio.nb:flex_simulate_nb "
         "vectorbt.portfolio.nb:flex_simulate_row_wise_nb vectorbt.portfolio.nb:replace_inf_price_nb")
def function_simulators(rng):
    a, f2, gl, sharing, ic, cs, auto, ffill, upd, n, m = orders_case(rng)
    if not sharing and rng.random() < 0.5:
        gl = grouping(rng, m)                       # grouped without sharing cash: cash per column
        cs = nb.build_call_seq((n, m), gl, int(rng.integers(0, 3)))
        ic = rng.choice([20.0, 50.0, 100.0], m)
        if rng.random() < 0.5:
            sharing = True
            ic = ic[:len(gl)]
    auto = False
    row_wise = bool(rng.random() < 0.5)
    flexible = bool(rng.random() < 0.5)
    mask = rng.random((n, len(gl))) < pick(rng, 1.0, 0.7)
    ctx = desc(a, gl, ic, cs, auto, ffill, upd, n, m, f2)
    ctx.update(sharing=sharing, segment_mask=mask, row_wise=row_wise, flexible=flexible)
    close = a["close"][1]
    A = {k: a[k][0] for k in NAMES}
    full = {k: a[k][1] for k in NAMES}
    # interpreter
    bk = Book(ic, gl, m)
    seen = []
    bd = bounds(gl)
    gof = np.repeat(np.arange(len(gl)), gl)
    key = (lambda c: gof[c]) if sharing else (lambda c: c)

    def value(c):
        return bk.value(gof[c], list(range(*bd[gof[c]]))) if sharing else bk.value(c, [c])
    segs = [(i, g) for i in range(n) for g in range(len(gl))] if row_wise else [(i, g) for g in range(len(gl)) for i in range(n)]
    val0, val1 = {key(c): float(ic[key(c)]) for c in range(m)}, {key(c): float(ic[key(c)]) for c in range(m)}
    want = []
    try:
        for i, g in segs:
            cols = list(range(*bd[g]))
            if mask[i, g]:
                gv = value(cols[0]) if sharing else None
                vals = {c: value(c) for c in cols}
                for k in cs[i, cols[0]:cols[-1] + 1]:
                    c = cols[0] + int(k)
                    v = gv if sharing else vals[c]
                    p = full["price"][i, c]
                    if p == inf:
                        p = close[i, c]
                    elif p == -inf:
                        p = close[i - 1, c] if i else nan
                    o = make_order(a, i, c, full["size"][i, c], p, full["size_type"][i, c], full["direction"][i, c])
                    grp = bk
                    st = ProcessOrderState(cash=bk.cash[key(c)], position=float(bk.pos[c]), debt=float(bk.debt[c]), free_cash=bk.free[key(c)],
                                           val_price=float(bk.vp[c]), value=v, oidx=0, lidx=0)
                    want.append((i, g, c, st, val1[key(c)]))
                    # Book keys cash by its third argument; without sharing cash is kept per column
                    nl = len(bk.logs)
                    r = bk.run(i, c, key(c), v, o, upd, ffill)
                    if len(bk.logs) > nl:
                        bk.logs[-1] = (bk.logs[-1][0], g) + bk.logs[-1][2:]
                    if sharing:
                        gv = r[4]
            for c in cols:
                if not math.isnan(close[i, c]) or not ffill:
                    bk.vp[c] = close[i, c]
            for c in ([cols[0]] if sharing else cols):
                val0[key(c)], val1[key(c)] = val1[key(c)], value(c)
    except EXPECTED:
        want = None
    # real code
    got_ctx, post = [], []

    def order_f(c):
        got_ctx.append((c.i, c.group, c.col, c.cash_now, c.position_now, c.debt_now, c.free_cash_now, c.val_price_now, c.value_now))
        return order_from(c, A, f2)

    def post_f(c):
        post.append((c.i, c.group, c.col, c.cash_before, c.position_before, c.cash_now, c.position_now, c.order_result.status))
    seg_seen = []

    def pre_seg(c):
        seg_seen.append((c.i, c.group, c.from_col, c.to_col, c.group_len))
        return ()

    def flex_f(c):
        if c.call_idx >= c.group_len:
            return -1, nb.order_nothing_nb()
        col = c.from_col + int(cs[c.i, c.from_col + c.call_idx])
        st = ([c.last_cash[c.group]] if sharing else [c.last_cash[col]]) + [c.last_position[col], c.last_debt[col]] + \
            ([c.last_free_cash[c.group]] if sharing else [c.last_free_cash[col]]) + [c.last_val_price[col]] + \
            ([c.last_value[c.group]] if sharing else [c.last_value[col]])
        got_ctx.append((c.i, c.group, col) + tuple(st))
        sel = reshape_fns.flex_select_auto_nb
        return col, nb.order_nb(**{k: sel(A[k], c.i, col, f2) for k in A})
    kw = dict(segment_mask=mask, pre_segment_func_nb=pre_seg, post_order_func_nb=post_f, close=a["close"][0], ffill_val_price=ffill,
              update_value=upd, max_logs=n * m, flex_2d=f2)
    try:
        if flexible:
            f = nb.flex_simulate_row_wise_nb if row_wise else nb.flex_simulate_nb
            got = f((n, m), gl, ic, sharing, flex_order_func_nb=flex_f, **kw)
        else:
            f = nb.simulate_row_wise_nb if row_wise else nb.simulate_nb
            got = f((n, m), gl, ic, sharing, cs, order_func_nb=order_f, **kw)
    except EXPECTED:
        got = None
    if want is None or got is None:
        expect(want is None and got is None, "refused exactly when an order is refused", oracle_refuses=want is None, **ctx)
        raise Skip
    compare(ctx, got, bk)
    expect([x[:3] for x in got_ctx] == [x[:3] for x in want], "every element is visited once, in order", got=[x[:3] for x in got_ctx], **ctx)
    for g, w in zip(got_ctx, want):
        s = w[3]
        expect(same(np.array(g[3:], float), np.array([s.cash, s.position, s.debt, s.free_cash, s.val_price, s.value], float)),
               "the order function sees the current state", got=g, want=list(w[:3]) + list(s), **ctx)
    expect(seg_seen == [(i, g, bd[g][0], bd[g][1], gl[g]) for i, g in segs if mask[i, g]], "segments", got=seg_seen, **ctx)
    if not flexible:
        expect([x[:3] for x in post] == [x[:3] for x in want], "post-order calls", **ctx)


# ------------------------------------------------------------------------------------------------ call sequences
@monitor("C08", 300, "vectorbt.portfolio.nb:build_call_seq vectorbt.portfolio.nb:build_call_seq_nb vectorbt.portfolio.nb:shuffle_call_seq_nb")
def call_sequences(rng):
    m, n = int(rng.integers(1, 8)), int(rng.integers(0, 5))
    gl = []
    while sum(gl) < m:
        gl.append(int(rng.integers(1, m - sum(gl) + 1)))
    gl = np.array(gl)
    t = int(rng.integers(0, 3))
    for f in (nb.build_call_seq, nb.build_call_seq_nb):
        cs = f((n, m), gl, t)
        ctx = dict(shape=(n, m), group_lens=gl, type=t, function=f.__name__, got=cs)
        expect(cs.shape == (n, m), "shape", **ctx)
        for lo, hi in bounds(gl):
            for i in range(n):
                x = cs[i, lo:hi].tolist()
                w = list(range(hi - lo))
                if t == CallSeqType.Reversed:
                    w = w[::-1]
                if t == CallSeqType.Random:
                    x = sorted(x)
                expect(x == w, "each column of the group once per bar, in the order asked for", row=i, **ctx)


@monitor("C08", 300, "vectorbt.portfolio.nb:sort_call_seq_nb vectorbt.portfolio.nb:sort_call_seq_out_nb")
def context_ordering(rng):
    n, m = int(rng.integers(1, 4)), int(rng.integers(2, 6))
    gl = grouping(rng, m)
    f2 = True
    d = choice(rng, pick(rng, [0], [1], [2], [0, 1, 2]))
    a = {"size": flex(rng, n, m, lambda s: sizes(rng, s), f2), "size_type": flex(rng, n, m, choice(rng, range(6)), f2, int),
         "direction": flex(rng, n, m, d, f2, int)}
    cash = rng.integers(0, 100, len(gl)).astype(float)
    close = prices(rng, n, m)
    cs = nb.build_call_seq((n, m), gl, 0)
    pos = rng.integers(-3, 4, m).astype(float)
    how = int(rng.integers(0, 2))
    bd = bounds(gl)
    got = []

    def pre(c):
        c.last_position[:] = pos
        c.last_val_price[:] = close[c.i]
        out = np.empty(c.group_len)
        lo, hi = c.from_col, c.to_col
        gv = cash[c.group]
        for k in range(lo, hi):
            if pos[k] != 0:
                gv = gv + pos[k] * close[c.i, k]
        if how == 0:
            nb.sort_call_seq_nb(c, a["size"][0], a["size_type"][0], a["direction"][0], out)
        else:
            x = [np.array(a[k][1][c.i, lo:hi]) for k in ("size", "size_type", "direction")]
            nb.sort_call_seq_nb(c, x[0], x[1], x[2], out, False)
        vals = [approx_value(*(float(a[k][1][c.i, col]) for k in ("size", "size_type", "direction")), cash[c.group], pos[col], cash[c.group],
                             close[c.i, col], gv) for col in range(lo, hi)]
        got.append((c.i, c.group, np.array(c.call_seq_now), np.array(stable_order(vals, c.call_seq_now.tolist())), out.copy(), np.array(vals)))
        return ()
    nb.simulate_nb((n, m), gl, cash, True, cs, segment_mask=np.ones((n, len(gl)), bool), pre_segment_func_nb=pre, close=close)
    for i, g, x, w, out, vals in got:
        expect(same(x, w), "ascending approximate order value", i=i, group=g, got=x, want=w, values=vals, group_lens=gl, **{k: v[0] for k, v in a.items()})
        expect(same(out, vals[w]), "sorted values", i=i, group=g, got=out, want=vals[w])

"""C05, C06: resolving signals into orders; stop prices."""
from .common import *
from vectorbt.portfolio.enums import (Direction, SizeType, ConflictMode, DirectionConflictMode, OppositeEntryMode,
                                      AccumulationMode, StopExitMode, StopExitPrice, StopUpdateMode)

NB = "vectorbt.portfolio.nb:"
POS = Float(pool=[0.0, 0.0, 1.0, -1.0, 2.5, -3.0, 100.0, -0.125])
B = lambda: Bool(split=True)


def choice(S, mode, pos, table):
    """Looks the mode up: a value, or a triple for a negative, zero, positive position."""
    w = table[mode]
    if isinstance(w, tuple):
        if S.split(S.gt(pos, 0.0)):
            return w[2]
        return w[0] if S.split(S.lt(pos, 0.0)) else w[1]
    return w


def same(S, label, got, want, props):
    S.ensure(label, S.iff(got, want) if S.symbolic else bool(got) == bool(want), props)


# ---------------------------------------------------------------------------------------- entry against exit
def conflict_post(S, a, r):
    en, ex = a.is_entry, a.is_exit
    if en and ex:
        keep = {ConflictMode.Ignore: "", ConflictMode.Entry: "entry", ConflictMode.Exit: "exit"}
        if a.direction == Direction.Both:
            # an entry points up, an exit points down
            keep[ConflictMode.Adjacent] = ("exit", "", "entry")
            keep[ConflictMode.Opposite] = ("entry", "", "exit")
        else:
            # the position can only be in the direction of the signals: the entry is the one that continues it
            keep[ConflictMode.Adjacent] = ("entry", "", "entry")
            keep[ConflictMode.Opposite] = ("exit", "", "exit")
        k = choice(S, a.conflict_mode, a.position_now, keep)
        en, ex = k == "entry", k == "exit"
    same(S, "entry that survives", r[0], en, "C05")
    same(S, "exit that survives", r[1], ex, "C05")


Contract(NB + "resolve_signal_conflict_nb",
         dict(position_now=POS, is_entry=B(), is_exit=B(), direction=Enum(0, 1, 2), conflict_mode=Enum(0, 1, 2, 3, 4)),
         post=conflict_post, returns=Tup(Bool(), Bool()), inline=True, props="C05", trials=1500)


def dir_post(S, a, r):
    lo, sh = a.is_long_entry, a.is_short_entry
    if lo and sh:
        keep = {DirectionConflictMode.Ignore: "", DirectionConflictMode.Long: "long", DirectionConflictMode.Short: "short",
                DirectionConflictMode.Adjacent: ("short", "", "long"), DirectionConflictMode.Opposite: ("long", "", "short")}
        k = choice(S, a.upon_dir_conflict, a.position_now, keep)
        lo, sh = k == "long", k == "short"
    same(S, "long entry that survives", r[0], lo, "C05")
    same(S, "short entry that survives", r[1], sh, "C05")


Contract(NB + "resolve_dir_conflict_nb",
         dict(position_now=POS, is_long_entry=B(), is_short_entry=B(), upon_dir_conflict=Enum(0, 1, 2, 3, 4)),
         post=dir_post, returns=Tup(Bool(), Bool()), inline=True, props="C05", trials=600)


def opposite_post(S, a, r):
    le, lx, se, sx, acc = a.is_long_entry, a.is_long_exit, a.is_short_entry, a.is_short_exit, a.accumulate
    M, m = OppositeEntryMode, a.upon_opposite_entry
    for side in ("long", "short"):
        in_pos = S.split(S.gt(a.position_now, 0.0) if side == "long" else S.lt(a.position_now, 0.0))
        opp = se if side == "long" else le
        if not in_pos or not opp:
            continue
        if m in (M.Ignore, M.Close, M.CloseReduce):
            opp = False
        exit_ = m in (M.Close, M.CloseReduce)
        if m in (M.Close, M.Reverse):
            acc = AccumulationMode.Disabled
        if side == "long":
            se, lx = opp, lx or exit_
        else:
            le, sx = opp, sx or exit_
    for k, (n, w) in enumerate((("long entry", le), ("long exit", lx), ("short entry", se), ("short exit", sx))):
        same(S, n + " after an opposite entry", r[k], w, "C05")
    S.ensure("accumulation after an opposite entry", S.eq(r[4], acc), "C05")


FOUR = dict(is_long_entry=B(), is_long_exit=B(), is_short_entry=B(), is_short_exit=B())
Contract(NB + "resolve_opposite_entry_nb",
         dict(position_now=POS, **FOUR, upon_opposite_entry=Enum(0, 1, 2, 3, 4), accumulate=Enum(0, 1, 2, 3)),
         post=opposite_post, returns=Tup(Bool(), Bool(), Bool(), Bool(), Int(0, 3)), inline=True, props="C05", trials=3000,
         max_paths=20000)


# ---------------------------------------------------------------------------------------- signals to size
def signed_request(S, a):
    """What the surviving signal asks for: ('none',) or (signed size, size type, direction), or 'error'."""
    D, A, T = Direction, AccumulationMode, SizeType
    pos, size = a.position_now, S.f(a.size)
    if S.split(S.eq(pos, 0.0)):
        if a.is_long_entry:
            return size, a.size_type, D.Both
        if a.is_short_entry:
            return -size, a.size_type, D.Both
        return None
    long = S.split(S.gt(pos, 0.0))
    sgn = 1.0 if long else -1.0          # the side we are on
    own = D.LongOnly if long else D.ShortOnly
    en = a.is_long_entry if long else a.is_short_entry
    ex = a.is_long_exit if long else a.is_short_exit
    opp = a.is_short_entry if long else a.is_long_entry
    removes = a.accumulate in (A.Both, A.RemoveOnly)
    adds = a.accumulate in (A.Both, A.AddOnly)
    if opp:
        if removes:
            return size * S.f(-sgn), a.size_type, D.Both
        q = S.abs(pos)
        if not S.split(S.isnan(a.size)):
            if a.size_type == T.Percent:
                return "error"
            q = q + (S.div(size, a.val_price_now) if a.size_type == T.Value else size)
        return q * S.f(-sgn), T.Amount, D.Both
    if ex:
        if removes:
            return size * S.f(-sgn), a.size_type, own
        return S.abs(pos) * S.f(-sgn), T.Amount, own
    if en:
        if adds:
            return size * S.f(sgn), a.size_type, own
        return None
    return None


def size_post(S, a, r):
    w = signed_request(S, a)
    if w is None:
        S.ensure("nothing survives, nothing ordered", S.eq(r[0], 0.0), "C05")
        return
    S.ensure("percentages do not reverse", w != "error", "C05")
    if w == "error":
        return
    S.ensure("ordered size", S.eq(r[0], w[0]), "C05")
    S.ensure("size type", S.eq(r[1], w[1]), "C05")
    S.ensure("direction", S.eq(r[2], w[2]), "C05")


def size_raises(S, a):
    if a.size_type not in (SizeType.Amount, SizeType.Value, SizeType.Percent):
        return True
    if S.split(S.and_(S.lt(a.size, 0.0), S.not_(S.close(a.size, 0.0)))):
        return True
    return signed_request(S, a) == "error"


Contract(NB + "signals_to_size_nb",
         dict(position_now=POS, **FOUR, size=Float("fin|nan|+inf", pool=[0.0, 1.0, 2.0, 3.5, -1.0, math.nan, math.inf, 1.0]),
              size_type=Enum(0, 1, 2, 3), accumulate=Enum(0, 1, 2, 3),
              val_price_now=Float(pool=[1.0, 2.0, 4.0, 12.5])),
         pre=lambda S, a: (S.require(S.gt(a.val_price_now, 0.0), "price"),
                           S.require(S.or_(S.isnan(a.size), S.ge(a.size, 0.0), S.not_(S.close(a.size, 0.0))), "no negative zero-ish size")),
         post=size_post, raises={"ValueError": size_raises}, returns=Tup(Float(symnan=True, inf=True), Int(0, 5), Int(0, 2)),
         inline=True, props="C05", trials=5000, max_paths=40000,
         cases=[("accumulate %d, type %d" % (k, t), dict(accumulate=Const(k), size_type=Const(t))) for k in range(4) for t in range(4)])


# ---------------------------------------------------------------------------------------- stops
def stop_signal_post(S, a, r):
    M, m = StopExitMode, a.upon_stop_exit
    want = [False] * 4
    acc = a.accumulate
    if not S.split(S.eq(a.position_now, 0.0)):
        long = S.split(S.gt(a.position_now, 0.0))
        if m in (M.Close, M.CloseReduce):
            want[1 if long else 3] = True
        else:
            want[2 if long else 0] = True
        if m in (M.Close, M.Reverse):
            acc = AccumulationMode.Disabled
    for k, n in enumerate(("long entry", "long exit", "short entry", "short exit")):
        same(S, n + " upon a stop", r[k], want[k], "C06")
    S.ensure("accumulation upon a stop", S.eq(r[4], acc), "C06")


Contract(NB + "generate_stop_signal_nb", dict(position_now=POS, upon_stop_exit=Enum(0, 1, 2, 3), accumulate=Enum(0, 1, 2, 3)),
         post=stop_signal_post, inline=True, props="C06", trials=500)


def stop_exec_post(S, a, r):
    M, m = StopExitPrice, a.stop_exit_price
    p = {M.StopLimit: a.stop_price, M.StopMarket: a.stop_price, M.Price: a.price, M.Close: a.close}[m]
    S.ensure("price of a stop order", S.eq(r[0], p), "C06")
    S.ensure("slippage of a stop order", S.eq(r[1], 0.0 if m == M.StopLimit else a.slippage), "C06")


SN = Float(symnan=True)
Contract(NB + "resolve_stop_price_and_slippage_nb",
         dict(stop_price=SN, price=Float(symnan=True, inf=True), close=SN, slippage=SN, stop_exit_price=Enum(0, 1, 2, 3)),
         post=stop_exec_post, inline=True, props="C06", trials=400)


def should_update_post(S, a, r):
    M, m = StopUpdateMode, a.upon_stop_update
    same(S, "stop is replaced", r, {M.Keep: False, M.OverrideNaN: True, M.Override: S.not_(S.isnan(a.stop))}[m], "C06")


Contract(NB + "should_update_stop_nb", dict(stop=SN, upon_stop_update=Enum(0, 1, 2)), post=should_update_post, inline=True,
         props="C06", trials=100)


def stop_price_post(S, a, r):
    if S.split(S.eq(a.position_now, 0.0)):
        S.ensure("no position, no stop", S.isnan(r), "C06")
        return
    if S.split(S.or_(S.isnan(a.stop), S.isnan(a.stop_price))):
        S.ensure("an unset stop is never hit", S.isnan(r), "C06")
        return
    below = S.split(S.iff(S.gt(a.position_now, 0.0), a.hit_below) if S.symbolic else (a.position_now > 0) == bool(a.hit_below))
    one = S.f(1.0)
    level = S.f(a.stop_price) * ((one - a.stop) if below else (one + a.stop))
    hit = S.le(a.low, level) if below else S.ge(a.high, level)
    beyond = S.le(a.open, level) if below else S.ge(a.open, level)
    S.ensure("hit exactly when the bar reaches the stop", S.iff(S.not_(S.isnan(r)), hit), "C06")
    S.ensure("price of the hit", S.implies(hit, S.eq(r, S.ite(beyond, S.f(a.open), level))), "C06")


def stop_price_pre(S, a):
    S.require(S.le(a.low, a.open), "low<=open")
    S.require(S.le(a.open, a.high), "open<=high")


def g_stop(rng):
    lo = pick(rng, 8.0, 9.0, 10.0, 7.5, 5.0)
    hi = lo + pick(rng, 0.0, 1.0, 2.0, 5.0)
    op = pick(rng, lo, hi, (lo + hi) / 2)
    return dict(position_now=pick(rng, 1.0, -1.0, 2.0, -3.0, 0.0), stop_price=pick(rng, 8.0, 10.0, 12.0, 16.0, math.nan),
                stop=pick(rng, 0.0, 0.25, 0.5, 0.125, 0.0625, math.nan), open=op, low=lo, high=hi, hit_below=bool(rng.integers(2)))


Contract(NB + "get_stop_price_nb",
         dict(position_now=Float(), stop_price=SN, stop=SN, open=Float(), low=Float(), high=Float(), hit_below=B()),
         pre=stop_price_pre, post=stop_price_post, raises={"ValueError": lambda S, a: S.lt(a.stop, 0.0)}, returns=Float(symnan=True),
         inline=True, props="C06", gen=g_stop, trials=3000)

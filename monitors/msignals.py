"""C12, C13, C14: the signal accessors against direct definitions (bounded, random small inputs)."""
import math
import warnings
import numpy as np
import pandas as pd
import vectorbt as vbt  # noqa: F401
from vectorbt.signals import nb
from vectorbt.signals.enums import StopType

from pyvc.run import monitor, expect, same, Skip


def mask(rng, n, m, p=None):
    p = p if p is not None else [0.1, 0.3, 0.6, 0.9][int(rng.integers(4))]
    return rng.random((n, m)) < p


def frame(x):
    return pd.DataFrame(x, columns=list("abcdef")[:x.shape[1]])


def dims(rng, lo=1, hi=10):
    return int(rng.integers(lo, hi)), int(rng.integers(1, 4))


# ------------------------------------------------------------------------------------------------ C12
def clean_oracle(e, x, entry_first):
    eo, xo, last = np.zeros_like(e), np.zeros_like(x), None
    for i in range(len(e)):
        if e[i] and x[i]:
            continue
        if e[i] and last != "e":
            eo[i], last = True, "e"
        elif x[i] and last != "x" and (last == "e" or not entry_first):
            xo[i], last = True, "x"
    return eo, xo


@monitor("C12", 200, "vectorbt.signals.accessors:SignalsAccessor.clean vectorbt.signals.dispatch:clean_enex vectorbt.signals.nb:clean_enex_nb")
def cleaning(rng):
    n, m = dims(rng, 0, 12)
    e, x = mask(rng, n, m), mask(rng, n, m)
    first = bool(rng.integers(2))
    if m == 1 and rng.random() < 0.5:
        ge, gx = pd.Series(e[:, 0]).vbt.signals.clean(pd.Series(x[:, 0]), entry_first=first)
        ge, gx = ge.values[:, None], gx.values[:, None]
    else:
        a, b = frame(e).vbt.signals.clean(frame(x), entry_first=first)
        expect(list(a.columns) == list("abcdef")[:m], "labels of the cleaned frame", got=a)
        ge, gx = a.values, b.values
    for c in range(m):
        we, wx = clean_oracle(e[:, c], x[:, c], first)
        expect(same(ge[:, c], we) and same(gx[:, c], wx), "cleaned entries and exits", entries=e, exits=x, entry_first=first, column=c, got=(ge[:, c], gx[:, c]), want=(we, wx))
    a, b = frame(ge).vbt.signals.clean(frame(gx), entry_first=first)
    expect(same(a.values, ge) and same(b.values, gx), "cleaning a clean pair changes nothing", entries=e, exits=x, entry_first=first)
    f = frame(e).vbt.signals.clean().values
    w = e & ~np.vstack([np.zeros((1, m), bool), e[:-1]])[:n]
    expect(same(f, w), "first signal of each partition", entries=e, got=f, want=w)


def check_alternate(en, ex, entry_gap, exit_gap, **ctx):
    """entries and exits alternate, starting with an entry, at the required distances"""
    for c in range(en.shape[1]):
        ev = [(i, 0) for i in np.flatnonzero(en[:, c])] + [(i, 1) for i in np.flatnonzero(ex[:, c])]
        E, X = list(np.flatnonzero(en[:, c])), list(np.flatnonzero(ex[:, c]))
        expect(len(X) in (len(E), len(E) - 1), "entries and exits alternate", column=c, entries=E, exits=X, **ctx)
        for k in range(len(X)):
            expect(X[k] >= E[k] + exit_gap, "exit not before its entry plus wait", column=c, entries=E, exits=X, **ctx)
            if k + 1 < len(E):
                expect(E[k + 1] >= X[k] + entry_gap, "entry not before the previous exit plus wait", column=c, entries=E, exits=X, **ctx)
        del ev


@monitor("C12", 400, "vectorbt.signals.accessors:SignalsAccessor.generate_random vectorbt.signals.accessors:SignalsAccessor.generate_random_both "
         "vectorbt.signals.accessors:SignalsAccessor.generate_random_exits vectorbt.signals.nb:generate_rand_nb vectorbt.signals.nb:generate_rand_by_prob_nb "
         "vectorbt.signals.nb:generate_rand_enex_nb vectorbt.signals.nb:generate_rand_enex_by_prob_nb vectorbt.signals.nb:generate_rand_ex_nb "
         "vectorbt.signals.nb:generate_rand_ex_by_prob_nb vectorbt.signals.nb:rand_choice_nb")
def random_generators(rng):
    n, m = dims(rng, 2, 16)
    seed = int(rng.integers(1 << 30))
    kind = int(rng.integers(5))
    ctx = dict(shape=(n, m), seed=seed)
    if kind == 0:
        k = rng.integers(0, n + 2, m) if rng.random() < 0.7 else int(rng.integers(0, n + 1))
        got = pd.DataFrame.vbt.signals.generate_random((n, m), n=k, seed=seed).values
        want = np.minimum(np.broadcast_to(k, m), n)
        expect(same(got.sum(0), want), "the number of signals asked for", n=k, got=got, **ctx)
        expect(same(got, pd.DataFrame.vbt.signals.generate_random((n, m), n=k, seed=seed).values), "equal seeds give equal draws", n=k, **ctx)
        if m == 1:
            s = pd.Series.vbt.signals.generate_random(n, n=int(np.broadcast_to(k, m)[0]), seed=seed)
            expect(int(s.sum()) == int(want[0]), "the number of signals asked for (series)", n=k, got=s.values, **ctx)
    elif kind == 1:
        p = rng.choice([0.0, 1.0, 0.5], (n, m)) if rng.random() < 0.6 else rng.choice([0.0, 1.0, 0.3], m)
        first = bool(rng.integers(2))
        got = pd.DataFrame.vbt.signals.generate_random((n, m), prob=p, pick_first=first, seed=seed).values
        P = np.broadcast_to(p, (n, m))
        expect(not (got & (P == 0)).any(), "never where the probability is zero", prob=p, got=got, **ctx)
        for c in range(m):
            sure = np.flatnonzero(P[:, c] == 1)
            if first:
                expect(got[:, c].sum() <= 1, "only the first one", prob=p, got=got, **ctx)
                if len(sure):
                    expect(got[:sure[0] + 1, c].sum() == 1, "at the latest where the probability is one", prob=p, got=got, **ctx)
            else:
                expect(got[sure, c].all(), "always where the probability is one", prob=p, got=got, **ctx)
    elif kind == 2:
        ew, xw = [(1, 1), (2, 1), (1, 2), (0, 1), (1, 0), (2, 3)][int(rng.integers(6))]
        most = 1
        while (ew + xw) * most + xw + 1 <= n:
            most += 1
        k = rng.integers(0 if (ew, xw) == (1, 1) else 1, most + 1, m)
        if n - xw <= 0 or (k > n // 2).any() and (ew, xw) == (1, 1):
            raise Skip
        en, ex = pd.DataFrame.vbt.signals.generate_random_both((n, m), n=k, entry_wait=ew, exit_wait=xw, seed=seed)
        en, ex = en.values, ex.values
        ctx.update(n=k, entry_wait=ew, exit_wait=xw)
        expect(same(en.sum(0), k), "the number of entries asked for", got=(en, ex), **ctx)
        expect(same(ex.sum(0), k), "the number of exits asked for", got=(en, ex), **ctx)
        check_alternate(en, ex, ew, xw, **ctx)
        e2, x2 = pd.DataFrame.vbt.signals.generate_random_both((n, m), n=k, entry_wait=ew, exit_wait=xw, seed=seed)
        expect(same(en, e2.values) and same(ex, x2.values), "equal seeds give equal draws", **ctx)
    elif kind == 3:
        ew, xw = [(1, 1), (2, 1), (1, 2), (0, 1), (1, 0)][int(rng.integers(5))]
        ep, xp = rng.choice([0.0, 1.0, 0.5], (n, m)), rng.choice([0.0, 1.0, 0.5], (n, m))
        en, ex = pd.DataFrame.vbt.signals.generate_random_both((n, m), entry_prob=ep, exit_prob=xp, entry_wait=ew, exit_wait=xw, seed=seed)
        en, ex = en.values, ex.values
        ctx.update(entry_prob=ep, exit_prob=xp, entry_wait=ew, exit_wait=xw)
        check_alternate(en, ex, ew, xw, **ctx)
        expect(not (en & (ep == 0)).any() and not (ex & (xp == 0)).any(), "never where the probability is zero", got=(en, ex), **ctx)
        for c in range(m):
            first = np.flatnonzero(ep[:, c] == 1)
            if len(first):
                expect(en[:first[0] + 1, c].any(), "the first entry at the latest where the probability is one", got=(en, ex), **ctx)
    else:
        e = mask(rng, n, m)
        wait, until, skip = int(rng.integers(0, 3)), bool(rng.integers(2)), bool(rng.integers(2))
        p = None if rng.random() < 0.5 else rng.choice([0.0, 1.0, 0.5], (n, m))
        got = frame(e).vbt.signals.generate_random_exits(prob=p, wait=wait, until_next=until, skip_until_exit=skip, seed=seed).values
        ctx.update(entries=e, wait=wait, until_next=until, skip_until_exit=skip, prob=p)
        for c in range(m):
            sig = list(np.flatnonzero(e[:, c]))
            allowed = set()
            for j, s in enumerate(sig):
                t = sig[j + 1] if until and j + 1 < len(sig) else n
                allowed |= set(range(s + wait, t))
                if until and p is None:
                    k = got[s + wait:t, c].sum()
                    expect(k == (1 if s + wait < t else 0) or wait == 0 and k >= 1, "one exit after each entry", column=c, got=got, **ctx)
            expect(set(np.flatnonzero(got[:, c])) <= allowed, "exits lie between the entry and the next one", column=c, got=got, **ctx)
            if p is not None:
                expect(not (got[:, c] & (p[:, c] == 0)).any(), "never where the probability is zero", column=c, got=got, **ctx)
            if skip and not until and sig and p is None:
                X = list(np.flatnonzero(got[:, c]))
                for q, w in zip(X, X[1:]):
                    expect(any(q < s for s in sig if s + wait <= w), "signals before the exit are skipped", column=c, got=got, **ctx)


@monitor("C12", 200, "vectorbt.signals.accessors:SignalsAccessor.generate vectorbt.signals.accessors:SignalsAccessor.generate_both "
         "vectorbt.signals.accessors:SignalsAccessor.generate_exits vectorbt.signals.nb:generate_nb vectorbt.signals.nb:generate_ex_nb vectorbt.signals.nb:generate_enex_nb")
def choice_generators(rng):
    n, m = dims(rng, 1, 10)
    table = mask(rng, n, m, 0.4)

    def choose(from_i, to_i, col, *a):
        return np.flatnonzero(table[from_i:to_i, col]) + from_i
    first = bool(rng.integers(2))
    got = pd.DataFrame.vbt.signals.generate((n, m), choose, pick_first=first).values
    want = table if not first else table & (np.cumsum(table, 0) == 1)
    expect(same(got, want), "signals exactly where chosen", table=table, pick_first=first, got=got)
    e = mask(rng, n, m)
    wait, until, skip = int(rng.integers(0, 3)), bool(rng.integers(2)), bool(rng.integers(2))
    got = frame(e).vbt.signals.generate_exits(choose, wait=wait, until_next=until, skip_until_exit=skip, pick_first=first).values
    want = np.zeros((n, m), bool)
    for c in range(m):
        sig, last = list(np.flatnonzero(e[:, c])), -1
        for j, s in enumerate(sig):
            t = sig[j + 1] if until and j + 1 < len(sig) else n
            if skip and s <= last or s + wait >= t:
                continue
            x = choose(s + wait, t, c)
            x = x[:1] if first else x
            want[x, c] = True
            last = x[-1] if len(x) else last
    expect(same(got, want), "exits exactly where chosen", entries=e, table=table, wait=wait, until_next=until, skip_until_exit=skip, pick_first=first, got=got, want=want)
    table2 = mask(rng, n, m, 0.4)
    choose2 = lambda from_i, to_i, col, *a: np.flatnonzero(table2[from_i:to_i, col]) + from_i
    ew, xw = [(1, 1), (0, 1), (1, 0), (2, 1)][int(rng.integers(4))]
    ge, gx = pd.DataFrame.vbt.signals.generate_both((n, m), choose, None, choose2, None, entry_wait=ew, exit_wait=xw, entry_pick_first=True, exit_pick_first=True)
    we, wx = np.zeros((n, m), bool), np.zeros((n, m), bool)
    for c in range(m):
        turn, at = 0, 0
        while at < n:
            x = (choose, choose2)[turn](at, n, c)
            if not len(x):
                break
            (we, wx)[turn][x[0], c] = True
            at, turn = x[0] + (xw, ew)[turn], 1 - turn
    expect(same(ge.values, we) and same(gx.values, wx), "alternating choices", entry_table=table, exit_table=table2, entry_wait=ew, exit_wait=xw,
           got=(ge.values, gx.values), want=(we, wx))


# ------------------------------------------------------------------------------------------------ C13
def prices(rng, n, m):
    return rng.integers(6, 20, (n, m)) / 2.0


def per_signal(e, c, wait, until, skip, first, hits, n):
    """exits of column c: hits(entry, from, to) lists the bars that reach the stop"""
    out, last = [], -1
    sig = list(np.flatnonzero(e[:, c]))
    for j, s in enumerate(sig):
        t = sig[j + 1] if until and j + 1 < len(sig) else n
        if skip and s <= last or s + wait >= t:
            continue
        x = hits(s, s + wait, t)
        x = x[:1] if first else x
        out += x
        last = x[-1][0] if x else last
    return out


def chained(e, c, ew, xw, first, hits, n):
    """(entries kept, hits) when entries and exits are generated one after another"""
    ent, out, at = [], [], 0
    while at < n:
        s = [i for i in np.flatnonzero(e[:, c]) if i >= at]
        if not s or s[0] + xw >= n:
            ent += s[:1]
            break
        ent.append(s[0])
        x = hits(s[0], s[0] + xw, n)
        x = x[:1] if first else x
        out += x
        if not x:
            break
        at = x[-1][0] + ew
    return ent, out


def flat(rng, x, m):
    """the same values in a shape that broadcasts"""
    return x


def stop_hits(ts, stop, trail, c):
    def hits(s, fr, to):
        st, p = stop[s, c], ts[s, c]
        if math.isnan(st):
            return []
        out = []
        for i in range(fr, to):
            seen = [p] + [ts[k, c] for k in range(fr, i)]
            ref = (min(seen) if st >= 0 else max(seen)) if trail[s, c] else p
            lvl = ref * (1 + st)
            if ts[i, c] >= lvl if st >= 0 else ts[i, c] <= lvl:
                out.append((i,))
        return out
    return hits


@monitor("C13", 400, "vectorbt.signals.accessors:SignalsAccessor.generate_stop_exits vectorbt.signals.nb:generate_stop_ex_nb vectorbt.signals.nb:generate_stop_enex_nb "
         "vectorbt.signals.nb:stop_choice_nb")
def stop_exits(rng):
    n, m = dims(rng, 1, 12)
    e, ts = mask(rng, n, m, 0.3), prices(rng, n, m)
    pool = np.array([0.25, -0.25, 0.5, -0.5, 0.125, -0.125, 0.0, math.nan])
    sh = [(n, m), (1, m), ()][int(rng.integers(3))]
    stop, trail = rng.choice(pool, sh), rng.random(sh) < 0.5
    S, T = np.broadcast_to(stop, (n, m)), np.broadcast_to(trail, (n, m))
    wait, until, skip, first = int(rng.integers(0, 3)), bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2))
    ctx = dict(entries=e, ts=ts, stop=stop, trailing=trail, exit_wait=wait, pick_first=first)
    arg = lambda x: (frame(x) if x.shape == (n, m) and rng.random() < 0.5 else x[0] if x.ndim == 2 and x.shape[0] == 1 and m > 1 else x) if x.ndim else x.item()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if rng.random() < 0.3:
            ew = int(rng.integers(1 if wait == 0 else 0, 3))
            ge, gx = frame(e).vbt.signals.generate_stop_exits(frame(ts), arg(stop), trailing=arg(trail), entry_wait=ew, exit_wait=wait, pick_first=first, chain=True)
            we, wx = np.zeros((n, m), bool), np.zeros((n, m), bool)
            for c in range(m):
                ent, out = chained(e, c, ew, wait, first, stop_hits(ts, S, T, c), n)
                we[ent, c] = True
                wx[[x[0] for x in out], c] = True
            expect(same(ge.values, we) and same(gx.values, wx), "chained stop exits", entry_wait=ew, got=(ge.values, gx.values), want=(we, wx), **ctx)
            return
        got = frame(e).vbt.signals.generate_stop_exits(frame(ts), arg(stop), trailing=arg(trail), exit_wait=wait, until_next=until,
                                                       skip_until_exit=skip, pick_first=first).values
    want = np.zeros((n, m), bool)
    for c in range(m):
        want[[x[0] for x in per_signal(e, c, wait, until, skip, first, stop_hits(ts, S, T, c), n)], c] = True
    expect(same(got, want), "exits at the bars that reach the stop", until_next=until, skip_until_exit=skip, got=got, want=want, **ctx)


def ohlc_hits(o, h, l, cl, sl, trail, tp, rev, safe, c):
    def hits(s, fr, to):
        out = []
        p, stop, take, t, r = o[s, c], sl[s, c], tp[s, c], trail[s, c], rev[s, c]
        best = p
        for i in range(fr, to):
            hi, lo = (h[i, c], l[i, c]) if (i > s or safe) else (cl[i, c], cl[i, c])
            got = None
            if not math.isnan(stop):
                lvl = best * (1 + stop) if r else best * (1 - stop)
                if hi >= lvl if r else lo <= lvl:
                    got = (i, lvl, int(StopType.TrailStop if t else StopType.StopLoss))
            if got is None and not math.isnan(take):
                lvl = p * (1 - take) if r else p * (1 + take)
                if lo <= lvl if r else hi >= lvl:
                    got = (i, lvl, int(StopType.TakeProfit))
            if got:
                out.append(got)
            if t:
                best = min(best, lo) if r else max(best, hi)
        return out
    return hits


@monitor("C13", 400, "vectorbt.signals.accessors:SignalsAccessor.generate_ohlc_stop_exits vectorbt.signals.nb:generate_ohlc_stop_ex_nb "
         "vectorbt.signals.nb:generate_ohlc_stop_enex_nb vectorbt.signals.nb:ohlc_stop_choice_nb")
def ohlc_stop_exits(rng):
    n, m = dims(rng, 1, 12)
    e = mask(rng, n, m, 0.3)
    o, cl = prices(rng, n, m), prices(rng, n, m)
    h, l = np.maximum(o, cl) + rng.integers(0, 5, (n, m)) / 2, np.minimum(o, cl) - rng.integers(0, 5, (n, m)) / 2
    pool = np.array([0.25, 0.5, 0.125, 0.0625, 0.0, math.nan])
    sh = lambda: [(n, m), (1, m), ()][int(rng.integers(3))]
    sl, tp, trail, rev = rng.choice(pool, sh()), rng.choice(pool, sh()), rng.random(sh()) < 0.5, rng.random(sh()) < 0.4
    B = lambda x: np.broadcast_to(x, (n, m))
    safe = bool(rng.integers(2))
    wait, until, skip, first = int(rng.integers(0, 3)), bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2))
    arg = lambda x: (frame(x) if x.shape == (n, m) and rng.random() < 0.5 else x[0] if x.ndim == 2 and x.shape[0] == 1 and m > 1 else x) if x.ndim else x.item()
    ctx = dict(entries=e, open=o, high=h, low=l, close=cl, sl_stop=sl, sl_trail=trail, tp_stop=tp, reverse=rev, is_open_safe=safe, exit_wait=wait, pick_first=first)
    out = {} if rng.random() < 0.6 else dict(stop_price=np.full((n, m), np.nan), stop_type=np.full((n, m), -1))
    kw = dict(open=frame(o), high=frame(h), low=frame(l), close=frame(cl), sl_stop=arg(sl), sl_trail=arg(trail), tp_stop=arg(tp), reverse=arg(rev),
              is_open_safe=safe, exit_wait=wait, pick_first=first, out_dict=out)
    H = [ohlc_hits(o, h, l, cl, B(sl), B(trail), B(tp), B(rev), safe, c) for c in range(m)]
    want, we = np.zeros((n, m), bool), np.zeros((n, m), bool)
    wp, wt = np.full((n, m), np.nan), np.full((n, m), -1)

    def put(c, hits):
        for i, p, t in hits:
            want[i, c], wp[i, c], wt[i, c] = True, p, t
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if rng.random() < 0.3:
            ew = int(rng.integers(1 if wait == 0 else 0, 3))
            ge, gx = frame(e).vbt.signals.generate_ohlc_stop_exits(entry_wait=ew, chain=True, **kw)
            for c in range(m):
                ent, hits = chained(e, c, ew, wait, first, H[c], n)
                we[ent, c] = True
                put(c, hits)
            expect(same(ge.values, we) and same(gx.values, want), "chained stop exits", entry_wait=ew, got=(ge.values, gx.values), want=(we, want), **ctx)
        else:
            gx = frame(e).vbt.signals.generate_ohlc_stop_exits(until_next=until, skip_until_exit=skip, **kw)
            for c in range(m):
                put(c, per_signal(e, c, wait, until, skip, first, H[c], n))
            expect(same(gx.values, want), "exits at the bars whose range reaches the stop", until_next=until, skip_until_exit=skip, got=gx.values, want=want, **ctx)
    if wait == 0 and not first:
        return      # two entries may write the same bar
    gp, gt = out["stop_price"].values, out["stop_type"].values
    expect(same(np.where(want, gp, np.nan), wp, 1e-12) and same(np.where(want, gt, -1), wt), "stop price and stop type of each exit",
           got=(gp, gt), want=(wp, wt), **ctx)
    if first:
        lo, hi = np.minimum(l, np.minimum(o, cl)), np.maximum(h, np.maximum(o, cl))
        del lo, hi


# ------------------------------------------------------------------------------------------------ C14
def partitions(col):
    out, i = [], 0
    while i < len(col):
        if col[i]:
            j = i
            while j < len(col) and col[j]:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def rows(r):
    v = r.values if hasattr(r, "values") else r
    return [(int(x["col"]), int(x["start_idx"]), int(x["end_idx"]), int(x["status"])) for x in v]


@monitor("C14", 300, "vectorbt.signals.accessors:SignalsAccessor.between_ranges vectorbt.signals.accessors:SignalsAccessor.partition_ranges "
         "vectorbt.signals.accessors:SignalsAccessor.between_partition_ranges vectorbt.signals.nb:between_two_ranges_nb")
def ranges(rng):
    n, m = dims(rng, 1, 12)
    a, b = mask(rng, n, m), mask(rng, n, m)
    fa = frame(a)
    sig = [list(np.flatnonzero(a[:, c])) for c in range(m)]
    oth = [list(np.flatnonzero(b[:, c])) for c in range(m)]
    w = [(c, i, j, 1) for c in range(m) for i, j in zip(sig[c], sig[c][1:])]
    r = fa.vbt.signals.between_ranges()
    expect(rows(r) == w, "ranges between consecutive signals", mask=a, got=rows(r), want=w)
    expect(same(r.duration.values, [j - i for _, i, j, _ in w]), "durations", mask=a, got=r.duration.values)
    expect(same(r.values["id"], np.arange(len(w))), "numbered from zero", mask=a, got=r.values["id"])
    for other in (False, True):
        r = fa.vbt.signals.between_ranges(other=frame(b), from_other=other)
        if other:
            w = [(c, max(s for s in sig[c] if s <= q), q, 1) for c in range(m) for q in oth[c] if any(s <= q for s in sig[c])]
        else:
            w = [(c, s, min(q for q in oth[c] if q >= s), 1) for c in range(m) for s in sig[c] if any(q >= s for q in oth[c])]
        expect(rows(r) == w, "ranges between two masks", mask=a, other=b, from_other=other, got=rows(r), want=w)
    parts = [partitions(a[:, c]) for c in range(m)]
    w = [(c, i, j, 1) if j < n else (c, i, n - 1, 0) for c in range(m) for i, j in parts[c]]
    r = fa.vbt.signals.partition_ranges()
    expect(rows(r) == w, "partitions", mask=a, got=rows(r), want=w)
    expect(same(np.asarray(r.duration.values), [j - i for c in range(m) for i, j in parts[c]]), "duration of a partition", mask=a, got=r.duration.values)
    tp = fa.vbt.signals.total_partitions()
    expect(same(np.asarray(tp), [len(p) for p in parts]), "number of partitions", mask=a, got=np.asarray(tp))
    w = [(c, p[1] - 1, q[0], 1) for c in range(m) for p, q in zip(parts[c], parts[c][1:])]
    r = fa.vbt.signals.between_partition_ranges()
    expect(rows(r) == w, "ranges between partitions", mask=a, got=rows(r), want=w)


@monitor("C14", 300, "vectorbt.signals.accessors:SignalsAccessor.pos_rank vectorbt.signals.accessors:SignalsAccessor.partition_pos_rank "
         "vectorbt.signals.accessors:SignalsAccessor.first vectorbt.signals.accessors:SignalsAccessor.nth vectorbt.signals.accessors:SignalsAccessor.from_nth "
         "vectorbt.signals.nb:rank_nb vectorbt.signals.nb:sig_pos_rank_nb vectorbt.signals.nb:part_pos_rank_nb vectorbt.signals.dispatch:sig_pos_rank")
def ranks(rng):
    n, m = dims(rng, 1, 12)
    a = mask(rng, n, m)
    reset = None if rng.random() < 0.4 else mask(rng, n, m, 0.25)
    after, gaps = bool(rng.integers(2)), bool(rng.integers(2))
    ctx = dict(mask=a, reset_by=reset, after_false=after, allow_gaps=gaps)
    R = None if reset is None else frame(reset)
    got = frame(a).vbt.signals.pos_rank(allow_gaps=gaps, reset_by=R, after_false=after).values
    gpart = frame(a).vbt.signals.partition_pos_rank(reset_by=R, after_false=after).values
    want, wpart = np.full((n, m), -1), np.full((n, m), -1)
    for c in range(m):
        ok = a[:, c].copy()
        if after:
            k = 0
            while k < n and ok[k]:
                ok[k] = False
                k += 1
        for i in range(n):
            if not ok[i]:
                continue
            start = i
            while start > 0 and ok[start - 1]:
                start -= 1
            last = 0 if reset is None else max([0] + [k for k in range(i + 1) if reset[k, c]])
            lo = last if gaps else max(last, start)
            want[i, c] = ok[lo:i + 1].sum() - 1
            first = next(k for k in range(last, i + 1) if ok[k])
            wpart[i, c] = sum(1 for k in range(first + 1, i + 1) if ok[k] and not ok[k - 1])
    expect(same(got, want), "rank of each signal", got=got, want=want, **ctx)
    expect(same(gpart, wpart), "rank of each partition", got=gpart, want=wpart, **ctx)
    k = int(rng.integers(0, 3))
    kw = dict(allow_gaps=gaps, reset_by=R, after_false=after)
    expect(same(frame(a).vbt.signals.first(**kw).values, want == 0), "first signals", **ctx)
    expect(same(frame(a).vbt.signals.nth(k, **kw).values, want == k), "n-th signals", n=k, **ctx)
    expect(same(frame(a).vbt.signals.from_nth(k, **kw).values, want >= k), "signals from the n-th on", n=k, **ctx)
    mp = frame(a).vbt.signals.pos_rank_mapped(**kw)
    expect([(int(c), int(i), int(v)) for c, i, v in zip(mp.col_arr, mp.idx_arr, mp.values)] ==
           [(c, i, int(want[i, c])) for c in range(m) for i in range(n) if want[i, c] >= 0], "mapped ranks", got=(mp.col_arr, mp.idx_arr, mp.values), **ctx)


@monitor("C14", 300, "vectorbt.signals.accessors:SignalsAccessor.nth_index vectorbt.signals.accessors:SignalsAccessor.norm_avg_index "
         "vectorbt.signals.accessors:SignalsAccessor.index_mapped vectorbt.signals.accessors:SignalsAccessor.total "
         "vectorbt.signals.accessors:SignalsAccessor.rate vectorbt.signals.accessors:SignalsAccessor.partition_rate vectorbt.signals.nb:norm_avg_index_nb")
def indices(rng):
    n, m = dims(rng, 1, 12)
    a = mask(rng, n, m)
    k = int(rng.integers(-5, 5))
    f = frame(a)
    f.index = pd.Index(np.arange(n) * 10 + 100)

    def nth(col):
        idx = np.flatnonzero(col)
        return float(idx[k] * 10 + 100) if -len(idx) <= k < len(idx) else math.nan
    got = np.asarray(f.vbt.signals.nth_index(k), dtype=float).reshape(-1)
    expect(same(got, [nth(a[:, c]) for c in range(m)]), "label of the n-th signal", mask=a, n=k, got=got)
    raw = np.asarray(f.vbt.signals.nth_index(k, return_labels=False)).reshape(-1)
    expect(same(raw, [-1 if math.isnan(nth(a[:, c])) else (nth(a[:, c]) - 100) / 10 for c in range(m)]), "position of the n-th signal", mask=a, n=k, got=raw)
    avg = np.asarray(f.vbt.signals.norm_avg_index(), dtype=float).reshape(-1)
    w = [math.nan if n <= 1 or not a[:, c].any() else 2 * np.flatnonzero(a[:, c]).mean() / (n - 1) - 1 for c in range(m)]
    expect(same(avg, w, 1e-12), "normalised average index", mask=a, got=avg, want=w)
    if m > 1:
        g = np.array([0] + list(np.cumsum(rng.integers(0, 2, m - 1))))
        got = np.asarray(f.vbt.signals.nth_index(k, group_by=g), dtype=float).reshape(-1)
        w = [nth(a[:, g == q].any(1)) for q in range(g[-1] + 1)]
        expect(same(got, w), "n-th signal of a group", mask=a, n=k, group_by=g, got=got, want=w)
        tot = np.asarray(f.vbt.signals.total(group_by=g)).reshape(-1)
        expect(same(tot, [a[:, g == q].sum() for q in range(g[-1] + 1)]), "total of a group", mask=a, group_by=g, got=tot)
        rate = np.asarray(f.vbt.signals.rate(group_by=g)).reshape(-1)
        expect(same(rate, [a[:, g == q].mean() for q in range(g[-1] + 1)], 1e-12), "rate of a group", mask=a, group_by=g, got=rate)
    expect(same(np.asarray(f.vbt.signals.total()).reshape(-1), a.sum(0)), "total", mask=a)
    expect(same(np.asarray(f.vbt.signals.rate()).reshape(-1), a.mean(0), 1e-12), "rate", mask=a)
    mp = f.vbt.signals.index_mapped()
    expect([(int(c), int(v)) for c, v in zip(mp.col_arr, mp.values)] == [(c, int(i)) for c in range(m) for i in np.flatnonzero(a[:, c])], "mapped indices", mask=a)

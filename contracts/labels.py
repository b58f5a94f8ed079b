"""C20: look-ahead labels (vectorbt/labels/nb.py)."""
from .indicators import *

L = "vectorbt.labels.nb:"


def shift_of(S, wait):
    return S.max(wait, 0)


def future(S, a, r, stat_of):
    """r[n-1-j] is the statistic of the reversed prices at j - wait: the one of the window that starts `wait` bars later."""
    n = S.len(a.close, 0)
    shape_of(S, r, a.close)
    w = shift_of(S, a.wait)

    def one(c):
        x = S.rev(S.col(a.close, c))
        S.each("i", 0, n, lambda j: (
            S.ensure("statistic of the window ahead", S.implies(S.lt(j + w, n), stat_of(S, x, j, r[n - 1 - j - w, c] if S.symbolic or j + w < n else math.nan)), "C20"),
            S.ensure("nothing ahead at the end", S.implies(S.lt(j, w), S.isnan(r[n - 1 - j, c])), "C20")))
    S.each("c", 0, S.len(a.close, 1), one)


def stat_roll(stat):
    def f(a):
        def g(S, x, j, v):
            ns = win_ns(S, x, a.window)
            few = S.lt(in_window(S, x, j, a.window), a.window)
            return S.and_(S.iff(S.isnan(v), few) if S.symbolic else S.implies(few, S.isnan(v)), S.or_(few, S.eq(v, stat(S, ns, j))))
        return g
    return f


def stat_mean(a):
    def g(S, x, j, v):
        if S.split(a.ewm) if S.symbolic else a.ewm:
            ns = ewm_ns(S, x, a.window, a.adjust)
            E, c = ewm_state(S, ns), nancount(S, x)
            return S.eq(v, S.ite(S.lt(c(j + 1), a.window), S.f(S.nan), E(j + 1)[0]))
        return stat_roll(mean_stat)(a)(S, x, j, v)
    return g


def fut_post(stat):
    return lambda S, a, r: future(S, a, r, stat(a))


def lab_gen(ewm=False, ddof=False):
    def g(rng):
        n, m = int(rng.integers(1, 8)), int(rng.integers(1, 4))
        x = rng.integers(1, 9, (n, m)).astype(float)
        if rng.random() < .4:
            x[rng.random((n, m)) < .15] = np.nan
        d = dict(close=x, window=int(rng.integers(1, 5)), wait=int(rng.integers(0, 4)))
        if ewm:
            d.update(ewm=bool(rng.integers(2)), adjust=bool(rng.integers(2)))
        if ddof:
            d["ddof"] = 0 if d["ewm"] else int(rng.integers(0, 2))
        return d
    return g


FUT = dict(close=MAT, window=Int(1), wait=Int(0))
FUTE = dict(FUT, ewm=Bool(split=True), adjust=AD)
cl = ret_arr("f", lambda a: a.close.shape)
Contract(L + "future_mean_apply_nb", FUTE, post=fut_post(stat_mean), props="C20", gen=lab_gen(True), returns=cl, trials=400)
Contract(L + "future_min_apply_nb", FUT, post=fut_post(stat_roll(min_stat(True))), props="C20", gen=lab_gen())
Contract(L + "future_max_apply_nb", FUT, post=fut_post(stat_roll(min_stat(False))), props="C20", gen=lab_gen())


def stat_std(a):
    def g(S, x, j, v):
        ns = NSp(a=x, window=a.window, minp=a.window, span=a.window, adjust=a.adjust, ddof=a.ddof)
        if S.split(a.ewm) if S.symbolic else a.ewm:
            return S.eq(v, S.sqrt(ewv_elem(S, ns, j)))
        n = in_window(S, x, j, a.window)
        few = S.or_(S.lt(n, a.window), S.le(n, a.ddof))
        if not S.symbolic:
            if few:
                return math.isnan(v)
            w = np.asarray(x[max(0, j - a.window + 1):j + 1])
            w = w[~np.isnan(w)]
            return S.eq(v, float(np.sqrt(((w - w.mean()) ** 2).sum() / (len(w) - a.ddof))))
        sm, sq, nf = std_stat(S, ns, j)
        m = S.div(sm, nf)
        return S.and_(S.implies(few, S.isnan(v)), S.implies(S.not_(few), S.eq(v, S.sqrt(S.div(sq - sm * m, nf - S.f(a.ddof))))))
    return g


Contract(L + "future_std_apply_nb", dict(FUTE, ddof=Int(0)), post=fut_post(stat_std), props="C20", gen=lab_gen(True, True),
         pre=lambda S, a: S.require(S.or_(S.not_(a.ewm), S.eq(a.ddof, 0)), "no correction of the exponential deviation"))


# --------------------------------------------------------------------------------------- relative change to a future value
def positive(S, a):
    S.require(S.forall(0, S.len(a.close, 0), lambda i: S.forall(0, S.len(a.close, 1), lambda c: S.or_(
        S.isnan(a.close[i, c]), S.gt(a.close[i, c], 0.0)))), "prices are positive")


def change(S, v, x, ahead):
    """v is the relative change from x to the value ahead."""
    return S.or_(S.and_(S.isnan(v), S.or_(S.isnan(x), S.isnan(ahead))), S.and_(S.not_(S.isnan(ahead)), S.eq(v * x, ahead - x)))


def fix_post(S, a, r):
    n = S.len(a.close, 0)
    shape_of(S, r, a.close)

    def one(c, i):
        if S.symbolic:
            ahead = S.ite(S.lt(i + a.n, n), a.close[i + a.n, c], S.f(S.nan))
        else:
            ahead = a.close[i + a.n, c] if i + a.n < n else math.nan
        S.ensure("relative change to the price n bars later", change(S, r[i, c], a.close[i, c], ahead), "C20")
    S.each("c", 0, S.len(a.close, 1), lambda c: S.each("i", 0, n, lambda i: one(c, i)))


def fix_gen(rng):
    d = lab_gen()(rng)
    return dict(close=d["close"], n=int(rng.integers(0, 5)))


Contract(L + "fixed_labels_apply_nb", dict(close=MAT, n=Int(0)), pre=positive, post=fix_post, props="C20", gen=fix_gen)


def mean_label_post(S, a, r):
    n = S.len(a.close, 0)
    shape_of(S, r, a.close)
    w = a.wait

    def one(c, j):
        x = S.rev(S.col(a.close, c))
        price, label = a.close[n - 1 - j, c], r[n - 1 - j, c]
        if not S.symbolic:
            if j < w:
                S.ensure("no future, no label", math.isnan(label), "C20")
            else:
                m = avg_elem(S, x, a.window, a.ewm, a.adjust, j - w)
                S.ensure("relative change to the average of the window ahead", change(S, label, price, m), "C20")
            return
        S.ensure("no future, no label", S.implies(S.lt(j, w), S.isnan(label)), "C20")
    S.each("c", 0, S.len(a.close, 1), lambda c: S.each("i", 0, n, lambda j: one(c, j)))

    def ahead(c, j):
        if not S.symbolic:
            return
        x = S.rev(S.col(a.close, c))
        price, label = a.close[n - 1 - j - w, c], r[n - 1 - j - w, c]
        m = avg_elem(S, x, a.window, a.ewm, a.adjust, j)
        S.ensure("relative change to the average of the window ahead", S.implies(S.lt(j + w, n), change(S, label, price, m)), "C20")
    S.each("c", 0, S.len(a.close, 1), lambda c: S.each("i", 0, n, lambda j: ahead(c, j)))


Contract(L + "mean_labels_apply_nb", FUTE, pre=positive, post=mean_label_post, props="C20", gen=lab_gen(True), trials=400)


# --------------------------------------------------------------------------------------- symmetric thresholds
def sym_post(pos):
    def post(S, a, r):
        up, down = (r, a.neg_th) if pos else (a.pos_th, r)
        S.ensure("a fall by one undoes a rise by the other", S.eq((1.0 + up) * (1.0 - down), 1.0), "C20")
    return post


Contract(L + "get_symmetric_pos_th_nb", dict(neg_th=Float("fin")), props="C20", post=sym_post(True),
         pre=lambda S, a: S.require(S.ne(a.neg_th, 1.0), "not a total loss"), gen=lambda rng: dict(neg_th=float(rng.integers(0, 8)) / 8))
Contract(L + "get_symmetric_neg_th_nb", dict(pos_th=Float("fin")), props="C20", post=sym_post(False),
         pre=lambda S, a: S.require(S.ne(a.pos_th, -1.0), "no total loss"), gen=lambda rng: dict(pos_th=float(rng.integers(0, 17)) / 8))


# --------------------------------------------------------------------------------------- local extrema
def th_at(S, th, i, c):
    """The threshold of bar i and column c: one number for all, or one per element."""
    if not S.symbolic:
        return abs(float(np.broadcast_to(th, (1, 1))[0, 0])) if np.ndim(th) == 0 else abs(float(th[i, c]))
    if isinstance(th, Arr):
        th = th.at() if th.ndim == 0 else th[i, c]
    return S.abs(th)


def moved(S, a, out, p, q, c):
    """From extremum p to extremum q the price moved by the threshold in force at p, towards q, and q is its extreme."""
    x = a.close
    up, down = th_at(S, a.pos_th, p, c), th_at(S, a.neg_th, p, c)
    return S.and_(
        S.ite(S.eq(out[q, c], 1), S.ge(x[q, c], x[p, c] * (1.0 + up)), S.le(x[q, c], x[p, c] * (1.0 - down))),
        S.eq(out[p, c], -out[q, c]),
        S.forall(p, q, lambda k: S.ite(S.eq(out[q, c], 1), S.le(x[k, c], x[q, c]), S.ge(x[k, c], x[q, c]))))


def lex_post(S, a, r):
    n, m = S.len(a.close, 0), S.len(a.close, 1)
    shape_of(S, r, a.close)
    S.each("c", 0, m, lambda c: S.each("q", 0, n, lambda q: S.ensure("marks are -1, 0 and 1", S.or_(
        S.eq(r[q, c], 0), S.eq(r[q, c], 1), S.eq(r[q, c], -1)), "C20")))
    S.each("c", 0, m, lambda c: S.each("q", 0, n, lambda q: S.each("p", 0, q, lambda p: S.ensure(
        "neighbouring extrema alternate, are a threshold apart, and the later one is the extreme of the move", S.or_(
            S.eq(r[p, c], 0), S.eq(r[q, c], 0), S.exists(p + 1, q, lambda k: S.ne(r[k, c], 0)), moved(S, a, r, p, q, c)), "C20"))))


def lex_done(S, v, c, upto):
    """The postcondition for the marks of column c."""
    S.each("q", 0, upto, lambda q: S.each("p", 0, q, lambda p: S.ensure("pairs", S.or_(
        S.eq(v.out[p, c], 0), S.eq(v.out[q, c], 0), S.exists(p + 1, q, lambda k: S.ne(v.out[k, c], 0)), moved(S, v, v.out, p, q, c)))))
    S.each("q", 0, upto, lambda q: S.ensure("marks", S.or_(S.eq(v.out[q, c], 0), S.eq(v.out[q, c], 1), S.eq(v.out[q, c], -1))))


def lex_outer(S, v):
    n = S.len(v.close, 0)
    S.each("c", 0, v.it, lambda c: lex_done(S, v, c, n))
    S.each("c", v.it, S.len(v.close, 1), lambda c: S.ensure("later columns untouched", S.forall(0, n, lambda k: S.eq(v.out[k, c], 0))))


def lex_inner(S, v):
    n, c, it, x = S.len(v.close, 0), v.col, v.it, v.close
    S.each("c", 0, c, lambda c: lex_done(S, v, c, n))
    S.each("c", c + 1, S.len(v.close, 1), lambda c: S.ensure("later columns untouched", S.forall(0, n, lambda k: S.eq(v.out[k, c], 0))))

    prev, d, lm = v.prev_i, v.direction, v.lm
    S.ensure("running extreme", S.and_(S.ge(prev, 0), S.lt(prev, S.max(it, 1))))
    S.ensure("direction", S.or_(S.eq(d, 0), S.eq(d, 1), S.eq(d, -1)))
    S.ensure("head values", S.and_(S.eq(v.d0, d), S.eq(v.p0, prev)))

    def here(c):
        lex_done(S, v, c, n)
        last = S.and_(S.ge(it, n), S.gt(n, 1))
        S.ensure("nothing marked from the running extreme on", S.or_(last, S.forall(prev, n, lambda k: S.eq(v.out[k, c], 0))))
        S.ensure("nothing marked yet", S.implies(S.eq(d, 0), S.and_(S.eq(prev, 0), S.forall(0, n, lambda k: S.eq(v.out[k, c], 0)))))
        S.ensure("last mark", S.or_(S.eq(d, 0), last, S.and_(S.ge(lm, 0), S.lt(lm, prev), S.eq(v.out[lm, c], d),
                                                       S.forall(lm + 1, n, lambda k: S.eq(v.out[k, c], 0)))))
        up, down = th_at(S, v.pos_th, lm, c), th_at(S, v.neg_th, lm, c)
        S.ensure("a threshold away from the last mark", S.or_(S.eq(d, 0), last, S.ite(
            S.eq(d, -1), S.ge(x[prev, c], x[lm, c] * (1.0 + up)), S.le(x[prev, c], x[lm, c] * (1.0 - down)))))
        S.ensure("extreme since the last mark", S.or_(S.eq(d, 0), last, S.forall(lm, it, lambda k: S.ite(
            S.eq(d, -1), S.le(x[k, c], x[prev, c]), S.ge(x[k, c], x[prev, c])))))
        S.ensure("below the thresholds since the running extreme", S.or_(S.eq(d, 0), last, S.forall(prev + 1, it, lambda k: S.ite(
            S.eq(d, -1), S.gt(x[k, c], x[prev, c] * (1.0 - th_at(S, v.neg_th, prev, c))),
            S.lt(x[k, c], x[prev, c] * (1.0 + th_at(S, v.pos_th, prev, c)))))))
        S.ensure("within the thresholds of the first bar", S.or_(S.ne(d, 0), S.forall(1, it, lambda k: S.and_(
            S.lt(x[k, c], x[0, c] * (1.0 + th_at(S, v.pos_th, 0, c))), S.gt(x[k, c], x[0, c] * (1.0 - th_at(S, v.neg_th, 0, c)))))))
    S.each("c", c, c + 1, here)


def lex_gen(rng):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 3))
    close = rng.integers(1, 9, (n, m)).astype(float)
    th = lambda: float(rng.choice([.125, .25, .5, .75])) if rng.random() < .5 else rng.choice([.125, .25, .5, .75], (n, m))
    p, q = th(), th()
    if np.ndim(p) != np.ndim(q):
        q = np.full((n, m), q) if np.ndim(p) else float(q[0, 0])
    return dict(close=close, pos_th=p, neg_th=q)


def lex_pre(S, a):
    positive(S, a)
    for th in (a.pos_th, a.neg_th):
        if not S.symbolic or not isinstance(th, Arr):
            S.require(S.gt(th, 0.0) if np.ndim(th) == 0 or S.symbolic else bool((th > 0).all()), "thresholds are positive")
        else:
            S.require(S.forall(0, S.len(th, 0), lambda i: S.forall(0, S.len(th, 1), lambda c: S.gt(th[i, c], 0.0))), "thresholds are positive")


PRICE = Arr_("f", "n", "m", nan=False)
lex_head = dict(lm=lambda S, v: -1)
Contract(L + "local_extrema_apply_nb", dict(close=PRICE, pos_th=Float("fin"), neg_th=Float("fin")),
         pre=lex_pre, post=lex_post, props="C20", gen=lex_gen, trials=400, returns=ret_arr("i", lambda a: a.close.shape),
         loops={0: Inv(lex_outer, arb="c"), 1: Inv(lex_inner, ghost=lambda S, v: dict(lm=-1, d0=0, p0=0), ghost_step=lambda S, v: dict(
             lm=S.ite(S.eq(v.direction, v.d0), v.lm, v.p0), d0=v.direction, p0=v.prev_i))})


# --------------------------------------------------------------------------------------- labels of the moves between extrema
MARKS = Arr_("i", "n", "m", elem=lambda S, e: S.and_(S.ge(e, -1), S.le(e, 1)))


def adjacent(S, marks, c, p, q):
    """p < q are extrema with none between."""
    return S.and_(S.ne(marks[p, c], 0), S.ne(marks[q, c], 0), S.not_(S.exists(p + 1, q, lambda k: S.ne(marks[k, c], 0))))


def move_labels(S, a, out, c, upto, at, props=None):
    """Every bar from extremum p up to the next one q < upto has its label; `at` with two more arguments also gets the lowest
    and the highest bar of the move."""
    mk, x = a.local_extrema, a.close
    wide = at.__code__.co_argcount > 7

    def pair(p, q):
        if not wide:
            return S.ensure("label of the move", S.implies(adjacent(S, mk, c, p, q), S.forall(p, q, lambda i: at(S, a, out, c, p, q, i))), props)

        def ends(l, h):
            ok = S.and_(adjacent(S, mk, c, p, q), S.forall(p, q + 1, lambda k: S.and_(S.le(x[l, c], x[k, c]), S.ge(x[h, c], x[k, c]))))
            S.ensure("label of the move", S.implies(ok, S.forall(p, q, lambda i: at(S, a, out, c, p, q, i, l, h))), props)
        S.each("l", p, q + 1, lambda l: S.each("h", p, q + 1, lambda h: ends(l, h)))
    S.each("q", 0, upto, lambda q: S.each("p", 0, q, lambda p: pair(p, q)))


def unlabelled(S, a, out, c, props=None):
    n, mk = S.len(a.close, 0), a.local_extrema
    S.each("i", 0, n, lambda i: S.ensure("no label outside the moves", S.implies(S.or_(
        S.forall(0, i + 1, lambda k: S.eq(mk[k, c], 0)), S.forall(i + 1, n, lambda k: S.eq(mk[k, c], 0))), S.isnan(out[i, c])), props))


def moves_post(S, a, r, at):
    n, m = S.len(a.close, 0), S.len(a.close, 1)
    shape_of(S, r, a.close)
    S.each("c", 0, m, lambda c: (move_labels(S, a, r, c, n, at, "C20"), unlabelled(S, a, r, c, "C20")))


def moves_outer(at):
    def f(S, v):
        n = S.len(v.close, 0)
        S.each("c", 0, v.it, lambda c: moves_upto(S, v, c, n, at))
        S.each("c", v.it, S.len(v.close, 1), lambda c: S.ensure("later columns untouched", S.forall(0, n, lambda k: S.isnan(v.out[k, c]))))
    return f


def moves_upto(S, v, c, upto, at):
    move_labels(S, v, v.out, c, upto, at)
    unlabelled(S, v, v.out, c)


def moves_inner(at):
    def f(S, v):
        n, c, it = S.len(v.close, 0), v.col, v.it
        S.each("c", 0, c, lambda c: moves_upto(S, v, c, n, at))
        S.each("c", c + 1, S.len(v.close, 1), lambda c: S.ensure("later columns untouched", S.forall(0, n, lambda k: S.isnan(v.out[k, c]))))

        def here(c):
            last = v.idxs[it - 1]
            moves_upto(S, v, c, last + 1, at)
            S.ensure("nothing from the last mark on", S.forall(last, n, lambda k: S.isnan(v.out[k, c])))
        S.each("c", c, c + 1, here)
    return f


def moves_bars(at):
    def f(S, v):
        n, c = S.len(v.close, 0), v.col
        S.each("c", 0, c, lambda c: moves_upto(S, v, c, n, at))
        S.each("c", c + 1, S.len(v.close, 1), lambda c: S.ensure("later columns untouched", S.forall(0, n, lambda k: S.isnan(v.out[k, c]))))

        def here(c):
            p, q, x = v.prev_i, v.next_i, v.close
            moves_upto(S, v, c, p + 1, at)
            S.ensure("nothing from here on", S.forall(v.it, n, lambda k: S.isnan(v.out[k, c])))
            if at.__code__.co_argcount <= 7:
                return S.ensure("this move so far", S.forall(p, v.it, lambda i: at(S, v, v.out, c, p, q, i)))

            def ends(l, h):
                ok = S.forall(p, q + 1, lambda k: S.and_(S.le(x[l, c], x[k, c]), S.ge(x[h, c], x[k, c])))
                S.ensure("this move so far", S.implies(ok, S.forall(p, v.it, lambda i: at(S, v, v.out, c, p, q, i, l, h))))
            S.each("l", p, q + 1, lambda l: S.each("h", p, q + 1, lambda h: ends(l, h)))
        S.each("c", c, c + 1, here)
    return f


def marks_gen(rng):
    n, m = int(rng.integers(1, 10)), int(rng.integers(1, 3))
    close = rng.integers(1, 9, (n, m)).astype(float)
    mk = rng.choice([0, 0, 1, -1], (n, m)).astype(np.int64)
    return dict(close=close, local_extrema=mk)


def bn_at(S, a, out, c, p, q, i):
    return S.eq(out[i, c], S.ite(S.gt(a.close[q, c], a.close[p, c]), S.f(1.0), S.f(0.0)))


def pct_at(S, a, out, c, p, q, i):
    x, nxt = a.close[i, c], a.close[q, c]
    rise = S.and_(S.gt(nxt, a.close[p, c]), a.normalize)
    return S.ite(rise, S.eq(out[i, c] * nxt, nxt - x), S.eq(out[i, c] * x, nxt - x))


def marked(name, params, at, gen, **kw):
    Contract(L + name, params, pre=kw.pop("pre", positive), post=lambda S, a, r: moves_post(S, a, r, at), props="C20", gen=gen, trials=300,
             loops={0: Inv(moves_outer(at), arb="c"), 1: Inv(moves_inner(at)), **kw.pop("loops", {})},
             returns=ret_arr("f", lambda a: a.close.shape), **kw)


marked("bn_trend_labels_nb", dict(close=PRICE, local_extrema=MARKS), bn_at, marks_gen)


marked("pct_trend_labels_nb", dict(close=PRICE, local_extrema=MARKS, normalize=Bool()), pct_at,
       lambda rng: dict(marks_gen(rng), normalize=bool(rng.integers(2))), loops={2: Inv(moves_bars(pct_at))})


def cont_at(S, a, out, c, p, q, i, l, h):
    x = a.close
    lo, hi = x[l, c], x[h, c]
    return S.implies(S.gt(hi, lo), S.eq(out[i, c] * (hi - lo), hi - x[i, c]))


marked("bn_cont_trend_labels_nb", dict(close=PRICE, local_extrema=MARKS), cont_at, marks_gen)


def sat_at(S, a, out, c, p, q, i, l, h):
    x = a.close
    lo, hi, v = x[l, c], x[h, c], x[i, c]
    up, down = th_at(S, a.pos_th, p, c), th_at(S, a.neg_th, p, c)
    o = out[i, c]
    rise = S.and_(S.ge(hi, lo * (1.0 + up)), S.le(v * (1.0 + up), hi))
    fall = S.and_(S.le(lo, hi * (1.0 - down)), S.ge(v * (1.0 - down), lo))
    return S.ite(S.gt(x[q, c], x[p, c]),
                 S.and_(S.implies(rise, S.eq(o, S.f(1.0))), S.or_(rise, S.eq(o * (hi * up), (hi - v) * (1.0 + up)))),
                 S.and_(S.implies(fall, S.eq(o, S.f(0.0))), S.or_(fall, S.eq((1.0 - o) * (lo * down), (v - lo) * (1.0 - down)))))


def sat_gen(rng):
    d = lex_gen(rng)
    return dict(d, local_extrema=rng.choice([0, 0, 1, -1], d["close"].shape).astype(np.int64))


def sat_pre(S, a):
    positive(S, a)
    lex_pre(S, a)
    if S.symbolic:
        S.require(S.lt(a.neg_th, 1.0), "less than a total loss")


marked("bn_cont_sat_trend_labels_nb", dict(close=PRICE, local_extrema=MARKS, pos_th=Float("fin"), neg_th=Float("fin")), sat_at, sat_gen,
       loops={2: Inv(moves_bars(sat_at))}, pre=sat_pre)


# --------------------------------------------------------------------------------------- breakouts
def hit(S, a, c, i, j):
    """1 or -1 if the price at j is a threshold above or below the one at i, else 0."""
    up, down = th_at(S, a.pos_th, i, c), th_at(S, a.neg_th, i, c)
    x = a.close
    return S.ite(S.and_(S.gt(up, 0.0), S.ge(x[j, c], x[i, c] * (1.0 + up))), 1,
                 S.ite(S.and_(S.gt(down, 0.0), S.le(x[j, c], x[i, c] * (1.0 - down))), -1, 0))


def first_hit(S, a, c, i, v):
    n = S.len(a.close, 0)
    lo = i + a.wait
    hi = S.min(i + a.window + a.wait, n)
    return S.or_(S.and_(S.eq(v, 0.0), S.forall(lo, hi, lambda j: S.eq(hit(S, a, c, i, j), 0))),
                 S.exists(lo, hi, lambda j: S.and_(S.ne(hit(S, a, c, i, j), 0), S.eq(v, S.f(hit(S, a, c, i, j))),
                                                 S.forall(lo, j, lambda k: S.eq(hit(S, a, c, i, k), 0)))))


def bo_post(S, a, r):
    n, m = S.len(a.close, 0), S.len(a.close, 1)
    shape_of(S, r, a.close)
    S.each("c", 0, m, lambda c: S.each("i", 0, n, lambda i: S.ensure("sign of the first threshold reached", first_hit(S, a, c, i, r[i, c]), "C20")))


def bo_done(S, v, c, upto):
    S.each("i", 0, upto, lambda i: S.ensure("labels", first_hit(S, v, c, i, v.out[i, c])))


def bo_outer(S, v):
    n = S.len(v.close, 0)
    S.each("c", 0, v.it, lambda c: bo_done(S, v, c, n))
    S.each("c", v.it, S.len(v.close, 1), lambda c: S.ensure("later columns untouched", S.forall(0, n, lambda k: S.eq(v.out[k, c], 0.0))))


def bo_rows(S, v, it=None):
    n, c = S.len(v.close, 0), v.col
    it = v.it if it is None else it
    S.each("c", 0, c, lambda c: bo_done(S, v, c, n))
    S.each("c", c + 1, S.len(v.close, 1), lambda c: S.ensure("later columns untouched", S.forall(0, n, lambda k: S.eq(v.out[k, c], 0.0))))
    S.each("c", c, c + 1, lambda c: (bo_done(S, v, c, it), S.ensure("later rows untouched", S.forall(it, n, lambda k: S.eq(v.out[k, c], 0.0)))))


def bo_scan(S, v):
    bo_rows(S, v, v.i)
    c, i = v.col, v.i
    S.ensure("no threshold reached so far", S.forall(i + v.wait, v.it, lambda j: S.eq(hit(S, v, c, i, j), 0)))


def bo_gen(rng):
    d = lex_gen(rng)
    z = lambda th: th if rng.random() < .8 else th * 0.0
    return dict(close=d["close"], window=int(rng.integers(1, 5)), pos_th=z(d["pos_th"]), neg_th=z(d["neg_th"]), wait=int(rng.integers(0, 3)))


Contract(L + "breakout_labels_nb", dict(close=MAT, window=Int(1), pos_th=Float("fin"), neg_th=Float("fin"), wait=Int(0)),
         pre=positive, post=bo_post, props="C20", gen=bo_gen, trials=300, returns=ret_arr("f", lambda a: a.close.shape),
         loops={0: Inv(bo_outer, arb="c"), 1: Inv(bo_rows), 2: Inv(bo_scan)})


# --------------------------------------------------------------------------------------- trend labels
def trend_post(S, a, r):
    """The labels of the chosen mode for the local extrema of the same thresholds."""
    if S.symbolic:
        if S.mode != "prove":
            return
        marks = S.p.results["local_extrema_apply_nb"][-1]
    else:
        marks = plain_extrema(a.close, a.pos_th, a.neg_th)
    d = dict(close=a.close, pos_th=a.pos_th, neg_th=a.neg_th, local_extrema=marks)
    if S.symbolic:
        lex_post(S, NSp(**d), marks)
    for k, (at, norm) in enumerate([(bn_at, False), (cont_at, False), (sat_at, False), (pct_at, False), (pct_at, True)]):
        if S.split(S.eq(a.mode, k)) if S.symbolic else a.mode == k:
            moves_post(S, NSp(normalize=norm, **d), r, at)


def plain_extrema(close, pos_th, neg_th):
    out = np.zeros(close.shape, np.int64)
    for c in range(close.shape[1]):
        x, last, side = close[:, c], 0, 0
        up, down = (np.broadcast_to(np.abs(t), close.shape)[:, c] for t in (pos_th, neg_th))
        for i in range(1, len(x)):
            rises, falls = x[i] >= x[last] * (1 + up[last]), x[i] <= x[last] * (1 - down[last])
            if side != 1 and rises:
                out[last, c], last, side = -1, i, 1
            elif side != -1 and falls:
                out[last, c], last, side = 1, i, -1
            elif side and (x[i] - x[last]) * side > 0:
                last = i
        if side:
            out[last, c] = side
    return out


Contract(L + "trend_labels_apply_nb", dict(close=PRICE, pos_th=Float("fin"), neg_th=Float("fin"), mode=Int(-1, 5)), pre=sat_pre, post=trend_post,
         props="C20", trials=400, returns=cl, gen=lambda rng: dict(lex_gen(rng), mode=int(rng.integers(0, 5))),
         raises={"ValueError": lambda S, a: S.or_(S.lt(a.mode, 0), S.gt(a.mode, 4))})

"""C12, C13, C14: signal generation, cleaning, stops, ranges and ranks (vectorbt/signals/nb.py)."""
from .common import *
from . import arrays  # noqa: F401  flexible indexing is used through its contract
import vectorbt  # noqa: F401
from vectorbt.generic.enums import range_dt

SG = "vectorbt.signals.nb:"


class NSp:
    def __init__(self, **k):
        self.__dict__.update(k)


def tr(S, x):
    return S.eq(x, True)


# --------------------------------------------------------------------------------------- C12 cleaning
def phase(S, e, x, entry_first):
    """fold over the bars: -1 nothing kept yet, 1 an entry was kept last, 0 an exit was kept last."""
    def step(s, k):
        both = S.and_(tr(S, e[k]), tr(S, x[k]))
        en = S.and_(tr(S, e[k]), S.not_(both), S.ne(s, 1))
        ex = S.and_(tr(S, x[k]), S.not_(both), S.or_(S.eq(s, 1), S.and_(S.not_(entry_first), S.eq(s, -1))))
        return S.ite(en, 1, S.ite(ex, 0, s))
    return S.fold(-1, step)


def kept_entry(S, P, e, x, k):
    return S.and_(tr(S, e[k]), S.not_(tr(S, x[k])), S.ne(P(k), 1))


def kept_exit(S, P, e, x, k, entry_first):
    return S.and_(tr(S, x[k]), S.not_(tr(S, e[k])), S.or_(S.eq(P(k), 1), S.and_(S.not_(entry_first), S.eq(P(k), -1))))


def clean_core(S, a, eo, xo, hi, props=None):
    P = phase(S, a.entries, a.exits, a.entry_first)
    S.ensure("keeps exactly the first entry after an exit (or at the start)", S.forall(0, hi, lambda k: S.iff(
        tr(S, eo[k]), kept_entry(S, P, a.entries, a.exits, k))), props)
    S.ensure("keeps exactly the first exit after an entry", S.forall(0, hi, lambda k: S.iff(
        tr(S, xo[k]), kept_exit(S, P, a.entries, a.exits, k, a.entry_first))), props)


def clean_post(S, a, r):
    n = S.len(a.entries)
    eo, xo = r
    S.ensure("lengths", S.and_(S.eq(S.len(eo), n), S.eq(S.len(xo), n)), "C12")
    S.ensure("a subset that never coincides", S.forall(0, n, lambda k: S.and_(
        S.implies(tr(S, eo[k]), tr(S, a.entries[k])), S.implies(tr(S, xo[k]), tr(S, a.exits[k])),
        S.not_(S.and_(tr(S, eo[k]), tr(S, xo[k]))))), "C12")
    clean_core(S, a, eo, xo, n, "C12")
    # strict alternation: among the first k bars kept entries and exits differ by at most one, always to the same side
    P = phase(S, a.entries, a.exits, a.entry_first)

    def bal(s, k):
        return s + S.i(kept_entry(S, P, a.entries, a.exits, k)) - S.i(kept_exit(S, P, a.entries, a.exits, k, a.entry_first))
    B = S.fold((0, 0), lambda s, k: (bal(s[0], k), S.ite(S.and_(S.eq(s[1], 0), kept_exit(S, P, a.entries, a.exits, k, a.entry_first),
                                                               S.eq(P(k), -1)), 1, s[1])))

    def alt(k):
        bal, exit_first = B(k)
        return S.and_(S.or_(S.eq(exit_first, 0), S.eq(exit_first, 1)), S.ge(P(k), -1), S.le(P(k), 1),
                      S.implies(S.eq(P(k), -1), S.and_(S.eq(bal, 0), S.eq(exit_first, 0))),
                      S.implies(S.eq(P(k), 1), S.eq(bal, 1 - exit_first)), S.implies(S.eq(P(k), 0), S.eq(bal, 0 - exit_first)),
                      S.implies(a.entry_first, S.eq(exit_first, 0)))
    S.induct("kept signals alternate", 0, n, alt, "C12")
    S.ensure("kept signals alternate", alt(n), "C12")


def clean_inv(S, v):
    P = phase(S, v.entries, v.exits, v.entry_first)
    S.ensure("phase", S.and_(S.eq(v.phase, P(v.it)), S.le(-1, v.phase), S.le(v.phase, 1)))
    clean_core(S, v, v.entries_out, v.exits_out, v.it)
    S.ensure("nothing kept beyond", S.forall(v.it, S.len(v.entries), lambda k: S.not_(S.or_(tr(S, v.entries_out[k]), tr(S, v.exits_out[k])))))


def g_clean(two=False):
    def g(rng):
        n = int(rng.integers(0, 9))
        sh = (n, int(rng.integers(1, 4))) if two else (n,)
        p = rng.random()
        return dict(entries=rng.random(sh) < p, exits=rng.random(sh) < pick(rng, p, 0.3, 0.6), entry_first=bool(rng.integers(2)))
    return g


Contract(SG + "clean_enex_1d_nb", dict(entries=Arr_("b", "n"), exits=Arr_("b", "n"), entry_first=Bool(True)), post=clean_post,
         loops={0: clean_inv}, props="C12", gen=g_clean(), trials=800,
         returns=lambda ex, a, name: (ret_arr("b", lambda a: (a.entries.shape[0],))(ex, a, name + ".e"),
                                      ret_arr("b", lambda a: (a.entries.shape[0],))(ex, a, name + ".x")))


def clean_cols(S, v, c):
    return NSp(entries=S.col(v.entries, c), exits=S.col(v.exits, c), entry_first=v.entry_first)


Contract(SG + "clean_enex_nb", dict(entries=Arr_("b", "n", "m"), exits=Arr_("b", "n", "m"), entry_first=Bool(True)), props="C12",
         gen=g_clean(True), trials=300,
         post=lambda S, a, r: S.each("c", 0, S.len(a.entries, 1), lambda c: clean_post(S, clean_cols(S, a, c), (S.col(r[0], c), S.col(r[1], c)))),
         loops={0: Inv(lambda S, v: S.each("c", 0, v.it, lambda c: clean_core(S, clean_cols(S, v, c), S.col(v.entries_out, c),
                                                                              S.col(v.exits_out, c), S.len(v.entries, 0))), arb="c")})


# --------------------------------------------------------------------------------------- C12 generation
class Choice:
    """An arbitrary choice function: a fixed list of indices for every (from_i, to_i, col)."""

    def __init__(self, name):
        import z3
        self.z3 = z3
        I = z3.IntSort()
        self.n = z3.Function(name + ".len", I, I, I, I)
        self.f = z3.Function(name, I, I, I, I, I)

    def sym(self, ex, args):
        fr, to, col = [zi_(x) for x in args[:3]]
        ln = self.n(fr, to, col)
        ex.p.assume(ln >= 0)
        st = ex.eng.new_store(ex.p, "chosen", "i", 1, lambda idx: self.f(fr, to, col, zi_(idx[0])))
        from pyvc.values import Arr
        return Arr(st, (ln,))

    def len(self, S, a, fr, to, col):
        return self.n(zi_(fr), zi_(to), zi_(col)) if S.symbolic else len(a(fr, to, col))

    def at(self, S, a, fr, to, col, k):
        return self.f(zi_(fr), zi_(to), zi_(col), zi_(k)) if S.symbolic else int(a(fr, to, col)[k])


def zi_(x):
    from pyvc.values import zi
    return zi(x)


CH = Choice("choice")


def g_choice(rng, dims=None, out=0.15):
    seed, p = int(rng.integers(1 << 30)), pick(rng, 0.2, 0.5, 0.9)
    oob = rng.random() < out

    def f(from_i, to_i, col, *args):
        r = np.random.default_rng([seed, from_i, to_i, col])
        x = np.arange(from_i, to_i)[r.random(max(to_i - from_i, 0)) < p]
        if oob and r.random() < 0.4:
            x = np.append(x, pick(r, to_i, from_i - 1))
            if r.random() < 0.5:
                x = x[::-1].copy()
        return x
    return f


def gen_col(S, v, c, hi=None):
    """column c of generate_nb's result"""
    n = S.len(v.out, 0)
    ln = CH.len(S, v.choice_func_nb, 0, n, c)
    at = lambda k: CH.at(S, v.choice_func_nb, 0, n, c, k)
    if v.pick_first:
        S.ensure("the first chosen index only", S.forall(0, n, lambda r: S.iff(tr(S, v.out[r, c]), S.and_(S.gt(ln, 0), S.eq(r, at(0))) if S.symbolic
                                                                              else ln > 0 and r == at(0))), "C12")
    else:
        S.ensure("nothing but chosen indices", S.forall(0, n, lambda r: S.implies(tr(S, v.out[r, c]), S.exists(0, ln, lambda k: S.eq(r, at(k))))), "C12")
        S.ensure("every chosen index", S.forall(0, ln, lambda k: S.and_(S.le(0, at(k)), S.lt(at(k), n), tr(S, v.out[at(k), c]))), "C12")


def gen_raises(S, a):
    if S.symbolic:
        return True
    n, m = a.shape
    for c in range(m):
        x = a.choice_func_nb(0, n, c)
        if len(x) and (not 0 <= x[0] < n if a.pick_first else ((x < 0) | (x >= n)).any()):
            return True
    return False


Contract(SG + "generate_nb", dict(shape=Tup(Dim("n"), Dim("m")), pick_first=Bool(True), choice_func_nb=Func(CH.sym, g_choice)), props="C12",
         trials=400, raises={"ValueError": gen_raises},
         post=lambda S, a, r: (S.ensure("shape", S.and_(S.eq(S.len(r, 0), a.shape[0]), S.eq(S.len(r, 1), a.shape[1])), "C12"),
                               S.each("c", 0, a.shape[1], lambda c: gen_col(S, NSp(out=r, choice_func_nb=a.choice_func_nb, pick_first=a.pick_first), c)))[0],
         loops={0: Inv(lambda S, v: (S.each("c", 0, v.it, lambda c: gen_col(S, v, c)),
                                     S.each("c", v.it, S.len(v.out, 1), lambda c: S.ensure("not reached", S.forall(
                                         0, S.len(v.out, 0), lambda r: S.not_(tr(S, v.out[r, c]))))))[0], arb="c")})


def exit_where(S, a, out, c, r, upto=None):
    """some signal e (before `upto`) allows an exit at r: not before e+wait, before the next signal if asked, and chosen there"""
    n = S.len(a.entries, 0)

    def by(e, t):
        fr = e + a.wait
        ln = CH.len(S, a.exit_choice_func_nb, fr, t, c)
        conds = [tr(S, a.entries[e, c]), S.le(fr, r), S.lt(r, t), S.le(t, n)]
        if a.until_next:
            conds.append(S.or_(S.eq(t, n), S.and_(S.lt(e, t), S.and_(S.lt(t, n), tr(S, a.entries[t, c])) if S.symbolic else t < n and bool(a.entries[t, c]))))
            conds.append(S.forall(e + 1, t, lambda q: S.not_(tr(S, a.entries[q, c]))))
        else:
            conds.append(S.eq(t, n))
        if upto is not None:
            conds.append(S.lt(e, upto))
        chosen = lambda: S.and_(S.gt(ln, 0), S.eq(r, CH.at(S, a.exit_choice_func_nb, fr, t, c, 0))) if a.pick_first else S.exists(
            0, ln, lambda k: S.eq(r, CH.at(S, a.exit_choice_func_nb, fr, t, c, k)))
        if not S.symbolic:
            return all(conds) and ln > 0 and bool(chosen())
        return S.and_(*conds, chosen())
    if not S.symbolic:
        return any(by(e, t) for e in range(n) for t in range(e, n + 1))
    return S.exists(0, n, lambda e: S.exists(0, n + 1, lambda t: by(e, t)))


def ex_sound(S, a, out, c, upto=None):
    n = S.len(a.entries, 0)
    if S.symbolic:
        S.ensure("exits only after a signal, within its range, where chosen", S.forall(0, n, lambda r: S.implies(
            tr(S, out[r, c]), exit_where(S, a, out, c, r, upto))), "C12 C13")
    else:
        S.ensure("exits only after a signal, within its range, where chosen",
                 all(exit_where(S, a, out, c, r) for r in range(n) if out[r, c]), "C12 C13")


def ex_complete_concrete(S, a, r):
    """every signal that is not skipped gets its chosen exits (evaluated on concrete runs)"""
    n, m = a.entries.shape
    want = np.zeros((n, m), bool)
    for c in range(m):
        sig = [i for i in range(n) if a.entries[i, c]]
        last = -1
        for j, e in enumerate(sig):
            if a.skip_until_exit and e <= last:
                continue
            t = sig[j + 1] if a.until_next and j + 1 < len(sig) else n
            if e + a.wait >= t:
                continue
            x = list(a.exit_choice_func_nb(e + a.wait, t, c))
            x = x[:1] if a.pick_first else x
            for i in x:
                want[i, c] = True
            if x:
                last = x[-1]
    S.ensure("exactly the chosen exits of the signals not skipped", bool((want == r).all()), "C12 C13")


def ex_done(S, a, out, c, done=None):
    """every signal already dealt with has its chosen exits (when no signals are skipped)"""
    if a.skip_until_exit or not S.symbolic:
        return
    n = S.len(a.entries, 0)

    def one(e, t):
        fr = e + a.wait
        ln = CH.len(S, a.exit_choice_func_nb, fr, t, c)
        at = lambda k: CH.at(S, a.exit_choice_func_nb, fr, t, c, k)
        conds = [tr(S, a.entries[e, c]), S.lt(fr, t), S.lt(e, t), S.gt(ln, 0)]
        if a.until_next:
            conds += [S.or_(S.eq(t, n), tr(S, a.entries[t, c])), S.forall(e + 1, t, lambda q: S.not_(tr(S, a.entries[q, c])))]
        else:
            conds += [S.eq(t, n)]
        if done is not None:
            conds.append(done(e))
        S.ensure("every signal gets its chosen exits", S.implies(S.and_(*conds), S.and_(S.le(fr, at(0)), S.lt(at(0), t), tr(S, out[at(0), c]))
                 if a.pick_first else S.forall(0, ln, lambda k: S.and_(S.le(fr, at(k)), S.lt(at(k), t), tr(S, out[at(k), c])))), "C12 C13")
    S.each("e", 0, n, lambda e: S.each("t", 0, n + 1, lambda t: one(e, t)))


def ex_post(S, a, r):
    S.ensure("shape", S.and_(S.eq(S.len(r, 0), S.len(a.entries, 0)), S.eq(S.len(r, 1), S.len(a.entries, 1))), "C12")
    if not S.symbolic:
        ex_complete_concrete(S, a, r)
    S.each("c", 0, S.len(a.entries, 1), lambda c: (ex_sound(S, a, r, c), ex_done(S, a, r, c))[0])


def g_ex(rng):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 3))
    return dict(entries=rng.random((n, m)) < pick(rng, 0.15, 0.4, 0.8), wait=int(rng.integers(0, 3)), until_next=bool(rng.integers(2)),
                skip_until_exit=bool(rng.integers(2)), pick_first=bool(rng.integers(2)), exit_choice_func_nb=g_choice(rng, out=0.05))


def ex_raises(S, a):
    if S.symbolic:
        return True
    n, m = a.entries.shape
    for c in range(m):
        sig = [i for i in range(n) if a.entries[i, c]]
        for j, e in enumerate(sig):
            t = sig[j + 1] if a.until_next and j + 1 < len(sig) else n
            x = a.exit_choice_func_nb(e + a.wait, t, c) if e + a.wait < t else []
            if len(x) and (not e + a.wait <= x[0] < t if a.pick_first else ((x < e + a.wait) | (x >= t)).any()):
                return True
    return False


Contract(SG + "generate_ex_nb", dict(entries=Arr_("b", "n", "m"), wait=Int(0), until_next=Bool(True), skip_until_exit=Bool(True), pick_first=Bool(True),
                                     exit_choice_func_nb=Func(CH.sym, g_choice)), props="C12 C13", gen=g_ex, trials=800,
         raises={"ValueError": ex_raises}, post=ex_post,
         loops={0: Inv(lambda S, v: (S.each("c", 0, v.it, lambda c: (ex_sound(S, v, v.exits, c), ex_done(S, v, v.exits, c))[0]),
                                     S.ensure("not reached", S.forall2(0, S.len(v.entries, 0), v.it, S.len(v.entries, 1),
                                                                       lambda r, c: S.not_(tr(S, v.exits[r, c])))))[0], arb="c"),
                1: Inv(lambda S, v: (ex_sound(S, v, v.exits, v.col),
                                     ex_done(S, v, v.exits, v.col, lambda e: S.or_(S.ge(v.it, S.len(v.entry_idxs)), S.lt(e, v.entry_idxs[v.it]))),
                                     S.ensure("other columns untouched", S.forall2(
                                         0, S.len(v.entries, 0), 0, S.len(v.entries, 1), lambda r, c: S.implies(
                                             S.ne(c, v.col), S.eq(v.exits[r, c], v.entry.exits[r, c])))))[0])})


# --------------------------------------------------------------------------------------- choice functions
def first_choice_post(S, a, r):
    n = S.len(r)
    S.ensure("one index at most", S.and_(S.ge(n, 0), S.le(n, 1)), "C12 C13")
    S.ensure("none only if there is no signal in the range", S.implies(S.eq(n, 0), S.forall(a.from_i, a.to_i, lambda i: S.not_(tr(S, a.a[i, a.col])))), "C12 C13")
    if S.symbolic or len(r):
        S.ensure("the first signal of the range", S.implies(S.eq(n, 1), S.and_(
            S.le(a.from_i, r[0]), S.lt(r[0], a.to_i), tr(S, a.a[r[0], a.col]),
            S.forall(a.from_i, r[0], lambda i: S.not_(tr(S, a.a[i, a.col]))))), "C12 C13")


def in_array(S, a, arr="a"):
    x = getattr(a, arr)
    S.require(S.and_(S.le(0, a.from_i), S.le(a.to_i, S.len(x, 0)), S.le(0, a.col), S.lt(a.col, S.len(x, 1))), "range inside the array")


def g_first(rng):
    n, m = int(rng.integers(1, 7)), int(rng.integers(1, 3))
    f = int(rng.integers(0, n))
    return dict(from_i=f, to_i=int(rng.integers(f, n + 1)), col=int(rng.integers(m)), a=rng.random((n, m)) < 0.3)


Contract(SG + "first_choice_nb", dict(from_i=Int(0), to_i=Int(0), col=Int(0), a=Arr_("b", "n", "m")), pre=in_array, post=first_choice_post,
         loops={0: lambda S, v: S.ensure("no signal so far", S.forall(v.from_i, v.it, lambda i: S.not_(tr(S, v.a[i, v.col]))))},
         props="C12 C13", gen=g_first, trials=300)


def prob_post(S, a, r):
    n = S.len(r)
    S.ensure("increasing indices of the range", S.and_(
        S.forall(0, n, lambda k: S.and_(S.le(a.from_i, r[k]), S.lt(r[k], a.to_i))),
        S.forall2(0, n, lambda k: k + 1, n, lambda k, j: S.lt(r[k], r[j]))), "C12")
    S.ensure("at most one when picking the first", S.implies(a.pick_first, S.le(n, 1)), "C12")
    S.ensure("never where the probability is zero", S.forall(0, n, lambda k: S.gt(a.prob[r[k], a.col], 0.0)), "C12")
    if not S.symbolic:
        sure = [i for i in range(a.from_i, a.to_i) if a.prob[i, a.col] >= 1]
        got = [int(x) for x in r]
        S.ensure("always where the probability is one", (not sure or (got and got[0] <= sure[0])) if a.pick_first else set(sure) <= set(got), "C12")


def prob_inv(S, v):
    S.ensure("indices so far", S.and_(
        S.le(0, v.j), S.le(v.j, v.it - v.from_i),
        S.forall(0, v.j, lambda k: S.and_(S.le(v.from_i, v.temp_idx_arr[k]), S.lt(v.temp_idx_arr[k], v.it), S.gt(v.prob[v.temp_idx_arr[k], v.col], 0.0))),
        S.forall2(0, v.j, lambda k: k + 1, v.j, lambda k, j: S.lt(v.temp_idx_arr[k], v.temp_idx_arr[j])),
        S.implies(v.pick_first, S.eq(v.j, 0))))


def g_prob(rng):
    d = g_first(rng)
    n, m = d.pop("a").shape
    d.update(prob=rng.choice([0.0, 0.5, 1.0, math.nan], (n, m)), pick_first=bool(rng.integers(2)), temp_idx_arr=np.empty(n, dtype=np.int64), flex_2d=True)
    return d


Contract(SG + "rand_by_prob_choice_nb", dict(from_i=Int(0), to_i=Int(0), col=Int(0), prob=Arr_("f", "n", "m"), pick_first=Bool(True),
                                             temp_idx_arr=Arr_("i", "n"), flex_2d=Const(True)),
         pre=lambda S, a: in_array(S, a, "prob"), post=prob_post, loops={0: prob_inv}, modifies=("temp_idx_arr",), props="C12", gen=g_prob, trials=400)


# --------------------------------------------------------------------------------------- C13 stops
def best(S, x, init, lo, up=True):
    """fold: the highest (lowest) of the initial price and the prices from lo up to (not including) k; missing prices are skipped."""
    return S.fold(S.f(init), lambda s, k: S.ite(S.gt(x[k], s) if up else S.lt(x[k], s), x[k], s), lo)


def stop_hit(S, a):
    """i -> price at bar i has reached the stop that the signal at from_i - wait set"""
    x = S.col(a.ts, a.col)
    e = a.from_i - a.wait
    p0, st, trail = x[e], a.stop[e, a.col], a.trailing[e, a.col]
    hi, lo = best(S, x, p0, a.from_i), best(S, x, p0, a.from_i, False)

    def hit(i):
        fixed = p0 * (S.f(1.0) + st)
        up = S.ite(trail, lo(i) * (S.f(1.0) + S.abs(st)), fixed)
        dn = S.ite(trail, hi(i) * (S.f(1.0) - S.abs(st)), fixed)
        return S.and_(S.not_(S.isnan(st)), S.ite(S.ge(st, 0.0), S.ge(x[i], up), S.le(x[i], dn)))
    return hit


def marks(S, a, arr, n, hi, hit, props=None):
    """arr[:n] are exactly the bars of [from_i, hi) for which hit holds, in order"""
    S.ensure("only bars of the range that reach the stop", S.forall(0, n, lambda k: S.and_(S.le(a.from_i, arr[k]), S.lt(arr[k], hi), hit(arr[k]))), props)
    S.ensure("in order", S.forall2(0, n, lambda k: k + 1, n, lambda k, j: S.lt(arr[k], arr[j])), props)
    S.ensure("every bar that reaches the stop", S.forall(a.from_i, hi, lambda i: S.implies(hit(i), S.exists(0, n, lambda k: S.eq(arr[k], i)))), props)


def stop_marks(S, a, r, hit):
    n = S.len(r)
    if S.symbolic:
        S.ensure("range", S.and_(S.ge(n, 0), S.forall(0, n, lambda k: S.and_(S.le(a.from_i, r[k]), S.lt(r[k], a.to_i)))), "C13")
        if a.pick_first:
            S.ensure("one at most", S.le(n, 1), "C13")
            S.ensure("none means the stop is not reached", S.implies(S.eq(n, 0), S.forall(a.from_i, a.to_i, lambda i: S.not_(hit(i)))), "C13")
            S.ensure("the first bar that reaches the stop", S.implies(S.eq(n, 1), S.and_(
                hit(r[0]), S.forall(a.from_i, r[0], lambda i: S.not_(hit(i))))), "C13")
        else:
            marks(S, a, r, n, a.to_i, hit, "C13")
        return
    h = [(i, hit(i)) for i in range(a.from_i, a.to_i)]
    if any(x is None for _, x in h):
        return
    w = [i for i, x in h if x]
    S.ensure("exactly the bars that reach the stop, or the first of them", list(r) == (w[:1] if a.pick_first else w), "C13")


def stop_pre(S, a):
    S.require(S.and_(S.le(0, a.from_i - a.wait), S.lt(a.from_i, S.len(a.ts, 0)), S.le(a.to_i, S.len(a.ts, 0)), S.le(0, a.col), S.lt(a.col, S.len(a.ts, 1))),
              "range inside the array")


def stop_inv(S, v):
    x = S.col(v.ts, v.col)
    e = v.from_i - v.wait
    hit = stop_hit(S, v)
    S.ensure("best prices so far", S.implies(v.init_trailing, S.and_(
        S.eq(v.max_high, best(S, x, x[e], v.from_i)(v.it)), S.eq(v.min_low, best(S, x, x[e], v.from_i, False)(v.it)))))
    S.ensure("order", S.implies(S.not_(S.isnan(x[e])), S.le(v.min_low, v.max_high)))
    S.ensure("missing entry price", S.implies(S.isnan(x[e]), S.and_(S.isnan(v.min_low), S.isnan(v.max_high))))
    S.ensure("count", S.and_(S.le(0, v.j), S.le(v.j, v.it - v.from_i)))
    if v.pick_first:
        S.ensure("not reached so far", S.and_(S.eq(v.j, 0), S.forall(v.from_i, v.it, lambda i: S.not_(hit(i)))))
    else:
        marks(S, v, v.temp_idx_arr, v.j, v.it, hit)


def g_stop(rng):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 3))
    f = int(rng.integers(0, n))
    ts = rng.integers(4, 20, (n, m)) / 2.0
    if rng.random() < 0.2:
        ts[rng.random((n, m)) < 0.2] = math.nan
    return dict(from_i=f, to_i=int(rng.integers(f, n + 1)), col=int(rng.integers(m)), ts=ts, wait=int(rng.integers(0, f + 1)),
                stop=rng.choice([math.nan, 0.0, 0.25, -0.25, 0.5, -0.5, 0.1, -0.1], (n, m)), trailing=rng.random((n, m)) < 0.5,
                pick_first=bool(rng.integers(2)), temp_idx_arr=np.empty(n, dtype=np.int64), flex_2d=True)


Contract(SG + "stop_choice_nb", dict(from_i=Int(0), to_i=Int(0), col=Int(0), ts=Arr_("f", "n", "m"), stop=Arr_("f", "n", "m"), trailing=Arr_("b", "n", "m"),
                                     wait=Int(0), pick_first=Bool(True), temp_idx_arr=Arr_("i", "n"), flex_2d=Const(True)),
         pre=stop_pre, post=lambda S, a, r: stop_marks(S, a, r, stop_hit(S, a)), loops={0: stop_inv}, modifies=("temp_idx_arr",), props="C13",
         gen=g_stop, trials=1000)


def ohlc_bar(S, a, i):
    """(high, low) that count at bar i: the whole bar, or its close only when the entry price comes after the open."""
    o, h, l, c = a.open[i, a.col], a.high[i, a.col], a.low[i, a.col], a.close[i, a.col]
    o = S.ite(S.isnan(o), c, o)
    l = S.ite(S.isnan(l), S.ite(S.lt(c, o), c, o), l)
    h = S.ite(S.isnan(h), S.ite(S.gt(c, o), c, o), h)
    whole = S.or_(a.is_open_safe, S.gt(i, a.from_i - a.wait))
    return S.ite(whole, h, c), S.ite(whole, l, c)


def ohlc_refs(S, a):
    p0 = a.open[a.from_i - a.wait, a.col]
    hi = S.fold(S.f(p0), lambda s, k: (lambda x: S.ite(S.gt(x, s), x, s))(ohlc_bar(S, a, k)[0]), a.from_i)
    lo = S.fold(S.f(p0), lambda s, k: (lambda x: S.ite(S.lt(x, s), x, s))(ohlc_bar(S, a, k)[1]), a.from_i)
    return p0, hi, lo


def ohlc_rule(S, a):
    """i -> (stop loss reached, its level, take profit reached, its level)"""
    e = a.from_i - a.wait
    p0, hi, lo = ohlc_refs(S, a)
    sl, tp, trail, rev = a.sl_stop[e, a.col], a.tp_stop[e, a.col], a.sl_trail[e, a.col], a.reverse[e, a.col]
    one = S.f(1.0)

    def at(i):
        h, l = ohlc_bar(S, a, i)
        sl_lvl = S.ite(rev, S.ite(trail, lo(i), p0) * (one + sl), S.ite(trail, hi(i), p0) * (one - sl))
        tp_lvl = S.ite(rev, p0 * (one - tp), p0 * (one + tp))
        sl_hit = S.and_(S.not_(S.isnan(sl)), S.ite(rev, S.ge(h, sl_lvl), S.le(l, sl_lvl)))
        tp_hit = S.and_(S.not_(S.isnan(tp)), S.ite(rev, S.le(l, tp_lvl), S.ge(h, tp_lvl)))
        return sl_hit, sl_lvl, tp_hit, tp_lvl
    return at


def ohlc_out(S, a, price, typ, old_price, old_typ, i, marked, at):
    """what is written at bar i of the column"""
    sl_hit, sl_lvl, tp_hit, tp_lvl = at(i)
    trail = a.sl_trail[a.from_i - a.wait, a.col]
    return S.ite(marked, S.and_(S.eq(price[i, a.col], S.ite(sl_hit, sl_lvl, tp_lvl)), S.eq(typ[i, a.col], S.ite(sl_hit, S.ite(trail, 1, 0), 2))),
                 S.and_(S.eq(price[i, a.col], old_price[i, a.col]), S.eq(typ[i, a.col], old_typ[i, a.col])))


def ohlc_post(S, a, r):
    at = ohlc_rule(S, a)
    hit = lambda i: S.or_(at(i)[0], at(i)[2])
    stop_marks(S, a, r, hit)
    n = S.len(r)
    N = S.len(a.open, 0)
    old = a.old
    if S.symbolic:
        end = S.ite(S.eq(n, 1), r[0] + 1, a.to_i) if a.pick_first else a.to_i
        S.ensure("stop price and type at the marked bars, nothing elsewhere", S.forall(0, N, lambda i: ohlc_out(
            S, a, a.stop_price_out, a.stop_type_out, old.stop_price_out, old.stop_type_out, i,
            S.and_(S.le(a.from_i, i), S.lt(i, end), hit(i)), at)), "C13")
        S.ensure("other columns untouched", S.forall2(0, N, 0, S.len(a.open, 1), lambda i, c: S.implies(S.ne(c, a.col), S.and_(
            S.eq(a.stop_price_out[i, c], old.stop_price_out[i, c]), S.eq(a.stop_type_out[i, c], old.stop_type_out[i, c])))), "C13")
    else:
        got = set(int(x) for x in r)
        for i in range(N):
            S.ensure("stop price and type at the marked bars, nothing elsewhere", ohlc_out(
                S, a, a.stop_price_out, a.stop_type_out, old.stop_price_out, old.stop_type_out, i, i in got, at), "C13")


def ohlc_inv(S, v):
    at = ohlc_rule(S, v)
    hit = lambda i: S.or_(at(i)[0], at(i)[2])
    p0, hi, lo = ohlc_refs(S, v)
    S.ensure("best prices so far", S.implies(v.init_sl_trail, S.and_(S.eq(v.max_p, hi(v.it)), S.eq(v.min_p, lo(v.it)))))
    S.ensure("count", S.and_(S.le(0, v.j), S.le(v.j, v.it - v.from_i)))
    if v.pick_first:
        S.ensure("not reached so far", S.and_(S.eq(v.j, 0), S.forall(v.from_i, v.it, lambda i: S.not_(hit(i)))))
    else:
        marks(S, v, v.temp_idx_arr, v.j, v.it, hit)
    N = S.len(v.open, 0)
    S.ensure("written so far", S.forall(0, N, lambda i: ohlc_out(
        S, v, v.stop_price_out, v.stop_type_out, v.old.stop_price_out, v.old.stop_type_out, i,
        S.and_(S.le(v.from_i, i), S.lt(i, v.it), hit(i)), at)))
    S.ensure("other columns untouched", S.forall2(0, N, 0, S.len(v.open, 1), lambda i, c: S.implies(S.ne(c, v.col), S.and_(
        S.eq(v.stop_price_out[i, c], v.old.stop_price_out[i, c]), S.eq(v.stop_type_out[i, c], v.old.stop_type_out[i, c])))))


def g_ohlc(rng):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 3))
    f = int(rng.integers(0, n))
    o, c = rng.integers(8, 20, (n, m)) / 2.0, rng.integers(8, 20, (n, m)) / 2.0
    h, l = np.maximum(o, c) + rng.integers(0, 5, (n, m)) / 2.0, np.minimum(o, c) - rng.integers(0, 5, (n, m)) / 2.0
    for x in (o, h, l, c):
        if rng.random() < 0.15:
            x[rng.random((n, m)) < 0.25] = math.nan
    pool = [math.nan, 0.0, 0.25, 0.5, 0.125, 0.0625] + ([-0.25] if rng.random() < 0.05 else [])
    return dict(from_i=f, to_i=int(rng.integers(f, n + 1)), col=int(rng.integers(m)), open=o, high=h, low=l, close=c,
                stop_price_out=np.full((n, m), math.nan), stop_type_out=np.full((n, m), -1), sl_stop=rng.choice(pool, (n, m)),
                sl_trail=rng.random((n, m)) < 0.5, tp_stop=rng.choice(pool, (n, m)), reverse=rng.random((n, m)) < 0.4,
                is_open_safe=bool(rng.integers(2)), wait=int(rng.integers(0, min(f, 2) + 1)), pick_first=bool(rng.integers(2)),
                temp_idx_arr=np.empty(n, dtype=np.int64), flex_2d=True)


FM = lambda: Arr_("f", "n", "m")
Contract(SG + "ohlc_stop_choice_nb", dict(
    from_i=Int(0), to_i=Int(0), col=Int(0), open=FM(), high=FM(), low=FM(), close=FM(), stop_price_out=FM(), stop_type_out=Arr_("i", "n", "m"),
    sl_stop=FM(), sl_trail=Arr_("b", "n", "m"), tp_stop=FM(), reverse=Arr_("b", "n", "m"), is_open_safe=Bool(True), wait=Int(0), pick_first=Bool(True),
    temp_idx_arr=Arr_("i", "n"), flex_2d=Const(True)),
    pre=lambda S, a: S.require(S.and_(S.le(0, a.from_i - a.wait), S.lt(a.from_i, S.len(a.open, 0)), S.le(a.to_i, S.len(a.open, 0)), S.le(0, a.col),
                                      S.lt(a.col, S.len(a.open, 1))), "range inside the array"),
    post=ohlc_post, loops={0: ohlc_inv}, modifies=("temp_idx_arr", "stop_price_out", "stop_type_out"), props="C13", gen=g_ohlc, trials=1000,
    assumed=True, merge=True, cases=[("first=%s safe=%s" % (f, o), dict(pick_first=Const(f), is_open_safe=Const(o))) for f in (True, False) for o in (True, False)],
    raises={"ValueError": lambda S, a: S.or_(S.lt(a.sl_stop[a.from_i - a.wait, a.col], 0.0), S.lt(a.tp_stop[a.from_i - a.wait, a.col], 0.0))})


# --------------------------------------------------------------------------------------- C14 n-th signal, average index
def true_count(S, x):
    return S.count(lambda k: tr(S, x[k]))


def nth_post(S, a, r):
    n = S.len(a.a)
    P = true_count(S, a.a)
    total = P(n)
    want = S.ite(S.ge(a.n, 0), a.n, total + a.n)
    S.ensure("counts before and at the result", S.implies(S.ge(r, 0), S.and_(S.le(0, P(r)), S.eq(P(r) + 1, P(r + 1)), S.le(P(r + 1), total))), "C14", lemma=True)
    S.ensure("the position of the n-th signal", S.implies(S.ge(r, 0), S.and_(
        S.lt(r, n), tr(S, a.a[r]) if S.symbolic else r < 0 or (r < n and bool(a.a[r])), S.eq(P(r), want))), "C14")
    S.ensure("minus one exactly when there is no such signal", S.and_(S.ge(r, -1), S.iff(
        S.eq(r, -1), S.or_(S.lt(want, 0), S.ge(want, total)))), "C14")


def nth_inv_up(S, v):
    P = true_count(S, v.a)
    S.ensure("found so far", S.and_(S.eq(v.found, P(v.it) - 1), S.lt(v.found, v.n)))


def nth_inv_dn(S, v):
    P = true_count(S, v.a)
    n = S.len(v.a)
    S.ensure("found so far", S.and_(S.eq(v.found, P(v.it + 1) - P(n)), S.gt(v.found, v.n)))


def g_nth(two):
    def g(rng):
        n = int(rng.integers(0, 8))
        sh = (n, int(rng.integers(1, 4))) if two else (n,)
        return dict(a=rng.random(sh) < pick(rng, 0.2, 0.5, 0.9), n=int(rng.integers(-6, 6)))
    return g


Contract(SG + "nth_index_1d_nb", dict(a=Arr_("b", "k"), n=Int(None)), post=lambda S, a, r: (mono_counts(S, a.a), nth_post(S, a, r))[1],
         loops={0: nth_inv_up, 1: nth_inv_dn}, props="C14", gen=g_nth(False), trials=600, returns=Int(None))


def mono_counts(S, x):
    """0 <= count(k) <= count(n)"""
    P = true_count(S, x)
    n = S.len(x)
    S.induct("counts grow", 0, n, lambda k: S.forall(0, k + 1, lambda j: S.and_(S.le(0, P(j)), S.le(P(j), P(k)))))


Contract(SG + "nth_index_nb", dict(a=Arr_("b", "k", "m"), n=Int(None)), props="C14", gen=g_nth(True), trials=200,
         post=lambda S, a, r: (S.ensure("length", S.eq(S.len(r), S.len(a.a, 1)), "C14"), S.each("c", 0, S.len(a.a, 1), lambda c: nth_post(
             S, NSp(a=S.col(a.a, c), n=a.n), r[c])))[0],
         loops={0: Inv(lambda S, v: S.each("c", 0, v.it, lambda c: nth_post(S, NSp(a=S.col(v.a, c), n=v.n), v.out[c])), arb="c")})


# --------------------------------------------------------------------------------------- C14 ranks
RANK = ["i", "col", "reset_i", "prev_part_end_i", "part_start_i"]


class Rank:
    """An arbitrary rank function of its five arguments."""

    def __init__(self):
        import z3
        I = z3.IntSort()
        self.f = z3.Function("rank_func", I, I, I, I, I, I)

    def sym(self, ex, args):
        return self.f(*[zi_(x) for x in args[:5]])

    def at(self, S, fn, *args):
        return self.f(*[zi_(x) for x in args]) if S.symbolic else fn(*[int(x) for x in args])


RF = Rank()


def rank_state(S, a, c):
    """fold: (reset index, end of previous partition, start of partition, inside one, False seen) before bar k"""
    rb = a.reset_by

    def step(s, k):
        reset, prev, start, inside, seen = s
        reset = reset if rb is None else S.ite(tr(S, rb[k, c]), k, reset)
        t = tr(S, a.a[k, c])
        on = S.and_(t, S.or_(S.not_(a.after_false), S.eq(seen, 1)))
        off = S.not_(t)
        return (reset, S.ite(S.and_(off, S.eq(inside, 1)), k - 1, prev), S.ite(S.and_(on, S.eq(inside, 0)), k, start),
                S.ite(on, 1, S.ite(off, 0, inside)), S.ite(off, 1, seen))
    return S.fold((0, -1, -1, 0, S.ite(a.after_false, 0, 1)), step)


def rank_at(S, a, P, out, i, c):
    t = tr(S, a.a[i, c])
    seen = P(i)[4]
    on = S.and_(t, S.or_(S.not_(a.after_false), S.eq(seen, 1)))
    reset = P(i)[0] if a.reset_by is None else S.ite(tr(S, a.reset_by[i, c]), i, P(i)[0])
    start = S.ite(S.eq(P(i)[3], 0), i, P(i)[2])
    val = RF.at(S, a.rank_func_nb, i, c, reset, P(i)[1], start)
    return S.eq(out[i, c], S.ite(on, val, -1))


def rank_core(S, a, out, c, hi):
    P = rank_state(S, a, c)
    S.ensure("rank where there is a signal, minus one elsewhere", S.forall(0, hi, lambda i: rank_at(S, a, P, out, i, c)), "C14")


def rank_inner(S, v):
    P = rank_state(S, v, v.col)
    st = P(v.it)
    S.ensure("partition state", S.and_(S.eq(v.reset_i, st[0]), S.eq(v.prev_part_end_i, st[1]), S.eq(v.part_start_i, st[2]),
                                       S.iff(v.in_partition, S.eq(st[3], 1)), S.iff(v.false_seen, S.eq(st[4], 1)),
                                       S.or_(S.eq(st[3], 0), S.eq(st[3], 1)), S.or_(S.eq(st[4], 0), S.eq(st[4], 1))))
    rank_core(S, v, v.out, v.col, v.it)
    S.ensure("not reached yet", S.forall2(0, S.len(v.a, 0), 0, S.len(v.a, 1), lambda r, c: S.implies(
        S.or_(S.gt(c, v.col), S.and_(S.eq(c, v.col), S.ge(r, v.it))), S.eq(v.out[r, c], -1))))
    S.ensure("earlier columns untouched", S.forall2(0, S.len(v.a, 0), 0, v.col, lambda r, c: S.eq(v.out[r, c], v.entry.out[r, c])))


def g_rank(rng):
    n, m = int(rng.integers(0, 8)), int(rng.integers(1, 3))
    return dict(a=rng.random((n, m)) < pick(rng, 0.4, 0.7), reset_by=None if rng.random() < 0.5 else rng.random((n, m)) < 0.3,
                after_false=bool(rng.integers(2)), rank_func_nb=lambda i, c, r, p, s: i + 10 * c + 100 * r + 1000 * p + 10000 * s)


Contract(SG + "rank_nb", dict(a=Arr_("b", "n", "m"), reset_by=Const(None), after_false=Bool(True), rank_func_nb=Func(RF.sym, None)), props="C14",
         gen=g_rank, trials=400, cases=[("no reset", {}), ("reset", dict(reset_by=Arr_("b", "n", "m")))],
         post=lambda S, a, r: S.each("c", 0, S.len(a.a, 1), lambda c: rank_core(S, a, r, c, S.len(a.a, 0))),
         loops={0: Inv(lambda S, v: (S.each("c", 0, v.it, lambda c: rank_core(S, v, v.out, c, S.len(v.a, 0))),
                                     S.ensure("not reached", S.forall2(0, S.len(v.a, 0), v.it, S.len(v.a, 1), lambda r, c: S.eq(v.out[r, c], -1))))[0], arb="c"),
                1: Inv(rank_inner)})


def max_(S, x, y):
    return S.ite(S.ge(x, y), x, y)


def g_pos(name):
    def g(rng):
        i = int(rng.integers(0, 6))
        d = dict(i=i, col=int(rng.integers(0, 2)), reset_i=int(rng.integers(0, i + 1)), prev_part_end_i=int(rng.integers(-1, max(i - 1, 0))),
                 part_start_i=int(rng.integers(0, i + 1)))
        d[name] = rng.integers(-1, 4, 2)
        if name == "sig_pos_temp":
            d["allow_gaps"] = bool(rng.integers(2))
        return d
    return g


RP = dict(i=Int(0), col=Int(0), reset_i=Int(0), prev_part_end_i=Int(-1), part_start_i=Int(0))


def first_after_reset(S, a):
    """this is the first signal since the last reset (or since the start)"""
    return S.and_(S.gt(a.reset_i, a.prev_part_end_i), S.eq(max_(S, a.reset_i, a.part_start_i), a.i))


def sig_pos(S, a):
    restart = S.or_(first_after_reset(S, a), S.and_(S.not_(a.allow_gaps), S.eq(a.part_start_i, a.i)))
    return S.ite(restart, 0, a.old.sig_pos_temp[a.col] + 1)


def part_pos(S, a):
    return S.ite(first_after_reset(S, a), 0, S.ite(S.eq(a.part_start_i, a.i), a.old.part_pos_temp[a.col] + 1, a.old.part_pos_temp[a.col]))


def pos_post(fn, temp):
    def post(S, a, r):
        w = fn(S, a)
        t, o = getattr(a, temp), getattr(a.old, temp)
        S.ensure("the next rank, or zero after a restart", S.eq(r, w), "C14")
        S.ensure("remembered for this column only", S.forall(0, S.len(t), lambda c: S.eq(t[c], S.ite(S.eq(c, a.col), w, o[c]))), "C14")
    return post


def col_in(temp):
    return lambda S, a: S.require(S.lt(a.col, S.len(getattr(a, temp))), "column inside the array")


Contract(SG + "sig_pos_rank_nb", dict(RP, sig_pos_temp=Arr_("i", "m"), allow_gaps=Bool()), pre=col_in("sig_pos_temp"),
         post=pos_post(sig_pos, "sig_pos_temp"), modifies=("sig_pos_temp",), props="C14", gen=g_pos("sig_pos_temp"))
Contract(SG + "part_pos_rank_nb", dict(RP, part_pos_temp=Arr_("i", "m")), pre=col_in("part_pos_temp"),
         post=pos_post(part_pos, "part_pos_temp"), modifies=("part_pos_temp",), props="C14", gen=g_pos("part_pos_temp"))


# --------------------------------------------------------------------------------------- C14 ranges
def no_signal(S, x, c, lo, hi):
    return S.forall(lo, hi, lambda q: S.not_(tr(S, x[q, c])))


def recs_core(S, recs, cnt, hi_col, rule, n, order=None):
    """records 0..cnt-1: numbered, in bounds, ordered, and each of them what the rule says (rule(c, start, end, status))"""
    col, st, en, ids, sts = recs["col"], recs["start_idx"], recs["end_idx"], recs["id"], recs["status"]
    S.ensure("numbered from zero", S.forall(0, cnt, lambda k: S.eq(ids[k], k)), "C14")
    S.ensure("inside the shape", S.forall(0, cnt, lambda k: S.and_(S.le(0, col[k]), S.lt(col[k], hi_col), S.le(0, st[k]), S.le(st[k], en[k]), S.lt(en[k], n))), "C14")
    S.ensure("every range follows the rule", S.forall(0, cnt, lambda k: rule(col[k], st[k], en[k], sts[k])), "C14")
    S.ensure("ordered by column, then by position", S.forall2(0, cnt, lambda k: k + 1, cnt, lambda k, j: S.or_(
        S.lt(col[k], col[j]), S.and_(S.eq(col[k], col[j]), S.lt(st[k], st[j]) if order is None else order(st[k], en[k], st[j], en[j])))), "C14")


def between_rule(S, a):
    return lambda c, s, e, t: S.and_(tr(S, a.a[s, c]), tr(S, a.a[e, c]), S.lt(s, e), no_signal(S, a.a, c, s + 1, e), S.eq(t, 1))


def found(S, recs, cnt, c, s, e):
    return S.exists(0, cnt, lambda k: S.and_(S.eq(recs["col"][k], c), S.eq(recs["start_idx"][k], s), S.eq(recs["end_idx"][k], e)))


def between_complete(S, a, recs, cnt, c, upto=None):
    n = S.len(a.a, 0)

    def one(s, e):
        cond = [S.lt(s, e), tr(S, a.a[s, c]), tr(S, a.a[e, c]), no_signal(S, a.a, c, s + 1, e)]
        if upto is not None:
            cond.append(S.le(e, upto))
        S.ensure("every pair of consecutive signals is covered", S.implies(S.and_(*cond), found(S, recs, cnt, c, s, e)), "C14")
    S.each("s", 0, n, lambda s: S.each("e", 0, n, lambda e: one(s, e)))


def between_oracle(a):
    return [(c, i, j, 1) for c in range(a.shape[1]) for s in [list(np.flatnonzero(a[:, c]))] for i, j in zip(s, s[1:])]


def as_list(r):
    return [(int(x["col"]), int(x["start_idx"]), int(x["end_idx"]), int(x["status"])) for x in r]


def ranges_contract(name, oracle, rule, complete, loops, params=None, gen=None, **k):
    def post(S, a, r):
        cnt = S.len(r) if not S.symbolic else r.shape[0]
        if not S.symbolic:
            S.ensure("exactly the ranges of the rule, in order", as_list(r) == oracle(a), "C14")
            S.ensure("numbered from zero", [int(x) for x in r["id"]] == list(range(len(r))), "C14")
            return
        recs_core(S, r, cnt, S.len(a.a, 1), rule(S, a), S.len(a.a, 0), k2.get("order") and k2["order"](S))
        S.each("c", 0, S.len(a.a, 1), lambda c: complete(S, a, r, cnt, c))
    k2 = dict(k)
    k.pop("order", None)
    Contract(SG + name, params or dict(a=Arr_("b", "n", "m")), post=post, loops=loops, props="C14", gen=gen or g_ranges, trials=400, **k)


def g_ranges(rng):
    n, m = int(rng.integers(0, 9)), int(rng.integers(1, 4))
    return dict(a=rng.random((n, m)) < pick(rng, 0.2, 0.5, 0.8))


def cap(S, v, hi):
    S.ensure("room left", S.and_(S.le(0, v.ridx), S.le(v.ridx, hi)))


def between_outer(S, v):
    n = S.len(v.a, 0)
    cap(S, v, v.it * n)
    recs_core(S, v.range_records, v.ridx, v.it, between_rule(S, v), n)
    S.each("c", 0, v.it, lambda c: between_complete(S, v, v.range_records, v.ridx, c))


def between_inner(S, v):
    n = S.len(v.a, 0)
    cap(S, v, v.col * n + v.it - 1)
    recs_core(S, v.range_records, v.ridx, v.col + 1, between_rule(S, v), n)
    S.ensure("ranges of this column start at the signals done", S.forall(0, v.ridx, lambda k: S.implies(
        S.eq(v.range_records["col"][k], v.col), S.lt(v.range_records["start_idx"][k], v.a_idxs[v.it - 1]))))
    between_complete(S, v, v.range_records, v.ridx, v.col, v.a_idxs[v.it - 1])
    S.each("c", 0, v.col, lambda c: between_complete(S, v, v.range_records, v.ridx, c))


ranges_contract("between_ranges_nb", lambda a: between_oracle(a.a), between_rule, between_complete,
                {0: Inv(between_outer, arb="c"), 1: Inv(between_inner)})


def run_start(S, x, c, s):
    return S.and_(tr(S, x[s, c]), S.or_(S.eq(s, 0), S.not_(tr(S, x[s - 1, c]))))


def all_signal(S, x, c, lo, hi):
    return S.forall(lo, hi, lambda q: tr(S, x[q, c]))


def partition_rule(S, a):
    n = S.len(a.a, 0)
    return lambda c, s, e, t: S.and_(run_start(S, a.a, c, s), all_signal(S, a.a, c, s, e), S.or_(
        S.and_(S.eq(t, 1), S.lt(s, e), S.not_(tr(S, a.a[e, c]))), S.and_(S.eq(t, 0), S.eq(e, n - 1), tr(S, a.a[e, c]))))


def partition_complete(S, a, recs, cnt, c, upto=None, pending=None):
    n = S.len(a.a, 0)

    def one(s):
        cond = [run_start(S, a.a, c, s)]
        if upto is not None:
            cond += [S.lt(s, upto), S.not_(S.and_(pending[0], S.eq(s, pending[1])))]
        S.ensure("every partition is covered", S.implies(S.and_(*cond), S.exists(0, cnt, lambda k: S.and_(
            S.eq(recs["col"][k], c), S.eq(recs["start_idx"][k], s)))), "C14")
    S.each("s", 0, n, one)


def partition_oracle(a):
    out = []
    n = a.shape[0]
    for c in range(a.shape[1]):
        i = 0
        while i < n:
            if a[i, c]:
                j = i
                while j < n and a[j, c]:
                    j += 1
                out.append((c, i, j, 1) if j < n else (c, i, n - 1, 0))
                i = j
            else:
                i += 1
    return out


def simple_outer(rule, complete):
    def inv(S, v):
        n = S.len(v.a, 0)
        cap(S, v, v.it * n)
        recs_core(S, v.range_records, v.ridx, v.it, rule(S, v), n)
        S.each("c", 0, v.it, lambda c: complete(S, v, v.range_records, v.ridx, c))
    return Inv(inv, arb="c")


def partition_inner(S, v):
    n = S.len(v.a, 0)
    R = v.range_records
    cap(S, v, v.col * n + v.it)
    recs_core(S, R, v.ridx, v.col + 1, partition_rule(S, v), n)
    inside = S.and_(v.is_partition, S.lt(v.it, n))
    S.ensure("inside a partition exactly after a signal", S.implies(S.lt(v.it, n), S.iff(v.is_partition, S.and_(
        S.gt(v.it, 0), tr(S, v.a[v.it - 1, v.col])))))
    S.ensure("the partition under way", S.implies(inside, S.and_(
        S.le(0, v.from_i), S.lt(v.from_i, v.it), run_start(S, v.a, v.col, v.from_i), all_signal(S, v.a, v.col, v.from_i, v.it))))
    S.ensure("ranges of this column lie behind", S.forall(0, v.ridx, lambda k: S.implies(S.eq(R["col"][k], v.col), S.and_(
        S.lt(R["start_idx"][k], v.it), S.implies(inside, S.lt(R["start_idx"][k], v.from_i))))))
    partition_complete(S, v, R, v.ridx, v.col, v.it, (inside, v.from_i))
    S.each("c", 0, v.col, lambda c: partition_complete(S, v, R, v.ridx, c))


ranges_contract("partition_ranges_nb", lambda a: partition_oracle(a.a), partition_rule, partition_complete,
                {0: simple_outer(partition_rule, partition_complete), 1: Inv(partition_inner)})


def gap_rule(S, a):
    return lambda c, s, e, t: S.and_(tr(S, a.a[s, c]), tr(S, a.a[e, c]), S.lt(s + 1, e), no_signal(S, a.a, c, s + 1, e), S.eq(t, 1))


def gap_complete(S, a, recs, cnt, c, upto=None):
    n = S.len(a.a, 0)

    def one(s, e):
        cond = [S.lt(s + 1, e), tr(S, a.a[s, c]), tr(S, a.a[e, c]), no_signal(S, a.a, c, s + 1, e)]
        if upto is not None:
            cond.append(S.lt(e, upto))
        S.ensure("every gap between partitions is covered", S.implies(S.and_(*cond), found(S, recs, cnt, c, s, e)), "C14")
    S.each("s", 0, n, lambda s: S.each("e", 0, n, lambda e: one(s, e)))


def gap_inner(S, v):
    n = S.len(v.a, 0)
    R = v.range_records
    cap(S, v, v.col * n + v.it)
    recs_core(S, R, v.ridx, v.col + 1, gap_rule(S, v), n)
    S.ensure("inside a partition exactly after a signal", S.iff(v.is_partition, S.and_(S.gt(v.it, 0), tr(S, v.a[v.it - 1, v.col]))))
    S.ensure("last signal so far", S.and_(S.le(-1, v.from_i), S.lt(v.from_i, v.it), S.implies(S.ge(v.from_i, 0), tr(S, v.a[v.from_i, v.col])),
                                          no_signal(S, v.a, v.col, v.from_i + 1, v.it)))
    S.ensure("ranges of this column lie behind", S.forall(0, v.ridx, lambda k: S.implies(S.eq(R["col"][k], v.col), S.lt(R["start_idx"][k], v.from_i))))
    gap_complete(S, v, R, v.ridx, v.col, v.it)
    S.each("c", 0, v.col, lambda c: gap_complete(S, v, R, v.ridx, c))


ranges_contract("between_partition_ranges_nb", lambda a: [(c, i, j, 1) for c, i, j, _ in between_oracle(a.a) if j > i + 1], gap_rule, gap_complete,
                {0: simple_outer(gap_rule, gap_complete), 1: Inv(gap_inner)})


def two_rule(S, a):
    if a.from_other:
        return lambda c, s, e, t: S.and_(tr(S, a.a[s, c]), tr(S, a.b[e, c]), S.le(s, e), no_signal(S, a.a, c, s + 1, e + 1), S.eq(t, 1))
    return lambda c, s, e, t: S.and_(tr(S, a.a[s, c]), tr(S, a.b[e, c]), S.le(s, e), no_signal(S, a.b, c, s, e), S.eq(t, 1))


def two_complete(S, a, recs, cnt, c, upto=None):
    n = S.len(a.a, 0)

    def one(s, e):
        cond = [S.le(s, e), tr(S, a.a[s, c]), tr(S, a.b[e, c]), no_signal(S, a.a, c, s + 1, e + 1) if a.from_other else no_signal(S, a.b, c, s, e)]
        if upto is not None:
            cond.append(upto(s, e))
        S.ensure("every pair of the rule is covered", S.implies(S.and_(*cond), found(S, recs, cnt, c, s, e)), "C14")
    S.each("s", 0, n, lambda s: S.each("e", 0, n, lambda e: one(s, e)))


def two_order(S, a):
    return lambda s1, e1, s2, e2: S.lt(e1, e2) if a.from_other else S.lt(s1, s2)


def two_oracle(a):
    out = []
    for c in range(a.a.shape[1]):
        A, B = list(np.flatnonzero(a.a[:, c])), list(np.flatnonzero(a.b[:, c]))
        if a.from_other:
            out += [(c, max(s for s in A if s <= e), e, 1) for e in B if any(s <= e for s in A)]
        else:
            out += [(c, s, min(e for e in B if e >= s), 1) for s in A if any(e >= s for e in B)]
    return out


def g_two(rng):
    d = g_ranges(rng)
    return dict(d, b=d["a"].copy() if rng.random() < 0.1 else rng.random(d["a"].shape) < pick(rng, 0.2, 0.5, 0.8), from_other=bool(rng.integers(2)))


def two_outer(S, v):
    n = S.len(v.a, 0)
    cap(S, v, v.it * n)
    recs_core(S, v.range_records, v.ridx, v.it, two_rule(S, v), n, two_order(S, v))
    S.each("c", 0, v.it, lambda c: two_complete(S, v, v.range_records, v.ridx, c))


def two_inner(S, v):
    n = S.len(v.a, 0)
    R = v.range_records
    main, other = (v.b_idxs, v.a_idxs) if v.from_other else (v.a_idxs, v.b_idxs)
    at_end = S.ge(v.it, S.len(main))
    cap(S, v, v.col * n + v.it)
    recs_core(S, R, v.ridx, v.col + 1, two_rule(S, v), n, two_order(S, v))
    side = "end_idx" if v.from_other else "start_idx"
    S.ensure("ranges of this column lie behind", S.forall(0, v.ridx, lambda k: S.implies(S.eq(R["col"][k], v.col), S.or_(
        at_end, S.lt(R[side][k], main[v.it])))))
    if v.from_other:
        S.ensure("position in the other mask", S.and_(S.le(0, v.a_pos), S.lt(v.a_pos, S.len(v.a_idxs)), S.or_(
            S.eq(v.a_pos, 0), at_end, S.le(v.a_idxs[v.a_pos], v.b_idxs[v.it]))))
    else:
        S.ensure("position in the other mask", S.and_(S.le(0, v.b_pos), S.le(v.b_pos, S.len(v.b_idxs)), S.forall(
            0, v.b_pos, lambda q: S.or_(at_end, S.lt(v.b_idxs[q], v.a_idxs[v.it])))))
    two_complete(S, v, R, v.ridx, v.col, lambda s, e: S.or_(at_end, S.lt(e if v.from_other else s, main[v.it])))
    S.each("c", 0, v.col, lambda c: two_complete(S, v, R, v.ridx, c))


def two_while_a(S, v):
    S.ensure("position in the other mask", S.and_(S.le(0, v.a_pos), S.lt(v.a_pos, S.len(v.a_idxs)), S.or_(
        S.eq(v.a_pos, 0), S.le(v.a_idxs[v.a_pos], v.to_i))))


def two_while_b(S, v):
    S.ensure("position in the other mask", S.and_(S.le(0, v.b_pos), S.le(v.b_pos, S.len(v.b_idxs)), S.forall(
        0, v.b_pos, lambda q: S.lt(v.b_idxs[q], v.from_i))))


def two_post(S, a, r):
    if not S.symbolic:
        S.ensure("exactly the ranges of the rule, in order", as_list(r) == two_oracle(a), "C14")
        S.ensure("numbered from zero", [int(x) for x in r["id"]] == list(range(len(r))), "C14")
        return
    recs_core(S, r, r.shape[0], S.len(a.a, 1), two_rule(S, a), S.len(a.a, 0), two_order(S, a))
    S.each("c", 0, S.len(a.a, 1), lambda c: two_complete(S, a, r, r.shape[0], c))


Contract(SG + "between_two_ranges_nb", dict(a=Arr_("b", "n", "m"), b=Arr_("b", "n", "m"), from_other=Bool(True)), post=two_post, props="C14",
         gen=g_two, trials=600, loops={0: Inv(two_outer, arb="c"), 1: Inv(two_inner), 2: two_while_a, 3: Inv(two_inner), 4: two_while_b})


# --------------------------------------------------------------------------------------- C12 alternating generation
CE, CX = Choice("entry_choice"), Choice("exit_choice")


def enex_oracle(a):
    n, m = a.shape
    en, ex = np.zeros((n, m), bool), np.zeros((n, m), bool)
    for c in range(m):
        turn, last = 0, None
        while True:
            fr = 0 if last is None else last + (a.entry_wait if turn == 0 else a.exit_wait)
            if fr >= n:
                break
            x = [int(q) for q in (a.entry_choice_func_nb if turn == 0 else a.exit_choice_func_nb)(fr, n, c)]
            if not x:
                break
            if (a.entry_pick_first if turn == 0 else a.exit_pick_first):
                x = x[:1]
            for q in x:
                (en if turn == 0 else ex)[q, c] = True
            last, turn = x[-1], 1 - turn
    return en, ex


def enex_pair(S, a, x, y, c, gap_in, gap_out, hi=None):
    """between two signals of x lies one of y, at the required distances"""
    n = a.shape[0]
    S.ensure("between two signals of one kind lies one of the other", S.forall2(0, n, lambda r: r + 1, n, lambda r, q: S.implies(
        S.and_(tr(S, x[r, c]), tr(S, x[q, c])), S.exists(0, n, lambda w: S.and_(tr(S, y[w, c]), S.le(r + gap_out, w), S.le(w + gap_in, q))))), "C12")


def enex_chosen(S, a, arr, c, ch, fn, first):
    n = a.shape[0]
    if not S.symbolic:
        return

    def by(r, fr):
        ln = ch.len(S, fn, fr, n, c)
        if first:
            return S.and_(S.le(0, fr), S.le(fr, r), S.gt(ln, 0), S.eq(r, ch.at(S, fn, fr, n, c, 0)))
        return S.and_(S.le(0, fr), S.exists(0, ln, lambda k: S.eq(r, ch.at(S, fn, fr, n, c, k))))
    S.ensure("signals only where chosen", S.forall(0, n, lambda r: S.implies(tr(S, arr[r, c]), S.exists(0, n, lambda fr: by(r, fr)))), "C12")


def enex_core(S, a, en, ex, c):
    enex_chosen(S, a, en, c, CE, a.entry_choice_func_nb, a.entry_pick_first)
    enex_chosen(S, a, ex, c, CX, a.exit_choice_func_nb, a.exit_pick_first)
    n = a.shape[0]
    if a.entry_pick_first and a.exit_pick_first:
        enex_pair(S, a, en, ex, c, a.entry_wait, a.exit_wait)
        enex_pair(S, a, ex, en, c, a.exit_wait, a.entry_wait)
        S.ensure("an entry comes first", S.forall(0, n, lambda r: S.implies(tr(S, ex[r, c]), S.exists(0, n, lambda q: S.and_(
            tr(S, en[q, c]), S.le(q + a.exit_wait, r))))), "C12")


def enex_post(S, a, r):
    if not S.symbolic:
        we, wx = enex_oracle(a)
        S.ensure("exactly the alternating choices", bool((we == r[0]).all() and (wx == r[1]).all()), "C12")
    S.each("c", 0, a.shape[1], lambda c: enex_core(S, a, r[0], r[1], c))


def enex_raises(S, a):
    if S.symbolic:
        return True
    if a.entry_wait == 0 and a.exit_wait == 0:
        return True
    return bool(a.entry_choice_func_nb.bad or a.exit_choice_func_nb.bad)


def enex_inner(S, v):
    n = v.shape[0]
    c = v.col
    enex_core(S, v, v.entries, v.exits, c)
    mine = lambda arr, q: S.and_(S.le(0, q), S.lt(q, n), tr(S, arr[q, c]))
    S.ensure("turn", S.and_(S.ge(v.i, 0), S.le(-1, v.prev_i), S.lt(v.prev_i, n), S.iff(S.eq(v.i, 0), S.eq(v.prev_i, -1))))
    odd = S.ne(v.i % 2, 0)
    S.ensure("last signal placed", S.and_(
        S.implies(S.eq(v.i, 0), S.forall(0, n, lambda r: S.not_(S.or_(tr(S, v.entries[r, c]), tr(S, v.exits[r, c]))))),
        S.implies(S.gt(v.i, 0), S.ite(odd, mine(v.entries, v.prev_i), mine(v.exits, v.prev_i))),
        S.implies(S.gt(v.i, 0), S.exists(0, n, lambda q: tr(S, v.entries[q, c])))))
    if v.entry_pick_first and v.exit_pick_first:
        S.ensure("all signals lie behind", S.forall(0, n, lambda r: S.and_(
            S.implies(tr(S, v.entries[r, c]), S.le(r + S.ite(odd, 0, v.exit_wait), v.prev_i)),
            S.implies(tr(S, v.exits[r, c]), S.le(r + S.ite(odd, v.entry_wait, 0), v.prev_i)))))
        S.ensure("the first signal is an entry", S.implies(S.and_(S.gt(v.i, 0), S.not_(odd)), S.exists(0, n, lambda q: S.and_(
            tr(S, v.entries[q, c]), S.le(q + v.exit_wait, v.prev_i)))))
    for nm, arr in (("entries", v.entries), ("exits", v.exits)):
        S.ensure("other columns untouched", S.forall2(0, n, 0, v.shape[1], lambda r, k: S.implies(S.ne(k, c), S.eq(arr[r, k], getattr(v.entry, nm)[r, k]))))


def in_order(S, ch, fn):
    """the choice function returns its indices in order (what it returned is checked on every concrete run)"""
    if not S.symbolic:
        return
    import z3
    fr, to, c, k, j = z3.Ints("?fr ?to ?c ?k ?j")
    x, y = ch.f(fr, to, c, k), ch.f(fr, to, c, j)
    S.require("chosen indices are in order", z3.ForAll([fr, to, c, k, j], z3.Implies(z3.And(0 <= k, k <= j, j < ch.n(fr, to, c)), x <= y),
                                                       patterns=[z3.MultiPattern(x, y)]))


def g_enex(rng):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 3))

    def ch():
        f0 = g_choice(rng, out=0.0)

        def f(*a):
            return f0(*a)
        f.bad = False
        return f
    ew, xw = pick(rng, (1, 1), (0, 1), (1, 0), (2, 1), (1, 2), (0, 0))
    if ew == 0 or xw == 0:
        pass
    return dict(shape=(n, m), entry_wait=ew, exit_wait=xw, entry_pick_first=bool(rng.integers(2)), exit_pick_first=bool(rng.integers(2)),
                entry_choice_func_nb=ch(), entry_args=(), exit_choice_func_nb=ch(), exit_args=())


Contract(SG + "generate_enex_nb", dict(shape=Tup(Dim("n"), Dim("m")), entry_wait=Int(0), exit_wait=Int(0), entry_pick_first=Bool(True),
                                       exit_pick_first=Bool(True), entry_choice_func_nb=Func(CE.sym, None), entry_args=Const(()),
                                       exit_choice_func_nb=Func(CX.sym, None), exit_args=Const(())),
         pre=lambda S, a: (in_order(S, CE, a.entry_choice_func_nb), in_order(S, CX, a.exit_choice_func_nb))[0],
         raises={"ValueError": enex_raises}, post=enex_post, props="C12", gen=g_enex, trials=800,
         loops={0: Inv(lambda S, v: (S.each("c", 0, v.it, lambda c: enex_core(S, v, v.entries, v.exits, c)), S.ensure("not reached", S.forall2(
             0, v.shape[0], v.it, v.shape[1], lambda r, c: S.not_(S.or_(tr(S, v.entries[r, c]), tr(S, v.exits[r, c]))))))[0], arb="c"),
                1: Inv(enex_inner)})

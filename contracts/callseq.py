"""C08: ordering of a group's columns from inside a simulation (sort_call_seq_out_nb)."""
from .simulate import *
from vectorbt.portfolio.enums import SegmentContext


class Ctx(NTS):
    """A context of which only the given fields are read (any other use of it stops the generation)."""

    def make(self, ex, name):
        return NT(self.cls.__name__, {k: self.fields[k].make(ex, name + "." + k) if k in self.fields else None for k in self.cls._fields})


def elem(S, a, name, k):
    """The element of column from_col + k: of the broadcast argument, or of an array with one element per column of the group."""
    x = getattr(a, name)
    return S.ite(a.ctx_select, x[a.ctx.i, a.ctx.from_col + k], x[k, 0])


def seg_pre(S, a):
    c = a.ctx
    S.require(S.and_(S.le(0, c.from_col), S.lt(c.from_col, c.to_col), S.le(c.to_col, S.len(c.last_position))), "columns of the group")
    S.require(S.and_(S.le(0, c.group), S.lt(c.group, S.len(c.last_cash))), "group")
    n = c.to_col - c.from_col
    S.require(S.and_(S.eq(S.len(a.order_value_out), n), S.eq(S.len(a.call_seq_out), n)), "one place per column of the group")
    if S.symbolic:
        x = a.size
        S.require(S.and_(S.le(0, c.i), S.lt(c.i, x.shape[0]), S.eq(x.shape[1], S.len(c.last_position))), "inside the shape")
        S.require(S.or_(a.ctx_select, S.ge(x.shape[0], n)), "inside the shape")


def seg_value(S, c):
    t = S.sum(lambda k: S.ite(S.eq(c.last_position[c.from_col + k], 0.0), S.f(0.0),
                              S.f(c.last_position[c.from_col + k]) * c.last_val_price[c.from_col + k]))
    return S.f(c.last_cash[c.group]) + t(c.to_col - c.from_col)


def at_seg_approx(S, v, a, r):
    c, o = v.ctx, NS_(dict(ctx=v.ctx, ctx_select=v.ctx_select, size=v.old.size, size_type=v.old.size_type, direction=v.old.direction))
    for f in ("size", "size_type", "direction"):
        S.ensure("values the column's " + f, S.eq(getattr(a, f), elem(S, o, f, v.k)), "C08")
    S.ensure("on the cash of the group", S.and_(S.eq(a.cash_now, c.last_cash[c.group]), S.eq(a.free_cash_now, c.last_free_cash[c.group])), "C08")
    S.ensure("on the column's position", S.eq(a.position_now, c.last_position[c.from_col + v.k]), "C08")
    S.ensure("at its valuation price", S.eq(a.val_price_now, c.last_val_price[c.from_col + v.k]), "C08")
    S.ensure("on the value of the group", S.eq(a.value_now, seg_value(S, c)), "C08")
    return dict(gh_approx=S.ite(S.eq(v.k, S.arb("j")), S.f(r), v.gh_approx))


def seg_inv(S, v):
    S.each("j", 0, v.it, lambda j: S.ensure("order values", S.eq(v.order_value_out[j], v.gh_approx)))
    S.ensure("default order so far", S.forall(0, v.it, lambda k: S.eq(v.call_seq_out[k], k)))


def at_seg_sort(S, v, a, r):
    n = v.ctx.to_col - v.ctx.from_col
    S.ensure("the group's orders", S.and_(S.eq(S.len(a.A), n), S.eq(S.len(a.I), n)), "C08")
    S.each("j", 0, n, lambda j: S.ensure("sorted by order value", S.eq(a.A[j], v.gh_approx), "C08"))


def seg_refused(S, a):
    n = a.ctx.to_col - a.ctx.from_col
    return S.or_(S.not_(a.ctx.cash_sharing), S.exists(0, n, lambda k: S.not_(S.eq(a.call_seq_out[k], k))))


def g_seg(rng):
    m = int(rng.integers(1, 6))
    f, n = int(rng.integers(0, m)), int(rng.integers(1, 4))
    t = int(rng.integers(f + 1, m + 1))
    sel = bool(rng.integers(2))
    rows = n if sel else t - f
    mk = lambda *v, dtype=float: np.array([[pick(rng, *v) for _ in range(m)] for _ in range(rows)], dtype=dtype)
    if not sel:
        mk = lambda *v, dtype=float: np.array([pick(rng, *v) for _ in range(rows)], dtype=dtype)
    fields = {k: None for k in SegmentContext._fields}
    fields.update(cash_sharing=rng.random() < 0.9, from_col=f, to_col=t, group=int(rng.integers(2)), i=int(rng.integers(n)), flex_2d=True,
                  last_cash=np.array([50.0, 100.0]), last_free_cash=np.array([40.0, 100.0]), group_len=t - f,
                  last_position=np.array([pick(rng, 0.0, 1.0, -2.0) for _ in range(m)]), last_val_price=np.array([pick(rng, 1.0, 2.0) for _ in range(m)]))
    seq = np.arange(t - f)
    if rng.random() < 0.1:
        seq = seq[::-1].copy()
    return dict(ctx=SegmentContext(**fields), size=mk(1.0, -1.0, 0.5, 3.0), size_type=mk(0, 1, 2, 5, dtype=int), direction=mk(0, 1, 2, dtype=int),
                order_value_out=np.zeros(t - f), call_seq_out=seq, ctx_select=sel)


CTX = Ctx(SegmentContext, cash_sharing=Bool(), from_col=Int(0), to_col=Int(0), group=Int(0), i=Int(0), flex_2d=Bool(), last_cash=Arr_("f", "g"),
          last_free_cash=Arr_("f", "g"), last_position=Arr_("f", "m"), last_val_price=Arr_("f", "m"))


def seg_flex_use(ex, a):
    """Selected by bar and column of the context, or by the place in the group."""
    return flex_use(ex, a)


def seg_post(S, a, r):
    """In ascending order of the approximate order value (stated on the sorted values, which move with the sequence)."""
    v, q = a.order_value_out, a.call_seq_out
    n = S.len(v)
    if S.symbolic:
        return
    S.ensure("every column once", sorted(q.tolist()) == list(range(n)), "C08")


Contract(NB + "sort_call_seq_out_nb",
         dict(ctx=CTX, size=Flex(inf=True), size_type=Flex("i"), direction=Flex("i"), order_value_out=Arr_("f", "k"), call_seq_out=Arr_("i", "k"),
              ctx_select=Bool()),
         pre=seg_pre, post=seg_post, merge=True, deep=False, modifies=("order_value_out", "call_seq_out"),
         use=dict(insert_argsort_nb=argsort_use, flex_select_auto_nb=seg_flex_use, approx_order_value_nb=arbitrary(REAL)),
         ghosts=lambda S, a: dict(gh_approx=S.f(0.0)),
         at_call=dict(approx_order_value_nb=at_seg_approx, insert_argsort_nb=at_seg_sort),
         loops={0: seg_inv}, raises={"ValueError": seg_refused}, props="C08", gen=g_seg, trials=300, cost=20)

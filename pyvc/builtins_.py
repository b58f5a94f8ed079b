"""Semantics of the Python and NumPy operations that the kernels use."""
import math
import builtins
import z3
import numpy as np

from .values import *
from . import values as V

TABLE = {}


def reg(*fs):
    def d(h):
        for f in fs:
            TABLE[id(f)] = (f, h)
        return h
    return d


def lookup(f):
    try:
        x = TABLE.get(id(f))
    except TypeError:
        return None
    return x[1] if x is not None and x[0] is f else None


def _ew(ex, fn, x, dtype=None):
    if isinstance(x, Arr):
        return ex.elementwise(fn, x, dtype=dtype)
    return fn(x)


@reg(np.isnan, math.isnan)
def _isnan(ex, x):
    return _ew(ex, lambda v: tof(v).nan if isinstance(v, F) else False, x, "b")


@reg(np.isinf, math.isinf)
def _isinf(ex, x):
    return _ew(ex, lambda v: tof(v).inf if isinstance(v, F) else False, x, "b")


@reg(np.isfinite, math.isfinite)
def _isfinite(ex, x):
    return _ew(ex, lambda v: b_and(b_not(v.nan), b_not(v.inf)) if isinstance(v, F) else True, x, "b")


@reg(np.abs, np.absolute, abs, np.fabs)
def _abs(ex, x):
    def f(v):
        if isinstance(v, F):
            return fabs_(v)
        if is_z3(v):
            return z3.If(zi(v) >= 0, zi(v), -zi(v))
        return builtins.abs(v)
    return _ew(ex, f, x)


def _minmax(ex, args, less):
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
        args = args[0]
    if len(args) == 1:
        raise Unsupported("min/max of an array")
    acc = args[0]
    for v in args[1:]:
        # Python: keep the accumulator unless the new value is strictly better
        if isinstance(acc, F) or isinstance(v, F):
            a, b = tof(acc), tof(v)
            c = flt(b, a) if less else flt(a, b)
        else:
            a, b = acc, v
            c = ilt(b, a) if less else ilt(a, b)
        if ex.p.bound:
            acc = ite(c, b, a)
        else:
            acc = b if ex.p.branch(c) else a
    return acc


@reg(min)
def _min(ex, *args):
    return _minmax(ex, args, True)


@reg(max)
def _max(ex, *args):
    return _minmax(ex, args, False)


@reg(np.minimum, np.fmin)
def _npmin(ex, a, b):
    def f(x, y):
        if isinstance(x, F) or isinstance(y, F):
            x, y = tof(x), tof(y)
            r = ite(flt(y, x), y, x)
            nan = b_or(x.nan, y.nan)
            return F(r.r, nan, r.inf)
        return ite(ilt(y, x), y, x)
    if isinstance(a, Arr) or isinstance(b, Arr):
        return ex.elementwise(f, a, b)
    return f(a, b)


@reg(np.maximum, np.fmax)
def _npmax(ex, a, b):
    def f(x, y):
        if isinstance(x, F) or isinstance(y, F):
            x, y = tof(x), tof(y)
            r = ite(flt(x, y), y, x)
            return F(r.r, b_or(x.nan, y.nan), r.inf)
        return ite(ilt(x, y), y, x)
    if isinstance(a, Arr) or isinstance(b, Arr):
        return ex.elementwise(f, a, b)
    return f(a, b)


@reg(np.sign)
def _sign(ex, x):
    def f(v):
        if isinstance(v, F):
            v = settle(v)
            if not is_z3(v.nan) and v.nan:
                return NAN
            if not is_z3(v.r):
                return F(Fraction((v.r > 0) - (v.r < 0)), v.nan)
            if not ex.p.bound and not is_z3(v.nan):
                return F(Fraction(V._sign_split(v)))
            return F(z3.If(v.r > 0, z3.RealVal(1), z3.If(v.r < 0, z3.RealVal(-1), z3.RealVal(0))), v.nan)
        if is_z3(v):
            return z3.If(zi(v) > 0, z3.IntVal(1), z3.If(zi(v) < 0, z3.IntVal(-1), z3.IntVal(0)))
        return (v > 0) - (v < 0)
    return _ew(ex, f, x)


@reg(np.sqrt, math.sqrt)
def _sqrt(ex, x):
    return _ew(ex, lambda v: ex.sqrt(tof(v)), x, "f")


@reg(np.floor, math.floor)
def _floor(ex, x):
    v = settle(tof(x))
    if v.inf or (not is_z3(v.nan) and v.nan):
        return v
    if not is_z3(v.r):
        return F(Fraction(math.floor(v.r)), v.nan)
    return F(z3.ToReal(z3.ToInt(v.r)), v.nan)


@reg(np.log, np.exp, np.log1p)
def _log(ex, x):
    raise Unsupported("log/exp")


for _n in ("log", "exp", "log1p"):
    def _h(ex, x, _n=_n):
        return _ew(ex, lambda v: ex.uf(_n, v), x, "f")
    reg(getattr(np, _n))(_h)


@reg(np.power)
def _power(ex, a, b):
    return ex.power(tof(a), b if is_int(b) else tof(b))


@reg(len)
def _len(ex, x):
    return ex.length(x)


@reg(int, np.int64, np.int_, np.intp)
def _int(ex, x):
    if isinstance(x, F):
        x = settle(x)
        if not is_z3(x.r) and x.const() and not x.nan and not x.inf:
            return int(x.r)
        if is_z3(x.r) and z3.is_to_real(x.r):
            return x.r.arg(0)
        # truncation toward zero
        t = z3.ToInt(x.r)
        return z3.If(x.r >= 0, t, z3.If(z3.ToReal(t) == x.r, t, t + 1))
    return zi(x) if is_z3(x) else int(x)


@reg(float, np.float64)
def _float(ex, x):
    return tof(x)


@reg(bool, np.bool_)
def _bool(ex, x):
    return ex.truth_z(x)


@reg(hash)
def _hash(ex, x):
    return HashV(x if isinstance(x, tuple) else (x,))


@reg(dict)
def _dict(ex):
    return DictV(len(ex.p.loops))


@reg(tuple)
def _tuple(ex, x):
    return tuple(x)


@reg(isinstance)
def _isinstance(ex, x, cls):
    m = getattr(cls, "__module__", "")
    if m.startswith("numba.") and (isinstance(x, (Arr, RecArr, F, int, bool)) or is_z3(x)):
        return False        # values, never the types of the compiler
    raise Unsupported("isinstance")


@reg(np.promote_types)
def _promote(ex, a, b):
    ks = {_dt(ex, a), _dt(ex, b)}
    return DT("f" if "f" in ks else "i" if "i" in ks else "b")


def _dt(ex, dtype, default="f"):
    if dtype is None:
        return default
    if isinstance(dtype, DT):
        return dtype.k
    if isinstance(dtype, np.dtype) and dtype.names:
        return dtype
    d = np.dtype(dtype)
    return {"f": "f", "i": "i", "b": "b", "u": "i"}[d.kind]


def _shape(ex, shape):
    if isinstance(shape, (tuple, list)):
        return tuple(shape)
    return (shape,)


def alloc(ex, tag, dtype, shape, get=None):
    p = ex.p
    nm = p.fresh_name("alloc." + tag)
    inf = "alloc." + tag in ex.eng.inf_tags
    if isinstance(dtype, np.dtype):
        fields = {}
        for k in dtype.names:
            dt = {"f": "f", "i": "i", "b": "b", "u": "i"}[dtype.fields[k][0].kind]
            st = ex.eng.new_store(p, nm, dt, len(shape), fresh_get(nm + "." + k, dt, len(shape), True, False),
                                  key=nm + "." + k)
            fields[k] = Arr(st, shape)
        return RecArr(fields, shape)
    st = ex.eng.new_store(p, nm, dtype, len(shape), get or fresh_get(nm, dtype, len(shape), dtype == "f", inf),
                         inf_ok=inf, key=nm)
    return Arr(st, shape)


@reg(np.empty)
def _empty(ex, shape, dtype=None, order=None):
    return alloc(ex, "empty", _dt(ex, dtype), _shape(ex, shape))


def _filled(ex, tag, shape, v, dtype):
    if isinstance(v, Arr) and v.ndim == 0:
        v = v.at()
    if dtype is None:
        dtype = "f" if isinstance(v, F) else "b" if is_boolv(v) else "i"
    if dtype == "f":
        v = tof(v)
    elif dtype == "i":
        v = int(v.r) if isinstance(v, F) else zi(v) if is_z3(v) else int(v)
    else:
        v = ex.truth_z(v)
    a = alloc(ex, tag, dtype, shape, lambda idx: v)
    if dtype == "f" and (is_z3(v.inf) or v.inf):
        a.store.inf_ok = True
    return a


@reg(np.full)
def _full(ex, shape, fill_value=None, dtype=None):
    return _filled(ex, "full", _shape(ex, shape), fill_value, _dt(ex, dtype, None))


@reg(np.zeros)
def _zeros(ex, shape, dtype=None):
    return _filled(ex, "zeros", _shape(ex, shape), ZERO, _dt(ex, dtype))


@reg(np.ones)
def _ones(ex, shape, dtype=None):
    return _filled(ex, "ones", _shape(ex, shape), F(Fraction(1)), _dt(ex, dtype))


@reg(np.empty_like)
def _empty_like(ex, a, dtype=None):
    if isinstance(a, RecArr):
        dims = {k: alloc(ex, "empty_like." + k, v.dtype, a.shape) for k, v in a.fields.items()}
        return RecArr(dims, a.shape)
    return alloc(ex, "empty_like", _dt(ex, dtype, a.dtype), a.shape)


@reg(np.full_like)
def _full_like(ex, a, fill_value, dtype=None):
    return _filled(ex, "full_like", a.shape, fill_value, _dt(ex, dtype, a.dtype))


@reg(np.zeros_like)
def _zeros_like(ex, a, dtype=None):
    return _filled(ex, "zeros_like", a.shape, 0, _dt(ex, dtype, a.dtype))


@reg(np.asarray, np.array, np.ascontiguousarray)
def _asarray(ex, a, dtype=None):
    if isinstance(a, (Arr, RecArr)):
        return a
    if isinstance(a, (tuple, list)):
        raise Unsupported("np.asarray of a list")
    return _filled(ex, "asarray", (), a, _dt(ex, dtype, None))


@reg(np.copy)
def _copy(ex, a):
    return method(ex, a, "copy", [], {})


@reg(np.arange)
def _arange(ex, *args):
    if len(args) == 1:
        lo, hi = 0, args[0]
    elif len(args) == 2:
        lo, hi = args
    else:
        raise Unsupported("arange step")
    n = isub(hi, lo)
    if ex.p.branch(ilt(n, 0)):
        n = 0
    return alloc(ex, "arange", "i", (n,), lambda idx: iadd(lo, idx[0]))


def _flat1(ex, a):
    if isinstance(a, Arr) and a.ndim == 1:
        return a.snapshot()
    raise Unsupported("reduction over %r" % (a,))


def over(ex, a, init, f):
    """Left fold of f(s, x) over the elements of a 1-dim array or of a selection a[mask]."""
    from .engine import MaskSel
    if isinstance(a, MaskSel):
        base, mask = a.a, a.mask
        if base.ndim != 1:
            raise Unsupported("reduction over a selection")
        return ex.eng.make_rec(ex.p, init, lambda s, k: V.ite(mask.at(k), f(s, base.at(k)), s), 0)(base.shape[0])
    a = _flat1(ex, a)
    return ex.eng.make_rec(ex.p, init, lambda s, k: f(s, a.at(k)), 0)(a.shape[0])


def arr_sum(ex, a):
    if a.dtype == "f":
        return over(ex, a, ZERO, fadd)
    return over(ex, a, 0, lambda s, x: iadd(s, zi(x)))


@reg(np.sum)
def _sum(ex, a, axis=None):
    if axis is not None:
        if not (isinstance(a, Arr) and a.ndim == 2 and a.dtype == "f" and axis in (0, 1)):
            raise Unsupported("axis")
        a = a.snapshot()

        def one(idx):
            at = (lambda k: a.at(idx[0], k)) if axis == 1 else (lambda k: a.at(k, idx[0]))
            return ex.eng.make_rec(ex.p, ZERO, lambda s, k: fadd(s, at(k)), 0)(a.shape[axis])
        return alloc(ex, "sum", "f", (a.shape[1 - axis],), one)
    return arr_sum(ex, a)


@reg(np.mean)
def _mean(ex, a):
    s = arr_sum(ex, a)
    n = a.shape[0]
    if ex.p.branch(ieq(n, 0)):
        return NAN
    return fdiv(tof(s), tof(n))


@reg(np.prod)
def _prod(ex, a):
    return over(ex, a, F(Fraction(1)), fmul)


@reg(np.any)
def _any(ex, a):
    a = _flat1(ex, a)
    S = ex.eng.spec("assume", ex.p, "")
    r = z3.Bool(ex.p.fresh_name("any"))
    w = z3.Int(ex.p.fresh_name("any.w"))
    n = a.shape[0]
    ex.p.assume(z3.Implies(r, zb(b_and(ile(0, w), ilt(w, n), a.at(w)))))
    ex.p.assume(b_or(r, S.forall(0, n, lambda k: b_not(a.at(k)))))
    return r


@reg(np.all)
def _all(ex, a):
    a = _flat1(ex, a)
    return b_not(_any(ex, ex.elementwise(b_not, a, dtype="b")))


def _cum(ex, a, op, init):
    a = _flat1(ex, a)
    P = ex.eng.make_rec(ex.p, init, op(a), 0)
    dt = "f" if a.dtype == "f" else "i"
    st = ex.eng.new_store(ex.p, "cum", dt, 1, lambda idx: P(iadd(idx[0], 1)))
    return Arr(st, a.shape)


@reg(np.cumsum)
def _cumsum(ex, a):
    if a.dtype == "f":
        return _cum(ex, a, lambda a: (lambda s, k: fadd(s, a.at(k))), ZERO)
    return _cum(ex, a, lambda a: (lambda s, k: iadd(s, zi(a.at(k)))), 0)


def _nan_as(ex, a, v):
    return ex.elementwise(lambda x: V.nan_to(x, v), a) if a.dtype == "f" else a


@reg(np.nancumsum)
def _nancumsum(ex, a):
    return _cumsum(ex, _nan_as(ex, a, 0))


@reg(np.cumprod)
def _cumprod(ex, a):
    if a.dtype == "f":
        return _cum(ex, a, lambda a: (lambda s, k: fmul(s, a.at(k))), F(Fraction(1)))
    return _cum(ex, a, lambda a: (lambda s, k: imul(s, zi(a.at(k)))), 1)


@reg(np.nancumprod)
def _nancumprod(ex, a):
    return _cumprod(ex, _nan_as(ex, a, 1))


@reg(np.nanprod)
def _nanprod(ex, a):
    return over(ex, a, F(Fraction(1)), lambda s, x: fmul(s, V.nan_to(x, 1)))


@reg(np.count_nonzero)
def _count_nonzero(ex, a):
    a = _flat1(ex, a)
    if a.dtype != "b":
        raise Unsupported("count_nonzero")
    return ex.eng.make_rec(ex.p, 0, lambda s, k: iadd(s, zi(zb(a.at(k)))), 0)(a.shape[0])


@reg(np.flatnonzero)
def _flatnonzero(ex, a):
    """Positions of the True values: increasing, each of them True, and every True position among them."""
    a = _flat1(ex, a)
    if a.dtype == "f":
        raise Unsupported("flatnonzero of floats")
    if a.dtype == "i":
        s = a.snapshot()
        a = Arr(ex.eng.new_store(ex.p, "nonzero", "b", 1, lambda idx: b_not(ieq(s.at(*idx), 0))), s.shape)
    p = ex.p
    n = a.shape[0]
    P = ex.eng.make_rec(p, 0, lambda s, k: iadd(s, zi(a.at(k))), 0)      # True values before k
    L = P(n)
    nm = p.fresh_name("nz")
    fz = z3.Function(nm, z3.IntSort(), z3.IntSort())
    rk = z3.Function(nm + ".rk", z3.IntSort(), z3.IntSort())
    k, j = z3.Ints("?nzk ?nzj")
    p.bound += 1
    try:
        at = zb(a.at(fz(k)))
        atk = zb(a.at(k))
    finally:
        p.bound -= 1
    inr = zb(b_and(ile(0, k), ilt(k, L)))
    p.assume(zb(ile(0, L)))
    p.assume(zb(ile(L, n)))
    p.assume(z3.ForAll([k], z3.Implies(inr, z3.And(zb(ile(0, fz(k))), zb(ilt(fz(k), n)), at, rk(fz(k)) == k)), patterns=[fz(k)]))
    p.assume(z3.ForAll([k, j], z3.Implies(z3.And(inr, zb(b_and(ile(0, j), ilt(j, k)))), fz(j) < fz(k)), patterns=[z3.MultiPattern(fz(k), fz(j))]))
    body = z3.Implies(z3.And(zb(b_and(ile(0, k), ilt(k, n))), atk), z3.And(0 <= rk(k), zb(ilt(rk(k), L)), fz(rk(k)) == k))
    from .spec import infer_patterns
    pats = (infer_patterns(body.arg(0), [k]) or [])[:4] + [rk(k)]
    p.assume(z3.ForAll([k], body, patterns=pats))
    st = ex.eng.new_store(p, "nz", "i", 1, lambda idx: fz(zi(idx[0])))
    return Arr(st, (L,))


@reg(np.random.uniform, np.random.random)
def _uniform(ex, lo=0, hi=1):
    """A fresh real in [lo, hi)."""
    v = z3.Real(ex.p.fresh_name("uniform"))
    ex.p.assume(z3.And(v >= zr(tof(lo).r), v < zr(tof(hi).r)))
    return F(v)


@reg(print)
def _print(ex, *a):
    return None


def _extreme(ex, a, less, skipnan, arg=False):
    """min/max (index) of a 1-D array: characterised, non-empty required."""
    a = _flat1(ex, a)
    n = a.shape[0]
    if ex.p.branch(ieq(n, 0)):
        raise RaiseExc_("ValueError")
    S = ex.eng.spec("assume", ex.p, "")
    w = z3.Int(ex.p.fresh_name("ext.w"))
    ex.p.results.setdefault("extreme at", []).append(w)
    v = a.at(w)
    ex.p.assume(zb(b_and(ile(0, w), ilt(w, n))))
    if a.dtype != "f":
        ex.p.assume(S.forall(0, n, lambda k: S.le(v, a.at(k)) if less else S.ge(v, a.at(k))))
        ex.p.assume(S.forall(0, w, lambda k: S.lt(v, a.at(k)) if less else S.gt(v, a.at(k))))
        return w if arg else v
    if skipnan:
        ex.p.assume(b_or(b_not(v.nan), S.forall(0, n, lambda k: a.at(k).nan)))
        ex.p.assume(S.forall(0, n, lambda k: b_or(a.at(k).nan, v.nan, S.le(v, a.at(k)) if less else S.ge(v, a.at(k)))))
        ex.p.assume(S.forall(0, w, lambda k: b_or(a.at(k).nan, S.lt(v, a.at(k)) if less else S.gt(v, a.at(k)))))
    else:
        ex.p.assume(b_or(v.nan, S.forall(0, n, lambda k: b_and(b_not(a.at(k).nan),
                                                              S.le(v, a.at(k)) if less else S.ge(v, a.at(k))))))
        ex.p.assume(S.forall(0, w, lambda k: b_or(v.nan, S.lt(v, a.at(k)) if less else S.gt(v, a.at(k)))))
        ex.p.assume(S.forall(0, w, lambda k: b_not(a.at(k).nan)))
    return w if arg else v


def RaiseExc_(n):
    from .engine import RaiseExc
    return RaiseExc(n, implicit=True)


@reg(np.min)
def _amin(ex, a):
    return _extreme(ex, a, True, False)


@reg(np.max)
def _amax(ex, a):
    return _extreme(ex, a, False, False)


@reg(np.nanmin)
def _nanmin(ex, a):
    return _extreme(ex, a, True, True)


@reg(np.nanmax)
def _nanmax(ex, a):
    return _extreme(ex, a, False, True)


@reg(np.argmin)
def _argmin(ex, a):
    return _extreme(ex, a, True, False, True)


@reg(np.argmax)
def _argmax(ex, a):
    return _extreme(ex, a, False, False, True)


def nansum_(ex, a):
    return over(ex, a, ZERO, lambda s, x: fadd(s, V.nan_to(x, 0)))


def nancnt_(ex, a):
    return over(ex, a, 0, lambda s, x: iadd(s, zi(zb(b_not(x.nan)))))


@reg(np.nansum)
def _nansum(ex, a):
    return nansum_(ex, a)


@reg(np.nanmean)
def _nanmean(ex, a):
    c = nancnt_(ex, a)
    if ex.p.branch(ieq(c, 0)):
        return NAN
    return fdiv(nansum_(ex, a), tof(c))


@reg(np.nanvar)
def _nanvar(ex, a):
    """Mean squared distance of the valid values from their mean."""
    c = nancnt_(ex, a)
    if ex.p.branch(ieq(c, 0)):
        return NAN
    m = fdiv(nansum_(ex, a), tof(c))

    def step(s, x):
        d = V.nan_to(fsub(x, m), 0)
        return fadd(s, fmul(d, d))
    return fdiv(over(ex, a, ZERO, step), tof(c))


@reg(np.where)
def _where(ex, c, x, y):
    return ex.elementwise(lambda t, u, v: V.ite(t, u, v), c, x, y)


def method(ex, b, name, args, kw):
    if isinstance(b, NT):
        if name == "_replace":
            f = dict(b.f)
            for k, v in kw.items():
                if k not in f:
                    raise Unsupported("_replace field")
                f[k] = v
            return NT(b.cls, f)
    if isinstance(b, Arr):
        if name == "astype":
            dt = _dt(ex, args[0])
            s = b.snapshot()
            if dt == b.dtype:
                fn = lambda x: x
            elif dt == "f":
                fn = tof
            elif dt == "i" and b.dtype == "b":
                fn = zi
            elif dt == "b":
                fn = ex.truth_z
            else:
                raise Unsupported("astype")
            st = ex.eng.new_store(ex.p, "astype", dt, b.ndim, lambda idx: fn(s.at(*idx)), inf_ok=b.store.inf_ok)
            return Arr(st, b.shape)
        if name == "copy":
            s = b.snapshot()
            st = ex.eng.new_store(ex.p, "copy", b.dtype, b.ndim, lambda idx: s.at(*idx), inf_ok=b.store.inf_ok or "st.copy" in ex.eng.inf_tags)
            return Arr(st, b.shape)
        if name == "extend" and b.ndim == 1:
            s, o = b.snapshot(), args[0].snapshot()
            n = s.shape[0]
            b.store = ex.eng.new_store(ex.p, "list", b.dtype, 1, lambda idx: ite(ilt(idx[0], n), s.at(idx[0]), o.at(isub(idx[0], n))))
            b.shape, b.dims = (iadd(n, o.shape[0]),), (("dim", 0, 0, 1),)
            return None
        if name == "item":
            if b.ndim == 0:
                return b.at()
        if name == "sum":
            return arr_sum(ex, b)
        if name == "mean":
            return _mean(ex, b)
        if name == "any":
            return _any(ex, b)
        if name == "all":
            return _all(ex, b)
        if name == "min":
            return _amin(ex, b)
        if name == "max":
            return _amax(ex, b)
        if name == "cumsum":
            return _cumsum(ex, b)
        if name == "fill":
            ex.assign_view(b, args[0])
            return None
    if isinstance(b, RecArr) and name == "copy":
        fields = {k: method(ex, v, "copy", [], {}) for k, v in b.fields.items()}
        return RecArr(fields, b.shape)
    raise Unsupported("method %s" % name)


def abstract_reduction(ex, name, a, *args):
    """A library reduction without a definition here: the same value for the same elements (by expression) and arguments."""
    import hashlib
    from .engine import MaskSel
    k = z3.Int("?k")
    ex.p.bound += 1
    try:
        base, mask = (a.a, a.mask) if isinstance(a, MaskSel) else (_flat1(ex, a), None)
        x = tof(base.at(k))
        text = "|".join(str(zb(t).sexpr() if i else V.zr(t).sexpr()) for i, t in enumerate((x.r, x.nan, x.inf)))
        if mask is not None:
            text += "|" + zb(mask.at(k)).sexpr()
    finally:
        ex.p.bound -= 1
    if "?q" in text or "?e" in text:
        raise Unsupported("reduction under a quantifier")
    nm = "%s!%s" % (name, hashlib.sha256(text.encode()).hexdigest()[:12])
    zs = [zi(base.shape[0])] + [V.zr(tof(t).r) for t in args]
    sorts = [z.sort() for z in zs]
    return F(z3.Function(nm, *sorts, z3.RealSort())(*zs), z3.Function(nm + "?nan", *sorts, z3.BoolSort())(*zs))


@reg(np.percentile)
def _percentile(ex, a, q):
    if ex.p.branch(ieq(a.shape[0], 0)):
        raise RaiseExc_("IndexError")
    return abstract_reduction(ex, "percentile", a, q)

"""Symbolic values: extended reals, mathematical integers, booleans, arrays, records, named tuples."""
from fractions import Fraction
import math
import z3

_ctx = [None]  # the current path context (see engine.Path); spec-side operators use it for case splits


def cur():
    return _ctx[0]


class Unsupported(Exception):
    """The source uses something the generator has no semantics for."""


# ---------------------------------------------------------------- booleans
def is_z3(x):
    return isinstance(x, z3.ExprRef)


def zb(x):
    return z3.BoolVal(bool(x)) if isinstance(x, (bool, int)) and not is_z3(x) else x


def b_not(x):
    if not is_z3(x):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def b_and(*xs):
    out = []
    for x in xs:
        if not is_z3(x):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if not is_z3(x):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_iff(a, b):
    if not is_z3(a) and not is_z3(b):
        return bool(a) == bool(b)
    if not is_z3(a):
        return b if a else b_not(b)
    if not is_z3(b):
        return a if b else b_not(a)
    return a == b


# ---------------------------------------------------------------- integers
def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_z3(x) and z3.is_int(x))


def is_boolv(x):
    return isinstance(x, bool) or (is_z3(x) and z3.is_bool(x))


def is_num(x):
    return isinstance(x, F) or is_int(x) or is_boolv(x)


class DT:
    """The dtype of an array: 'f', 'i' or 'b'."""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, DT) and o.k == self.k

    def __hash__(self):
        return hash(self.k)


def simp(x):
    """Simplify a z3 term to a Python constant when it is one."""
    if not is_z3(x):
        return x
    s = z3.simplify(x)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    if z3.is_int_value(s):
        return s.as_long()
    return s


# ---------------------------------------------------------------- floats
def zr(r):
    if isinstance(r, Fraction):
        return z3.RealVal(str(r))
    if isinstance(r, int):
        return z3.RealVal(r)
    if z3.is_int(r):
        return z3.ToReal(r)
    return r


def _rop(op, a, b):
    ca, cb = not is_z3(a), not is_z3(b)
    if ca and cb:
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        return a / b
    if op == "+":
        if ca and a == 0:
            return b
        if cb and b == 0:
            return a
        return zr(a) + zr(b)
    if op == "-":
        if cb and b == 0:
            return a
        return zr(a) - zr(b)
    if op == "*":
        if (ca and a == 0) or (cb and b == 0):
            return Fraction(0)
        if ca and a == 1:
            return b
        if cb and b == 1:
            return a
        p = _ctx[0]
        if not ca and not cb and p is not None and p.naming and not p.bound:
            return p.mul(zr(a), zr(b))
        return zr(a) * zr(b)
    if cb and b == 1:
        return a
    if ca and a == 0:
        return Fraction(0)
    p = _ctx[0]
    if not cb and p is not None and p.naming and not p.bound:
        return p.div(zr(a), zr(b), op == "/!")
    return zr(a) / zr(b)


class F:
    """Extended real: NaN flag, infinity flag (sign in r), real value."""
    __slots__ = ("nan", "inf", "r")
    __array_priority__ = 1000

    def __init__(self, r, nan=False, inf=False):
        self.r, self.nan, self.inf = r, nan, inf

    # -- classification
    def const(self):
        return not is_z3(self.nan) and not is_z3(self.inf) and (self.nan or not is_z3(self.r))

    def __repr__(self):
        if self.const():
            return "F(%s)" % ("nan" if self.nan else ("inf" if self.r > 0 else "-inf") if self.inf else self.r)
        return "F(r=%s, nan=%s, inf=%s)" % (self.r, self.nan, self.inf)

    # -- arithmetic (spec side; executed code goes through engine ops, which add exceptions)
    def __add__(self, o):
        return fadd(self, tof(o))

    def __radd__(self, o):
        return fadd(tof(o), self)

    def __sub__(self, o):
        return fsub(self, tof(o))

    def __rsub__(self, o):
        return fsub(tof(o), self)

    def __mul__(self, o):
        return fmul(self, tof(o))

    def __rmul__(self, o):
        return fmul(tof(o), self)

    def __truediv__(self, o):
        return fdiv(self, tof(o))

    def __rtruediv__(self, o):
        return fdiv(tof(o), self)

    def __neg__(self):
        return fneg(self)

    def __abs__(self):
        return fabs_(self)

    def __bool__(self):
        raise Unsupported("truth value of a symbolic float")

    def __eq__(self, o):
        raise Unsupported("use S.eq on symbolic floats")

    __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __eq__
    __hash__ = None


NAN = F(Fraction(0), nan=True)
PINF = F(Fraction(1), inf=True)
NINF = F(Fraction(-1), inf=True)
ZERO = F(Fraction(0))


def fconst(v):
    v = float(v) if not isinstance(v, Fraction) else v
    if isinstance(v, Fraction):
        return F(v)
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return PINF if v > 0 else NINF
    return F(Fraction(repr(v)))


def tof(x):
    if isinstance(x, F):
        return x
    if isinstance(x, bool):
        return F(Fraction(int(x)))
    if isinstance(x, (int, Fraction)):
        return F(Fraction(x))
    if isinstance(x, float):
        return fconst(x)
    if is_z3(x):
        if z3.is_bool(x):
            return F(z3.If(x, z3.RealVal(1), z3.RealVal(0)))
        if z3.is_int(x):
            return F(z3.ToReal(x))
        if z3.is_real(x):
            return F(x)
    try:
        import numpy as np
        if isinstance(x, (np.floating, np.integer, np.bool_)):
            return tof(x.item())
    except ImportError:
        pass
    raise Unsupported("not a number: %r" % (x,))


def settle(x):
    """Make the infinity flag (and the NaN flag of infinite values) static by case split."""
    if is_z3(x.inf):
        i = cur().branch(x.inf)
        if not i:
            return F(x.r, x.nan, False)
        if is_z3(x.nan):
            if cur().branch(x.nan):
                return NAN
        pos = x.r > 0 if not is_z3(x.r) else cur().branch(x.r > 0)
        return PINF if pos else NINF
    if x.inf and is_z3(x.r):
        return PINF if cur().branch(x.r > 0) else NINF
    return x


def _nan2(a, b):
    return b_or(a.nan, b.nan)


def _isnan_static(x):
    return (not is_z3(x.nan)) and x.nan


def _sym_inf(*xs):
    c = cur()
    return c is not None and c.bound and any(is_z3(x.inf) or (x.inf and is_z3(x.r)) for x in xs)


def fadd(a, b):
    if _sym_inf(a, b):
        # under a quantifier: flags instead of a case split
        pa, pb = _gt0(a.r), _gt0(b.r)
        nan = b_or(a.nan, b.nan, b_and(a.inf, b.inf, b_not(b_iff(pa, pb))))
        return F(z3.If(zb(a.inf), zr(a.r), z3.If(zb(b.inf), zr(b.r), zr(_rop("+", a.r, b.r)))), nan, b_and(b_or(a.inf, b.inf), b_not(nan)))
    a, b = settle(a), settle(b)
    if _isnan_static(a) or _isnan_static(b):
        return NAN
    if a.inf or b.inf:
        if a.inf and b.inf:
            return a if a.r == b.r else NAN
        i, o = (a, b) if a.inf else (b, a)
        return F(i.r, o.nan, True) if not is_z3(o.nan) else (NAN if cur().branch(o.nan) else F(i.r, False, True))
    return F(_rop("+", a.r, b.r), _nan2(a, b))


def fneg(a):
    if not is_z3(a.r):
        return F(-a.r, a.nan, a.inf)
    return F(-a.r, a.nan, a.inf)


def nan_to(x, d):
    """x, or the finite constant d where x is NaN."""
    if not is_z3(x.nan):
        return F(d) if x.nan else x
    return F(z3.If(x.nan, zr(d), zr(x.r)), False, b_and(x.inf, b_not(x.nan)))


def fsub(a, b):
    if (is_z3(a.inf) or a.inf) or (is_z3(b.inf) or b.inf):
        return fadd(a, fneg(b))
    if _isnan_static(a) or _isnan_static(b):
        return NAN
    return F(_rop("-", a.r, b.r), _nan2(a, b))


def _sign_split(x):
    """-1, 0 or 1 by case split, for a non-NaN value."""
    if not is_z3(x.r):
        return (x.r > 0) - (x.r < 0)
    c = cur()
    if c.branch(x.r > 0):
        return 1
    if c.branch(x.r < 0):
        return -1
    return 0


def fmul(a, b):
    if _sym_inf(a, b):
        za, zb_ = zr(a.r) == 0, zr(b.r) == 0
        nan = b_or(a.nan, b.nan, b_and(a.inf, b_not(b.inf), zb_), b_and(b.inf, b_not(a.inf), za))
        pos = b_iff(_gt0(a.r), _gt0(b.r))
        sg = z3.If(zb(pos), z3.RealVal(1), z3.RealVal(-1))
        inf = b_and(b_or(a.inf, b.inf), b_not(nan))
        return F(z3.If(zb(inf), sg, zr(_rop("*", a.r, b.r))), nan, inf)
    a, b = settle(a), settle(b)
    if _isnan_static(a) or _isnan_static(b):
        return NAN
    if a.inf or b.inf:
        i, o = (a, b) if a.inf else (b, a)
        if is_z3(o.nan):
            if cur().branch(o.nan):
                return NAN
        s = _sign_split(o)
        if s == 0:
            return NAN
        return PINF if s * i.r > 0 else NINF
    return F(_rop("*", a.r, b.r), _nan2(a, b))


def fdiv(a, b, nonzero=False):
    """Division for a divisor known to be non-zero (or NaN) unless it splits."""
    a, b = settle(a), settle(b)
    if _isnan_static(a) or _isnan_static(b):
        return NAN
    if a.inf or b.inf:
        if a.inf and b.inf:
            return NAN
        if b.inf:
            return F(Fraction(0), a.nan)
        if is_z3(b.nan):
            if cur().branch(b.nan):
                return NAN
        s = _sign_split(b)
        if s == 0:
            return a  # IEEE: inf/0 = inf (sign of zero ignored)
        return PINF if s * a.r > 0 else NINF
    if not is_z3(b.r) and b.r == 0:
        # IEEE semantics, only reached for array expressions
        if is_z3(a.r):
            raise Unsupported("division by constant zero")
        return NAN if a.r == 0 else (PINF if a.r > 0 else NINF)
    return F(_rop("/!" if nonzero else "/", a.r, b.r), _nan2(a, b))


def fdiv_ieee(a, b):
    """Array-expression division: x/0 is inf or NaN, without splitting."""
    if is_z3(a.inf) or a.inf or is_z3(b.inf) or b.inf:
        return fdiv(a, b)
    if not is_z3(b.r):
        return fdiv(a, b)
    z = b.r == 0
    az = (zr(a.r) == 0)
    nan = b_or(a.nan, b.nan, b_and(z, az))
    inf = b_and(z, b_not(az), b_not(a.nan), b_not(b.nan))
    r = z3.If(z, z3.If(zr(a.r) > 0, z3.RealVal(1), z3.RealVal(-1)),
              zr(_rop("/", a.r, b.r)))
    return F(r, nan, inf)


def fabs_(a):
    if not is_z3(a.r):
        return F(abs(a.r), a.nan, a.inf)
    c = cur()
    if c is not None and c.fork_ok(a.r):
        if c.branch(a.r >= 0):
            return a
        return fneg(a)
    return F(z3.If(a.r >= 0, a.r, -a.r), a.nan, a.inf)


def _noinf(x):
    return not is_z3(x.inf) and not x.inf


def flt(a, b):
    if a.const() and b.const():
        return (not a.nan) and (not b.nan) and _ckey(a) < _ckey(b)
    if _isnan_static(a) or _isnan_static(b):
        return False
    nn = b_and(b_not(a.nan), b_not(b.nan))
    if _noinf(a) and _noinf(b):
        return b_and(nn, zr(a.r) < zr(b.r))
    apos, bpos = _gt0(a.r), _gt0(b.r)
    # a is +inf -> False; a is -inf -> b is not -inf; else b is +inf, or finite with smaller
    c1 = b_and(a.inf, b_not(apos), b_not(b_and(b.inf, b_not(bpos))))
    c2 = b_and(b_not(a.inf), b.inf, bpos)
    c3 = b_and(b_not(a.inf), b_not(b.inf), _rlt(a.r, b.r))
    return b_and(nn, b_or(c1, c2, c3))


def _gt0(r):
    return (zr(r) > 0) if is_z3(r) else r > 0


def _rlt(a, b):
    return (zr(a) < zr(b)) if is_z3(a) or is_z3(b) else a < b


def _req(a, b):
    return (zr(a) == zr(b)) if is_z3(a) or is_z3(b) else a == b


def _ckey(a):
    return (math.inf if a.r > 0 else -math.inf) if a.inf else a.r


def feq(a, b):
    """IEEE equality."""
    if a.const() and b.const():
        return (not a.nan) and (not b.nan) and _ckey(a) == _ckey(b)
    if _isnan_static(a) or _isnan_static(b):
        return False
    nn = b_and(b_not(a.nan), b_not(b.nan))
    if _noinf(a) and _noinf(b):
        return b_and(nn, _req(a.r, b.r))
    same_inf = b_and(a.inf, b.inf, b_iff(_gt0(a.r), _gt0(b.r)))
    fin = b_and(b_not(a.inf), b_not(b.inf), _req(a.r, b.r))
    return b_and(nn, b_or(same_inf, fin))


def fsame(a, b):
    """Equality in which NaN equals NaN."""
    return b_or(b_and(a.nan, b.nan), feq(a, b))


def fle(a, b):
    if a.const() and b.const():
        return (not a.nan) and (not b.nan) and _ckey(a) <= _ckey(b)
    if _isnan_static(a) or _isnan_static(b):
        return False
    nn = b_and(b_not(a.nan), b_not(b.nan))
    if _noinf(a) and _noinf(b):
        return b_and(nn, zr(a.r) <= zr(b.r))
    return b_and(nn, b_not(flt(b, a)))


def ite(c, a, b):
    if not is_z3(c):
        return a if c else b
    if isinstance(a, F) or isinstance(b, F):
        a, b = tof(a), tof(b)
        nan = a.nan if (not is_z3(a.nan) and not is_z3(b.nan) and a.nan == b.nan) else z3.If(c, zb(a.nan), zb(b.nan))
        inf = a.inf if (not is_z3(a.inf) and not is_z3(b.inf) and a.inf == b.inf) else simp(z3.If(c, zb(a.inf), zb(b.inf)))
        if not is_z3(a.r) and not is_z3(b.r) and a.r == b.r:
            r = a.r
        elif is_z3(a.r) and is_z3(b.r) and a.r.eq(b.r):
            r = a.r
        else:
            r = z3.If(c, zr(a.r), zr(b.r))
        return F(r, nan, inf)
    if is_boolv(a) and is_boolv(b):
        return z3.If(c, zb(a), zb(b))
    if isinstance(a, NT):
        return NT(a.cls, {k: ite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, tuple):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if a is b:
        return a
    if (is_int(a) or is_boolv(a)) and (is_int(b) or is_boolv(b)):
        return z3.If(c, zi(a), zi(b))
    raise Unsupported("conditional over %r / %r" % (type(a), type(b)))


# ---------------------------------------------------------------- named tuples
class NT:
    """A named tuple."""

    def __init__(self, cls, fields):
        object.__setattr__(self, "cls", cls)
        object.__setattr__(self, "f", fields)

    def __getattr__(self, k):
        try:
            return object.__getattribute__(self, "f")[k]
        except KeyError:
            raise AttributeError(k)

    def __getitem__(self, i):
        return list(self.f.values())[i]

    def __repr__(self):
        return "%s(%s)" % (self.cls, self.f)


# ---------------------------------------------------------------- arrays
class Store:
    """Contents of one array (or of one record field): a function from index tuples to values."""
    _n = 0

    def __init__(self, key, dtype, ndim, get, birth=0, nan_ok=True, inf_ok=False):
        self.key, self.dtype, self.ndim, self.get = key, dtype, ndim, get
        self.birth, self.nan_ok, self.inf_ok = birth, nan_ok, inf_ok


def fresh_get(name, dtype, ndim, nan=True, inf=False):
    dom = [z3.IntSort()] * ndim
    if dtype == "f":
        f = z3.Function(name, *dom, z3.RealSort())
        fn = z3.Function(name + "?nan", *dom, z3.BoolSort()) if nan else None
        fi = z3.Function(name + "?inf", *dom, z3.BoolSort()) if inf else None

        def get(idx):
            ix = [zi(i) for i in idx]
            return F(f(*ix), fn(*ix) if fn is not None else False, fi(*ix) if fi is not None else False)
        get.fn = f
        return get
    f = z3.Function(name, *dom, z3.BoolSort() if dtype == "b" else z3.IntSort())

    def get(idx):
        return f(*[zi(i) for i in idx])
    get.fn = f
    return get


class Arr:
    """An array value: a (view of a) store. `dims` maps each store axis to ('fix', e) or ('dim', k, offset, step)."""

    def __init__(self, store, shape, dims=None):
        self.store, self.shape = store, tuple(shape)
        self.dims = dims if dims is not None else tuple(("dim", k, 0, 1) for k in range(len(shape)))
        self.snap = None

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.store.dtype

    def sidx(self, idx):
        out = []
        for d in self.dims:
            if d[0] == "fix":
                out.append(d[1])
            else:
                _, k, off, step = d
                out.append(iadd(off, idx[k]) if step == 1 else isub(off, idx[k]))
        return tuple(out)

    def inverse(self, sidx):
        """(condition, view index) of a store index."""
        cond, vi = True, [None] * self.ndim
        for d, s in zip(self.dims, sidx):
            if d[0] == "fix":
                cond = b_and(cond, ieq(s, d[1]))
            else:
                _, k, off, step = d
                v = isub(s, off) if step == 1 else isub(off, s)
                vi[k] = v
                cond = b_and(cond, ile(0, v), ilt(v, self.shape[k]))
        return cond, tuple(vi)

    def at(self, *idx):
        g = self.snap if self.snap is not None else self.store.get
        return g(self.sidx(idx))

    def snapshot(self):
        a = Arr(self.store, self.shape, self.dims)
        a.snap = self.store.get if self.snap is None else self.snap
        return a

    def write(self, idx, v):
        g, s = self.store.get, self.sidx(idx)

        def get(j, g=g, s=s, v=v):
            c = True
            for x, y in zip(j, s):
                c = b_and(c, ieq(x, y))
            if c is True:
                return v
            if c is False:
                return g(j)
            return ite(c, v, g(j))
        self.store.get = get

    def write_all(self, fn):
        """Assign fn(view index) to every element of the view."""
        g = self.store.get

        def get(j, g=g):
            c, vi = self.inverse(j)
            if c is True:
                return fn(vi)
            if c is False:
                return g(j)
            return ite(c, fn(vi), g(j))
        self.store.get = get

    # spec-side access
    def __getitem__(self, i):
        if not isinstance(i, tuple):
            i = (i,)
        if len(i) == self.ndim:
            return self.at(*i)
        return sub_view(self, list(i))

    def __len__(self):
        raise Unsupported("use S.len")

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = imul(n, s)
        return n


def sub_view(a, idx):
    """View with some leading axes fixed to scalars / slice(None)."""
    idx = idx + [slice(None)] * (a.ndim - len(idx))
    newdim, shape, m = 0, [], {}
    for k, i in enumerate(idx):
        if isinstance(i, slice):
            m[k] = ("dim", newdim, 0, 1)
            shape.append(a.shape[k])
            newdim += 1
        else:
            m[k] = ("fix", i)
    r = compose_view(a, m, shape)
    return r


def compose_view(a, m, shape):
    """m: view axis k -> ('fix', e) | ('dim', newk, off, step)."""
    dims = []
    for d in a.dims:
        if d[0] == "fix":
            dims.append(d)
            continue
        _, k, off, step = d
        t = m[k]
        if t[0] == "fix":
            dims.append(("fix", iadd(off, t[1]) if step == 1 else isub(off, t[1])))
        else:
            _, nk, off2, step2 = t
            dims.append(("dim", nk, iadd(off, off2) if step == 1 else isub(off, off2), step * step2))
    r = Arr(a.store, shape, tuple(dims))
    r.snap = a.snap
    return r


class RecArr:
    """A structured array: one store per field, all with the same shape and view."""

    def __init__(self, fields, shape, dims=None, snap=None):
        self.fields = fields  # name -> Arr
        self.shape = tuple(shape)

    @property
    def ndim(self):
        return len(self.shape)

    def snapshot(self):
        return RecArr({k: v.snapshot() for k, v in self.fields.items()}, self.shape)

    def __getitem__(self, i):
        if isinstance(i, str):
            return self.fields[i]
        return RecRef(self, i if isinstance(i, tuple) else (i,))

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = imul(n, s)
        return n


class RecRef:
    """One record of a structured array (by reference)."""

    def __init__(self, arr, idx):
        self.arr, self.idx = arr, idx

    def __getitem__(self, f):
        return self.arr.fields[f].at(*self.idx)

    def snapshot(self):
        return RecRef(self.arr.snapshot(), self.idx)


# ---------------------------------------------------------------- integer helpers with folding
def iadd(a, b):
    if not is_z3(a) and not is_z3(b):
        return a + b
    if not is_z3(a) and a == 0:
        return zi(b)
    if not is_z3(b) and b == 0:
        return zi(a)
    return zi(a) + zi(b)


def isub(a, b):
    if not is_z3(a) and not is_z3(b):
        return a - b
    if not is_z3(b) and b == 0:
        return zi(a)
    return zi(a) - zi(b)


def imul(a, b):
    if not is_z3(a) and not is_z3(b):
        return a * b
    if not is_z3(a) and a == 1:
        return b
    if not is_z3(b) and b == 1:
        return a
    return zi(a) * zi(b)


def ieq(a, b):
    if not is_z3(a) and not is_z3(b):
        return a == b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    return zi(a) == zi(b)


def ilt(a, b):
    if not is_z3(a) and not is_z3(b):
        return a < b
    return zi(a) < zi(b)


def ile(a, b):
    if not is_z3(a) and not is_z3(b):
        return a <= b
    return zi(a) <= zi(b)


class HashV:
    """hash(key): compared by its key (distinct keys taken to have distinct hashes)."""

    def __init__(self, comps):
        self.comps = tuple(comps)

    def same(self, o):
        if len(self.comps) != len(o.comps):
            return False
        return b_and(*[b_iff(x, y) if is_boolv(x) else ieq(x, y) for x, y in zip(self.comps, o.comps)])


class DictV:
    """A dictionary followed for one arbitrary, fixed key: whether it holds that key and with which value. What it holds
    for other keys is unknown. With `content`, a given dictionary: every entry read is assumed to satisfy content(key, value)."""

    def __init__(self, depth, key=None, present=False, value=None, content=None):
        self.depth, self.key, self.present, self.value, self.content = depth, key, present, value, content
        self.entries = []

    def track(self, ex, h):
        if self.key is None:
            self.key = ex.p.dict_key(h)
        return self.key.same(h)

    def contains(self, ex, h):
        if self.content is not None:
            raise Unsupported("membership in a given dictionary")
        if ex.p.branch(self.track(ex, h)):
            return self.present
        return z3.Bool(ex.p.fresh_name("dict.other"))

    def load(self, ex, h):
        if self.content is not None:
            for k, v in self.entries:
                if ex.p.branch(k.same(h)):
                    return v
            ex.p.oblige("dictionary holds the key", self.content.holds(ex, self, h), None, "bounds")
            v = self.content.value.make(ex, "cached")
            self.entries.append((h, v))
            self.content.assume(ex, self, h, v)
            return v
        if ex.p.branch(self.track(ex, h)):
            ex.p.oblige("dictionary holds the key", self.present, None, "bounds")
            if self.value is None:
                raise Unsupported("value of a dictionary")
            return self.value
        raise Unsupported("dictionary entry of another key")

    def store(self, ex, h, v):
        if self.content is not None or len(ex.p.loops) > self.depth:
            raise Unsupported("dictionary written in a loop whose invariant does not describe it")
        if ex.p.branch(self.track(ex, h)):
            self.present, self.value = True, v

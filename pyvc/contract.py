"""Contracts, loop invariants and parameter specifications."""
import importlib
import math
import z3
import numpy as np

from .values import *
from . import values as V

REGISTRY = {}   # "module:function" -> Contract
BY_PROP = {}


class Inv:
    """A loop invariant: fn(S, v) makes S.ensure(...) calls over the current locals v and the index v.it."""

    def __init__(self, fn, havoc=None, ghost=None, ghost_step=None, on_break=None, arb=None, define=None, peel=False, reset=None):
        self.reset = reset  # ghost code run before the loop: fn(S, v) -> new values of ghost variables
        self.peel = peel    # the first iteration is executed on its own, before the invariant holds
        self.define = define or {}   # local -> fn(S, v): its value at the loop head, as a term (proved like the invariant)
        self.arb = arb      # name of the arbitrary index (S.each) this loop runs over
        self.fn, self.havoc, self.ghost, self.ghost_step, self.on_break = fn, havoc or {}, ghost, ghost_step, on_break


class Cut:
    """A contract on a block of statements: the top-level statements from the first that assigns `var` to the last one
    (or only the first `count` such statements). Every path through the block has to establish fn; what follows knows
    fn only. `assigns` gives the values of other variables the block may assign, as functions of the entry state."""

    def __init__(self, var, spec, fn, count=None, assigns=None):
        self.var, self.spec, self.fn, self.count, self.assigns = var, spec, fn, count, assigns or {}


class Contract:
    def __init__(self, target, params, pre=None, post=None, loops=None, returns=None, modifies=(), raises=None,
                 functional=None, inline=False, props="", gen=None, merge=False, trials=300, call=None, note=None,
                 max_paths=4000, names=None, check_concrete=True, assumed=False, jit=False, nan_scalar_div=False, cuts=(), opaque=(),
                 cases=None, cost=0, deep=True, hints=None, every=(), use=None, at_call=None, ghosts=None, schemas=None):
        self.use = use or {}          # callee -> "inline", or fn(ex, arguments) giving its result: instead of its contract
        self.at_call = at_call or {}  # callee -> fn(S, v, a, r): ghost code and assertions after each call; may return new ghost values
        self.ghosts = ghosts          # fn(S, a) -> ghost variables and their values on entry
        self.schemas = schemas or {}  # name -> fn(S, a, *indices): preconditions for all indices, instantiated by S.instance
        self.every = tuple(every)     # callees whose `each` clauses are assumed for all indices (as a quantified fact)
        self.hints = hints            # lemmas proved at the return, before the postcondition
        self.deep = deep              # use the quantified assumptions when deciding which branches are possible
        self.opaque = tuple(opaque)   # callees whose results are compared, not interpreted
        self.cases, self.cost = cases, cost
        self.cuts = list(cuts)
        self.target, self.params, self.pre, self.post = target, params, pre, post
        self.loops = {k: (v if isinstance(v, Inv) else Inv(v)) for k, v in (loops or {}).items()}
        self.returns, self.modifies, self.raises = returns, tuple(modifies), raises or {}
        self.functional, self.inline = functional, inline
        self.props = props.split() if isinstance(props, str) else list(props)
        self.gen, self.merge, self.trials, self.call, self.note = gen, merge, trials, call, note
        self.max_paths, self.names = max_paths, names
        self.check_concrete = check_concrete
        self.assumed = assumed
        self.jit = jit
        mod, fn = target.split(":")
        self.module, self.fname = mod, fn
        self.name = target
        REGISTRY[target] = self
        for p in self.props:
            BY_PROP.setdefault(p, []).append(self)

    def function(self):
        m = importlib.import_module(self.module)
        f = getattr(m, self.fname)
        return getattr(f, "py_func", f)

    def usable(self, eng):
        return True

    def pre_all(self, S, a):
        if self.pre is not None:
            self.pre(S, a)


# ------------------------------------------------------------------------------------------------ parameter specs
def cons_dyadic(rng, lo=-64, hi=64, den=8):
    return int(rng.integers(lo * den, hi * den + 1)) / den


class Spec:
    def make(self, ex, name):
        raise NotImplementedError

    def gen(self, rng, dims):
        raise NotImplementedError


class Float(Spec):
    """kinds: subset of 'fin', 'nan', '+inf', '-inf'; symnan keeps the NaN flag symbolic instead of splitting."""

    def __init__(self, kinds="fin", symnan=False, pool=None, inf=False):
        self.kinds, self.symnan, self.pool, self.inf = kinds.split("|"), symnan, pool, inf

    def make(self, ex, name):
        if self.symnan:
            n = ex.p.fresh_name(name)
            if self.inf:
                # the value may also be infinite: sign in the real part
                return F(z3.Real(n), z3.Bool(n + "?nan"), z3.Bool(n + "?inf"))
            return F(z3.Real(n), z3.Bool(n + "?nan"), False)
        k = self.kinds[ex.p.choose(len(self.kinds), name)]
        if k == "nan":
            return V.NAN
        if k == "+inf":
            return V.PINF
        if k == "-inf":
            return V.NINF
        return F(z3.Real(ex.p.fresh_name(name)))

    def gen(self, rng, dims):
        if self.pool is not None:
            v = self.pool[int(rng.integers(len(self.pool)))]
            return float(v) if v is not None else cons_dyadic(rng)
        if len(self.kinds) > 1 and rng.random() < 0.3:
            k = self.kinds[int(rng.integers(len(self.kinds)))]
            if k != "fin":
                return {"nan": math.nan, "+inf": math.inf, "-inf": -math.inf}[k]
        if self.symnan and rng.random() < 0.15:
            return math.nan
        if "fin" not in self.kinds:
            return {"nan": math.nan, "+inf": math.inf, "-inf": -math.inf}[self.kinds[0]]
        return rng_float(rng)


def rng_float(rng):
    r = rng.random()
    if r < 0.15:
        return 0.0
    if r < 0.6:
        return float(rng.integers(-6, 13))
    if r < 0.9:
        return cons_dyadic(rng, -8, 16, 4)
    return cons_dyadic(rng, -128, 256, 8)


class Int(Spec):
    def __init__(self, lo=None, hi=None, glo=None, ghi=None, dim=None):
        self.lo, self.hi = lo, hi
        self.glo = glo if glo is not None else (lo if isinstance(lo, int) else 0)
        self.ghi = ghi if ghi is not None else (hi if isinstance(hi, int) else self.glo + 6)
        self.dim = dim

    def make(self, ex, name):
        v = z3.Int(ex.p.fresh_name(name))
        if self.lo is not None:
            ex.p.assume(v >= self.lo)
        if self.hi is not None:
            ex.p.assume(v <= self.hi)
        return v

    def gen(self, rng, dims):
        return int(rng.integers(self.glo, self.ghi + 1))


class Enum(Spec):
    """An integer from a finite set: case split."""

    def __init__(self, *vals):
        self.vals = vals

    def make(self, ex, name):
        return self.vals[ex.p.choose(len(self.vals), name)]

    def gen(self, rng, dims):
        return self.vals[int(rng.integers(len(self.vals)))]


class SymEnum(Spec):
    """An integer in [lo, hi], kept symbolic."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def make(self, ex, name):
        v = z3.Int(ex.p.fresh_name(name))
        ex.p.assume(z3.And(v >= self.lo, v <= self.hi))
        return v

    def gen(self, rng, dims):
        return int(rng.integers(self.lo, self.hi + 1))


class Bool(Spec):
    def __init__(self, split=False):
        self.split = split

    def make(self, ex, name):
        if self.split:
            return bool(ex.p.choose(2, name))
        return z3.Bool(ex.p.fresh_name(name))

    def gen(self, rng, dims):
        return bool(rng.integers(2))


class Const(Spec):
    def __init__(self, v, pyv=None):
        self.v = v
        self.pyv = pyv if pyv is not None else v

    def make(self, ex, name):
        v = self.v
        return V.fconst(v) if isinstance(v, float) else v

    def gen(self, rng, dims):
        return self.pyv


class OneOf(Spec):
    def __init__(self, *specs):
        self.specs = specs

    def make(self, ex, name):
        return self.specs[ex.p.choose(len(self.specs), name)].make(ex, name)

    def gen(self, rng, dims):
        return self.specs[int(rng.integers(len(self.specs)))].gen(rng, dims)


class Tup(Spec):
    def __init__(self, *specs):
        self.specs = specs

    def make(self, ex, name):
        return tuple(s.make(ex, "%s.%d" % (name, i)) for i, s in enumerate(self.specs))

    def gen(self, rng, dims):
        return tuple(s.gen(rng, dims) for s in self.specs)


class NTS(Spec):
    """Named tuple of the given class (looked up in vectorbt's enums)."""

    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields

    def make(self, ex, name):
        return NT(self.cls.__name__, {k: self.fields[k].make(ex, name + "." + k) for k in self.cls._fields})

    def gen(self, rng, dims):
        return self.cls(**{k: self.fields[k].gen(rng, dims) for k in self.cls._fields})


def dim(ex, d, name):
    """A dimension: an int, or a name shared by the arrays of one contract."""
    if isinstance(d, int):
        return d
    p = ex.p
    if not hasattr(p, "dims"):
        p.dims = {}
    if "+" in d:
        b, k = d.split("+")
        return iadd(dim(ex, b, name), int(k))
    if d not in p.dims:
        v = z3.Int("dim." + d)
        p.assume(v >= 0)
        p.dims[d] = v
    return p.dims[d]


def gdim(rng, dims, d):
    if isinstance(d, int):
        return d
    if "+" in d:
        b, k = d.split("+")
        return gdim(rng, dims, b) + int(k)
    if d not in dims:
        dims[d] = int(rng.integers(0 if rng.random() < 0.1 else 1, 7))
    return dims[d]


class Dim(Spec):
    """An integer parameter equal to a named dimension."""

    def __init__(self, d):
        self.d = d

    def make(self, ex, name):
        return dim(ex, self.d, name)

    def gen(self, rng, dims):
        return gdim(rng, dims, self.d)


class Arr_(Spec):
    def __init__(self, dtype, *shape, nan=True, inf=False, elem=None, fresh=False):
        self.dtype, self.shape, self.nan, self.inf, self.elem = dtype, shape, nan, inf, elem

    def make(self, ex, name):
        shape = tuple(dim(ex, d, name) for d in self.shape)
        nm = ex.p.fresh_name(name)
        st = ex.eng.new_store(ex.p, nm, self.dtype, len(shape),
                              fresh_get(nm, self.dtype, len(shape), self.nan, self.inf),
                              nan_ok=self.nan, inf_ok=self.inf, key=nm)
        return V.Arr(st, shape)

    def gen(self, rng, dims):
        shape = tuple(gdim(rng, dims, d) for d in self.shape)
        n = int(np.prod(shape)) if shape else 1
        if self.elem is not None:
            vals = [self.elem(rng) for _ in range(n)]
        elif self.dtype == "f":
            nanp = rng.choice([0.0, 0.0, 0.2, 0.5]) if self.nan else 0.0
            small = rng.random() < 0.5
            vals = [math.nan if rng.random() < nanp else
                    (float(rng.integers(0, 6)) if small else rng_float(rng)) for _ in range(n)]
        elif self.dtype == "i":
            vals = [int(rng.integers(0, 5)) for _ in range(n)]
        else:
            q = rng.random()
            vals = [bool(rng.random() < q) for _ in range(n)]
        dt = {"f": np.float64, "i": np.int64, "b": np.bool_}[self.dtype]
        return np.array(vals, dtype=dt).reshape(shape)


def ret_arr(dtype, shape, nan=True, inf=False):
    """Result array of a callee; shape(a) gives its dimensions from the arguments."""
    def make(ex, a, name):
        sh = tuple(shape(a))
        nm = ex.p.fresh_name(name)
        st = ex.eng.new_store(ex.p, nm, dtype, len(sh), fresh_get(nm, dtype, len(sh), nan, inf), nan_ok=True, inf_ok=inf, key=nm)
        return V.Arr(st, sh)
    return make


class RecArr_(Spec):
    """Structured array. fields: name -> 'f'|'i'|'b'."""

    def __init__(self, dtype, *shape, nan=True, genf=None, single=False, order=None, nonan=(), inf=False):
        self.np_dtype, self.shape, self.nan, self.genf, self.single, self.nonan = dtype, shape, nan, genf, single, nonan
        self.inf = inf

    def make(self, ex, name):
        shape = tuple(dim(ex, d, name) for d in self.shape)
        nm = ex.p.fresh_name(name)
        fields = {}
        for k in self.np_dtype.names:
            dt = {"f": "f", "i": "i", "b": "b", "u": "i"}[self.np_dtype.fields[k][0].kind]
            nan = self.nan and k not in self.nonan
            st = ex.eng.new_store(ex.p, nm + "." + k, dt, len(shape),
                                  fresh_get(nm + "." + k, dt, len(shape), nan, self.inf), nan_ok=True, key=nm + "." + k,
                                  inf_ok=self.inf)
            fields[k] = V.Arr(st, shape)
        return RecArr(fields, shape)

    def gen(self, rng, dims):
        shape = tuple(gdim(rng, dims, d) for d in self.shape)
        a = np.zeros(shape, dtype=self.np_dtype)
        if self.genf is not None:
            self.genf(rng, a)
            return a
        for k in self.np_dtype.names:
            kind = self.np_dtype.fields[k][0].kind
            flat = a[k].reshape(-1)
            for i in range(flat.size):
                flat[i] = rng_float(rng) if kind == "f" else rng.integers(0, 3)
        return a


class RecRef_(Spec):
    """A reference to one record of some structured array."""

    def __init__(self, dtype, nan=True, nonan=(), genf=None, inf=False):
        self.inner = RecArr_(dtype, 1, nan=nan, nonan=nonan, genf=genf, inf=inf)

    def make(self, ex, name):
        return V.RecRef(self.inner.make(ex, name), (0,))

    def gen(self, rng, dims):
        return self.inner.gen(rng, dims)[0:1][0]


class Dict_(Spec):
    """A dictionary with the given kind of values and the key components in `keys` ("i", "b"), known for one arbitrary key."""

    def __init__(self, value, *keys):
        self.value, self.keys = value, keys

    def make(self, ex, name):
        h = V.HashV([True if k == "b" else 0 for k in self.keys])
        return V.DictV(len(ex.p.loops), ex.p.dict_key(h), z3.Bool(ex.p.fresh_name(name + ".has")), self.value.make(ex, name + ".value"))

    def gen(self, rng, dims):
        raise NotImplementedError


class GivenDict(Spec):
    """A dictionary passed in: it holds the keys listed by keys(a), and every entry satisfies content(S, a, key, value)."""

    def __init__(self, value, keys, content):
        self.value, self.keys, self.content = value, keys, content

    def make(self, ex, name):
        return V.DictV(0, content=self)

    def holds(self, ex, d, h):
        return V.b_or(*[V.HashV(k if isinstance(k, tuple) else (k,)).same(h) for k in self.keys(self.args(ex))])

    def args(self, ex):
        class A:
            pass
        a = A()
        a.__dict__.update(ex.p.args)
        return a

    def assume(self, ex, d, h, v):
        S = ex.eng.spec("assume", ex.p, "")
        self.content(S, self.args(ex), h.comps, v)

    def gen(self, rng, dims):
        raise NotImplementedError


class AbsFn:
    """An abstract callable argument: sym(ex, args) gives the result symbolically."""

    def __init__(self, sym):
        self.sym = sym

    def vc_call(self, ex, args, kw):
        return self.sym(ex, args)


class Func(Spec):
    def __init__(self, sym, gen):
        self.sym, self._gen = sym, gen

    def make(self, ex, name):
        return AbsFn(self.sym)

    def gen(self, rng, dims):
        return self._gen(rng, dims)

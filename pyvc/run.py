"""Runs one property's check: discharges the obligations of its contracts, evaluates the same contracts and the
property's monitors on concrete runs of the real code, and reports."""
import copy
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


class limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


# ------------------------------------------------------------------------------------------------ monitors
MONITORS = {}


class Fail(Exception):
    pass


class Skip(Exception):
    pass


class Monitor:
    def __init__(self, name, fn, props, trials, functions):
        self.name, self.fn, self.props, self.trials, self.functions = name, fn, props, trials, functions


def monitor(props, trials=200, functions=""):
    """Registers fn(rng): one random case of the real code against an independent oracle (bounded)."""
    def d(fn):
        m = Monitor(fn.__module__.split(".")[-1] + "." + fn.__name__, fn, props.split(), trials, functions.split())
        for p in m.props:
            MONITORS.setdefault(p, []).append(m)
        fn.monitor = m
        return fn
    return d


def show(x, depth=0):
    """JSON-able rendering of an argument."""
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if isinstance(x, (np.integer, np.bool_)):
        return x.item()
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return {"dtype": str(x.dtype.names), "rows": [str(r) for r in x.reshape(-1)[:30]]}
        return {"array": str(x.dtype), "shape": list(x.shape), "data": [show(v) for v in x.reshape(-1)[:200].tolist()]}
    if hasattr(x, "_fields"):
        return {k: show(v) for k, v in zip(x._fields, x)}
    if isinstance(x, (list, tuple)):
        return [show(v) for v in x]
    if isinstance(x, dict):
        return {str(k): show(v) for k, v in x.items()}
    return str(x)[:2000]


def expect(cond, msg, **inputs):
    if not cond:
        raise Fail(json.dumps({"message": msg, "inputs": {k: show(v) for k, v in inputs.items()}}))


def same(a, b, tol=1e-9):
    """Equal up to rounding, NaN equal to NaN, infinities equal to themselves."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "biu" and b.dtype.kind in "biu":
        return bool(np.array_equal(a, b))
    try:
        a, b = a.astype(float), b.astype(float)
    except (TypeError, ValueError):
        return bool(np.array_equal(a, b))
    with np.errstate(all="ignore"):
        ok = (np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= tol * np.maximum(1.0, np.maximum(np.abs(a), np.abs(b))))
    return bool(ok.all())


# ------------------------------------------------------------------------------------------------ concrete contracts
def deep(x):
    if isinstance(x, np.ndarray) or isinstance(x, np.void):
        return x.copy()
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[deep(v) for v in x])
    if isinstance(x, tuple):
        return tuple(deep(v) for v in x)
    return x


class A:
    def __init__(self, d):
        self.__dict__.update(d)


def gen_args(c, rng, case=None):
    if c.gen is not None:
        d = c.gen(rng)
        full = dict(d)
        for k, s in c.params.items():
            if k not in full:
                full[k] = s.gen(rng, {})
        return full
    dims = {}
    return {k: s.gen(rng, dims) for k, s in c.params.items()}


def call_args(c, fn, d):
    code = fn.__code__
    names = code.co_varnames[:code.co_argcount]
    args = [d[n] for n in names if n in d]
    kw = {}
    pos = []
    for n in names:
        if n in d:
            if kw or len(pos) != names.index(n):
                kw[n] = d[n]
            else:
                pos.append(d[n])
    if code.co_flags & 0x04:
        v = code.co_varnames[code.co_argcount + code.co_kwonlyargcount]
        if v in d:
            pos.extend(d[v])
    return pos, kw


def run_concrete(c, d, props=None):
    """One concrete execution against the contract. Returns None (rejected), [] (fine) or a list of failed clauses."""
    from .spec import ConcS, Inconclusive
    fn = c.function()
    old = {k: deep(v) for k, v in d.items()}
    a = A(d)
    a.old = A(old)
    if c.pre is not None:
        S = ConcS()
        try:
            c.pre(S, a)
        except Inconclusive:
            return None
        if any(r is not True for _, r, _ in S.results):
            return None
    pos, kw = call_args(c, fn, d)
    calls, patched = [], []
    for n in (x.rstrip("!") for x in c.opaque):
        orig = fn.__globals__.get(n)
        if orig is None:
            continue
        code = getattr(orig, "py_func", orig).__code__

        def rec(*args, _o=orig, _n=n, _c=code, **kws):
            ns = dict(zip(_c.co_varnames, [deep(x) for x in args]))
            ns.update({k: deep(v) for k, v in kws.items()})
            r = _o(*args, **kws)
            calls.append((_n, A(ns), deep(r)))
            return r
        patched.append((n, orig))
        fn.__globals__[n] = rec
    try:
        with limit(20), np.errstate(all="ignore"):
            res = fn(*pos, **kw)
    except Timeout:
        return ["does not terminate"]
    except Exception as e:
        n = type(e).__name__
        for k, cond in c.raises.items():
            if k == n:
                try:
                    a0 = A(dict(old))
                    a0.old = A(old)
                    ok = cond(ConcS(), a0)
                except Inconclusive:
                    ok = None
                if ok is False:
                    return ["raises %s: %s" % (n, e)]
                return []
        return ["raises %s: %s" % (n, e)]
    finally:
        for n, orig in patched:
            fn.__globals__[n] = orig
    S = ConcS()
    S.calls = calls
    try:
        if c.functional is not None:
            want = c.functional(S, a)
            S.ensure("functional", conc_same(S, res, want))
        if c.post is not None:
            c.post(S, a, res)
    except Inconclusive:
        pass
    except (TypeError, AttributeError, ValueError, IndexError, KeyError) as e:
        return ["result has an unexpected form: %s: %s" % (type(e).__name__, e)]
    bad = [l for l, r, p in S.results if r is False and (props is None or p is None or set(p.split()) & props)]
    roots = {m.split(".")[0] for m in c.modifies}
    for k, v in old.items():
        if k not in roots and isinstance(v, np.ndarray):
            if v.tobytes() != d[k].tobytes():
                bad.append("frame:" + k)
    return bad


def conc_same(S, a, b):
    if isinstance(b, tuple):
        if not isinstance(a, tuple) or len(a) != len(b):
            return False
        return S.and_(*[conc_same(S, x, y) for x, y in zip(a, b)])
    return S.eq(a, b)


def concrete_task(t):
    kind, name, seed, n, prop, t_end = t
    rng = np.random.default_rng([seed, int(hashlib.sha256(name.encode()).hexdigest()[:8], 16)])
    done, used, fails = 0, 0, []
    sample = None
    if kind == "contract":
        from .contract import REGISTRY
        c = REGISTRY[name]
        try:
            c.function()
        except AttributeError:
            return dict(kind=kind, name=name, used=0, tried=0, fails=[], gone=True)
        for _ in range(n * 4):
            if used >= n or time.time() > t_end:
                break
            done += 1
            try:
                d = gen_args(c, rng)
                keep = {k: deep(v) for k, v in d.items()}
                r = run_concrete(c, d, {prop})
            except Exception as e:   # a broken generator is a fault of this machinery
                return dict(kind=kind, name=name, used=used, tried=done, fails=[], error="%s: %s" % (
                    type(e).__name__, traceback.format_exc().strip().splitlines()[-3:]))
            if r is None:
                continue
            used += 1
            if sample is None:
                sample = {k: show(v) for k, v in keep.items()}
            if r:
                fails.append(dict(function=name, clauses=r, inputs={k: show(v) for k, v in keep.items()}))
                if len(fails) >= 3:
                    break
    else:
        m = next(m for m in MONITORS[prop] if m.name == name)
        for _ in range(n):
            if time.time() > t_end:
                break
            done += 1
            state = rng.bit_generator.state
            try:
                with limit(60), np.errstate(all="ignore"):
                    m.fn(rng)
                used += 1
            except Skip:
                continue
            except Fail as e:
                used += 1
                fails.append(dict(monitor=name, failure=json.loads(str(e)), rng_state=str(state)[:200]))
                if len(fails) >= 3:
                    break
            except Timeout:
                fails.append(dict(monitor=name, failure="no answer within 60 s", rng_state=str(state)[:200]))
                break
            except Exception as e:
                fails.append(dict(monitor=name, failure="%s: %s" % (type(e).__name__, e),
                                  where=traceback.format_exc().strip().splitlines()[-6:], rng_state=str(state)[:200]))
                if len(fails) >= 3:
                    break
    return dict(kind=kind, name=name, used=used, tried=done, fails=fails, sample=sample)


# ------------------------------------------------------------------------------------------------ proofs
def cval(v, m, cap=7):
    """Concrete value of a symbolic value in a model."""
    import z3
    from . import values as V

    def zv(t):
        x = m.eval(t, model_completion=True)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return x.as_fraction()
        if z3.is_algebraic_value(x):
            return x.approx(20).as_fraction()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        raise ValueError("no value")
    if isinstance(v, V.F):
        nan = zv(v.nan) if V.is_z3(v.nan) else v.nan
        inf = zv(v.inf) if V.is_z3(v.inf) else v.inf
        r = zv(v.r) if V.is_z3(v.r) else v.r
        return math.nan if nan else (math.inf if r > 0 else -math.inf) if inf else float(r)
    if V.is_z3(v):
        return zv(v)
    if isinstance(v, V.NT):
        from vectorbt.portfolio import enums
        return getattr(enums, v.cls)(**{k: cval(x, m, cap) for k, x in v.f.items()})
    if isinstance(v, tuple):
        return tuple(cval(x, m, cap) for x in v)
    if isinstance(v, V.Arr):
        shape = tuple(zv(n) if V.is_z3(n) else n for n in v.shape)
        if any(n > cap for n in shape):
            raise ValueError("too large")
        dt = {"f": float, "i": np.int64, "b": bool}[v.dtype]
        a = np.zeros(shape, dtype=dt)
        for idx in np.ndindex(*shape):
            a[idx] = cval(v.at(*idx), m, cap)
        return a
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    raise ValueError("no concrete form for %r" % type(v))


def in_child(job, t_end):
    """The rows of job(done, crashed, at), run in a forked process: a solver that crashes takes only the obligation at hand
    with it (at(o) announces it), and the job goes on without that one."""
    import pickle
    import select
    import struct
    done, crashed = set(), set()
    for attempt in range(12):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                import ctypes
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # ends with its parent

                def send(x):
                    d = pickle.dumps(x)
                    d = struct.pack("<I", len(d)) + d
                    while d:
                        d = d[os.write(w, d):]
                try:
                    for row in job(done, crashed, lambda i: send(i)):
                        send(row)
                    send("end")
                except BaseException as ex:
                    send("error: %s: %s" % (type(ex).__name__, ex))
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        buf, last, ended = b"", None, False
        try:
            while True:
                if not select.select([r], [], [], max(0.0, t_end - time.time()))[0]:
                    os.kill(pid, signal.SIGKILL)
                    ended = True
                    break
                d = os.read(r, 1 << 20)
                if not d:
                    break
                buf += d
                while len(buf) >= 4:
                    n = struct.unpack("<I", buf[:4])[0]
                    if len(buf) < 4 + n:
                        break
                    x, buf = pickle.loads(buf[4:4 + n]), buf[4 + n:]
                    if isinstance(x, int):
                        last = x
                    elif x == "end":
                        ended = True
                    elif isinstance(x, str):
                        yield dict(index=-1, label="machinery", kind="machinery", dt=0.0, names=[], status=["unknown"], goal=x)
                        ended = True
                    else:
                        done.add(x["index"])
                        yield x
        finally:
            os.close(r)
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
        if ended:
            if time.time() >= t_end:
                yield dict(index=-1, label="out of time", kind="machinery", dt=0.0, names=[], status=["unknown"], goal="")
            return
        if last is None:
            break
        crashed.add(last)
    yield dict(index=-1, label="solver crashes", kind="machinery", dt=0.0, names=[], status=["unknown"], goal="")


def settle(e, name, prop, timeout, solve_s, gen_s, t0, t_solve, done, crashed, announce):
    """One row per obligation: what the solvers say, and a replay of the counterexample where they give one."""
    from . import vc
    from .contract import REGISTRY
    index = {id(e.obls[k]): j for j, k in enumerate(e.order)}

    def at(o):
        announce(index[id(o)])

    def first_and_again():
        # obligations no solver answered are tried again at the end, with longer limits and other seeds; where one
        # stays open, those of the same name on other paths are not tried any more
        later, parked, waiting, gone = [], [], {}, []

        def park(o):
            if index[id(o)] in done:
                return True
            if index[id(o)] in crashed:
                gone.append(o)
                waiting[o.label] = 2
                return True
            at(o)
            if waiting.get(o.label, 0) >= 2:
                parked.append(o)
                return True
            return False
        for o, fails, names, dt in vc.discharge(e, timeout, t_end=t_solve, props={prop}, park=park):
            if fails and len(later) < 24 and "out-of-time" not in names and all(f[0] == "unknown" for f in fails):
                later.append((o, fails, names, dt))
                waiting[o.label] = waiting.get(o.label, 0) + 1
            else:
                yield o, fails, names, dt
        end = min(time.time() + min(solve_s, 200), t0 + gen_s + solve_s - 100)
        failed = {o.label for o in gone}
        for o in gone:
            yield o, [("unknown", None, [], "the solver crashed")], ["crashed"], 0.0
        for o, fails, names, dt in later:
            t1 = time.time()
            at(o)
            left = []
            for st, m, h, g in fails:
                n = None if o.label in failed else vc.solve_again(h, g, e.recdefs, 2 * timeout, min(end, time.time() + 90))
                if n is None:
                    left.append((st, m, h, g))
                    failed.add(o.label)
                    break
                names = names + [n]
            yield o, left, names, dt + time.time() - t1
        for o in parked:
            if o.label in failed:
                yield o, [("unknown", None, [], "not tried: the obligation of this name on another path is open")], ["not-tried"], 0.0
        rest = {id(o) for o in parked if o.label not in failed}
        if rest:
            yield from vc.discharge(e, timeout, t_end=end, props={prop}, park=lambda o: at(o), only=rest)
    replays = 0
    for o, fails, names, dt in first_and_again():
        row = dict(index=index[id(o)], label=o.label, kind=o.kind, dt=dt, names=sorted(set(names)), status=[], replay=None)
        for st, m, h, g in fails:
            if st not in row["status"]:
                row["status"].append(st)
            if "goal" not in row:
                row["goal"] = str(g)[:1500]
            if m is not None:
                try:
                    if "model" not in row:
                        row["model"] = {str(d): str(m[d])[:120] for d in list(m.decls())[:60] if "!" not in str(d)}
                    if row["replay"] is None and replays < 60 and getattr(o, "args", None) is not None:
                        replays += 1
                        d = {k: cval(v, m) for k, v in o.args.items()}
                        keep = {k: deep(v) for k, v in d.items()}
                        r = run_concrete(REGISTRY[name], d, {prop})
                        if r:
                            row["replay"] = dict(function=name, clauses=r, inputs={k: show(v) for k, v in keep.items()})
                except Exception:
                    pass
        yield row


def proof_task(t):
    name, case, prop, gen_s, solve_s, timeout = t
    import z3
    from . import vc
    from .contract import REGISTRY
    t0 = time.time()
    c = copy.copy(REGISTRY[name])
    c.params = dict(c.params)
    if case is not None:
        case = c.cases[case]
        c.params.update(case[1])
        if len(case) > 2:
            general, extra = c.pre, case[2]

            def both(S, a):
                if general is not None:
                    general(S, a)
                extra(S, a)
            c.pre = both
    out = dict(name=name, case=case[0] if case else None, obligations=0, discharged=0, trivial=0, solvers={}, fails=[],
               errors=[], kinds={}, solver_s=0.0)
    try:
        if c.module != "lemma":
            c.function()
    except AttributeError:
        out["errors"].append("function not found in the current source")
        return out
    try:
        e = vc.Engine(c, budget_s=gen_s).run()
    except Exception as ex:
        out["errors"].append("generator: %s: %s" % (type(ex).__name__, ex))
        return out
    t_solve = time.time() + solve_s
    out.update(paths=e.paths, ended=e.ended, reached=sorted(e.reached), errors=list(e.errors), gen_s=time.time() - t0,
               feas_s=e.feas_time, callees=sorted(e.callees), inlined=sorted(e.inlined), ufs=sorted(e.used_ufs))
    triv = [x for x in e.trivials.values() if not x[1] or prop in x[1].split()]
    out["trivial"] = len(triv)
    bad = {}
    for row in in_child(lambda done, crashed, at: settle(e, name, prop, timeout, solve_s, gen_s, t0, t_solve, done, crashed, at), t_solve + 260):
        out["obligations"] += 1
        out["kinds"][row["kind"]] = out["kinds"].get(row["kind"], 0) + 1
        out["solver_s"] += row["dt"]
        for n in row["names"]:
            out["solvers"][n] = out["solvers"].get(n, 0) + 1
        if not row["status"]:
            out["discharged"] += 1
            continue
        b = bad.setdefault(row["label"], dict(label=row["label"], kind=row["kind"], count=0, status=[], replay=None))
        b["count"] += 1
        b["status"] += [x for x in row["status"] if x not in b["status"]]
        for k in ("goal", "model", "replay"):
            if row.get(k) is not None and b.get(k) is None:
                b[k] = row[k]
    out["fails"] = list(bad.values())
    out["wall_s"] = time.time() - t0
    return out


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    for x in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ[x] = "1"


def function_hash(name):
    from .contract import REGISTRY
    from .engine import func_ast
    try:
        return func_ast(REGISTRY[name].function())._hash[:16]
    except Exception:
        return None


TRUSTED = [
    "z3 5.3 and cvc5 1.1 (soundness of 'unsat')",
    "pyvc: the semantics it gives to the Python/NumPy subset of the kernels (checked against concrete runs of the same contracts)",
    "floats are mathematical reals with NaN and infinities; rounding is not modelled (contracts allow the code's own tolerances)",
    "integers are unbounded; array allocation succeeds",
    "Numba compiles a kernel to what its Python source means",
]


def check(prop, tier, seed, contract_modules, monitor_modules):
    t0 = time.time()
    thorough = tier == "thorough"
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    from .contract import REGISTRY, BY_PROP
    for m in contract_modules:
        importlib.import_module("contracts." + m)
    for m in monitor_modules:
        importlib.import_module("monitors." + m)
    cons = BY_PROP.get(prop, [])
    mons = MONITORS.get(prop, [])
    budget = 6000 if thorough else 640
    t_end = t0 + budget
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))
    # tasks
    ctasks, ptasks = [], []
    scale = 20 if thorough else 1
    conc_end = t0 + (900 if thorough else 200)
    for m in mons:
        shards = 8 if m.trials >= 64 else 1
        for k in range(shards):
            ctasks.append(("monitor", m.name, seed * 1000 + k, max(1, m.trials * scale // shards), prop, conc_end))
    for c in cons:
        if c.module == "lemma" or not c.check_concrete:
            continue
        shards = 8 if c.trials >= 1000 else 1
        for k in range(shards):
            ctasks.append(("contract", c.name, seed * 1000 + k, max(1, c.trials * scale // shards), prop, conc_end))
    for c in cons:
        if c.assumed:
            continue
        for case in (range(len(c.cases)) if c.cases else [None]):
            ptasks.append((c.name, case, prop, 500 if thorough else 300, 2000 if thorough else 400, 20000 if thorough else 8000))
    ptasks.sort(key=lambda t: -getattr(REGISTRY[t[0]], "cost", 0))
    results, proofs = [], []
    ctx = mp.get_context("fork")
    pool = ctx.Pool(8, _init)
    try:
        hp = [pool.apply_async(proof_task, (t,)) for t in ptasks[:4]]
        hc = [pool.apply_async(concrete_task, (t,)) for t in ctasks]
        hp += [pool.apply_async(proof_task, (t,)) for t in ptasks[4:]]
        for t, h in zip(ctasks, hc):
            try:
                results.append(h.get(timeout=max(1, conc_end + 90 - time.time())))
            except mp.TimeoutError:
                results.append(dict(kind=t[0], name=t[1], used=0, tried=0, fails=[], error="no answer in time"))
        concrete_fail = [f for r in results for f in r["fails"]]
        for t, h in zip(ptasks, hp):
            if concrete_fail and time.time() - t0 > 100:
                if not h.ready():
                    continue
            try:
                proofs.append(h.get(timeout=max(1, (t0 + 100 if concrete_fail else t_end) - time.time())))
            except mp.TimeoutError:
                if not concrete_fail:
                    proofs.append(dict(name=t[0], case=None if t[1] is None else REGISTRY[t[0]].cases[t[1]][0], obligations=0, discharged=0, trivial=0,
                                       solvers={}, fails=[], errors=["no answer within the time budget"], kinds={}, solver_s=0.0))
            except Exception as ex:
                proofs.append(dict(name=t[0], case=None, obligations=0, discharged=0, trivial=0, solvers={}, fails=[],
                                   errors=["worker: %r" % ex], kinds={}, solver_s=0.0))
        machinery = [r for r in results if r.get("error")]
        # failed proofs
        open_ = []
        for p in proofs:
            for e in p["errors"]:
                open_.append(dict(function=p["name"], case=p["case"], obligation="generation", detail=e))
            for f in p["fails"]:
                open_.append(dict(function=p["name"], case=p["case"], obligation=f["label"], **f))
        # vacuity: each function must have been executed to a return, and its loops' bodies reached
        if not concrete_fail:
            by = {}
            for p in proofs:
                by.setdefault(p["name"], []).append(p)
            for n, ps in by.items():
                if any(p["errors"] for p in ps):
                    continue
                c = REGISTRY[n]
                if sum(p["obligations"] + p["trivial"] for p in ps) == 0:
                    open_.append(dict(function=n, case=None, obligation="vacuity", detail="no obligation was generated"))
                if sum(p["ended"]["return"] for p in ps) == 0 and not getattr(c, "no_return", False):
                    open_.append(dict(function=n, case=None, obligation="vacuity", detail="no path returns"))
        replay = [f["replay"] for f in open_ if f.get("replay")]
        extra = []
        if open_ and not concrete_fail and not replay:
            # directed search for a failing input of the functions whose obligations failed, and of the whole property
            names = {f["function"] for f in open_}
            s_end = min(time.time() + 120, t0 + 820)
            st = []
            for c in cons:
                if c.module == "lemma" or not c.check_concrete:
                    continue
                w = 6 if c.name in names else 2
                for k in range(8 if c.name in names else 2):
                    st.append(("contract", c.name, seed * 1000 + 500 + k, max(200, c.trials) * w, prop, s_end))
            for m in mons:
                for k in range(8):
                    st.append(("monitor", m.name, seed * 1000 + 500 + k, max(50, m.trials), prop, s_end))
            hs = [pool.apply_async(concrete_task, (t,)) for t in st]
            for t, h in zip(st, hs):
                try:
                    r = h.get(timeout=max(1, s_end + 65 - time.time()))
                    extra.append(r)
                    concrete_fail += r["fails"]
                except mp.TimeoutError:
                    pass
                if concrete_fail:
                    break
    finally:
        pool.terminate()
        pool.join()
    concrete_fail = concrete_fail + replay
    # known findings
    status = 0
    for k in known.get("findings", []):
        if k["property"] != prop:
            continue
        mod, f = k["repro"].split(":")
        try:
            still = getattr(importlib.import_module("monitors." + mod), f)()
        except Exception as e:
            still = "%s: %s" % (type(e).__name__, e)
        if still:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    nviol = 0
    if concrete_fail or open_ or machinery:
        status = 1
        nviol = max(1, len(concrete_fail))
        path = os.path.join(ROOT, "evidence", "replay", "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, failing_inputs=concrete_fail[:10], failed_obligations=open_[:20],
                           machinery=machinery[:5]), f, indent=1, default=str)
        for x in concrete_fail[:3]:
            print("  failing input:", json.dumps(x, default=str)[:1200])
        for x in open_[:8]:
            print("  failed obligation:", x["function"], x.get("case"), x["obligation"], x.get("status", ""), x.get("detail", ""))
        for x in machinery[:3]:
            print("  machinery:", x["name"], x["error"])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if concrete_fail else " no-failing-input-found"))
    funcs = {}
    for p in proofs:
        f = funcs.setdefault(p["name"], dict(obligations=0, discharged=0, trivially_true=0, paths=0, source_hash=function_hash(p["name"])))
        f["obligations"] += p["obligations"]
        f["discharged"] += p["discharged"]
        f["trivially_true"] += p["trivial"]
        f["paths"] += p.get("paths", 0)
    solvers = {}
    for p in proofs:
        for k, v in p["solvers"].items():
            solvers[k] = solvers.get(k, 0) + v
    kinds = {}
    for p in proofs:
        for k, v in p["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    assumed = sorted({n for p in proofs for n in p.get("callees", ()) if REGISTRY[n].assumed})
    proved_elsewhere = sorted({n for p in proofs for n in p.get("callees", ()) if not REGISTRY[n].assumed
                               and prop not in REGISTRY[n].props})
    ufs = sorted({u for p in proofs for u in p.get("ufs", ())})
    bounded = {}
    for r in results + extra:
        b = bounded.setdefault(r["name"], dict(kind=r["kind"], executions=0, tried=0))
        b["executions"] += r["used"]
        b["tried"] += r["tried"]
    sample = next((dict(function=r["name"], inputs=r["sample"]) for r in results if r.get("sample")), None)
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=["contract of %s is assumed (not proved)" % n for n in assumed] +
                          ["contract of %s is proved by the check of %s" % (n, " ".join(REGISTRY[n].props) or "no property")
                           for n in proved_elsewhere] +
                          ["%s: uninterpreted (only congruence%s used)" % (u, " and t*t=x, t>=0" if u == "sqrt" else "") for u in ufs] +
                          [n for c in cons for n in ([c.note] if c.note else [])],
              coverage=dict(obligations=sum(p["obligations"] for p in proofs),
                            discharged=sum(p["discharged"] for p in proofs),
                            checker_cmd="cd /verif && ./check.sh %s" % prop, trusted_base=TRUSTED,
                            trivially_true=sum(p["trivial"] for p in proofs),
                            solver_seconds=round(sum(p["solver_s"] for p in proofs), 1),
                            generator_seconds=round(sum(p.get("gen_s", 0) for p in proofs), 1),
                            discharged_by=solvers, obligation_kinds=kinds, functions_under_contract=funcs,
                            inlined_functions=sorted({n for p in proofs for n in p.get("inlined", ())}),
                            bounded_not_proved=dict(what="the same contracts evaluated on concrete runs, and monitors "
                                                    "against independent oracles; sizes up to about 8x4",
                                                    runs=bounded, sample=sample)))
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d/%d obligations discharged over %d functions, %d concrete executions, %.1f s" % (
        prop, "VIOLATED" if status else "ok", ev["coverage"]["discharged"], ev["coverage"]["obligations"], len(funcs),
        sum(b["executions"] for b in bounded.values()), ev["wall_s"]))
    return status

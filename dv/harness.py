"""Harness environment: one contract text, executed symbolically or concretely."""
import builtins
import functools
import inspect
import math
import os
import random as _random
import sys
import time
import traceback
import types
from fractions import Fraction

import numpy as _np

from . import core, symnp
from .core import SBool, SNum, Sym, Unsupported, b_and, b_not, b_or, bval, lift, mkbool, z3, zb

HARNESSES = {}  # property -> list of Harness


class Harness:
    def __init__(self, fn, prop, name, targets, budget, paths, samples, sym, bounded, unroll, shards):
        self.fn, self.prop, self.name = fn, prop, name
        self.targets = targets
        self.budget, self.paths, self.samples = budget, paths, samples
        self.sym, self.bounded = sym, bounded
        self.unroll = unroll
        self.shards = shards


def contract(prop, targets=(), budget=40, paths=400, samples=60, sym=True, bounded="", unroll=6, shards=1):
    """Register a contract harness for a property.

    targets: functions of /repo whose bodies are under this contract.
    sym: whether the verifier executes it (otherwise run-time checked, bounded).
    """

    def deco(fn):
        HARNESSES.setdefault(prop, []).append(
            Harness(fn, prop, fn.__name__, tuple(targets), budget, paths, samples, sym, bounded, unroll, shards)
        )
        return fn

    return deco


class Gap(AttributeError, Unsupported):
    """The code used a stand-in in a way it does not provide."""


def guarded(fn):
    """Calls a stand-in cannot take are outside its contract, not failures."""
    if not isinstance(fn, types.FunctionType):
        return fn
    sig = inspect.signature(fn)

    @functools.wraps(fn)
    def call(*a, **k):
        try:
            sig.bind(*a, **k)
        except TypeError as e:
            raise Gap(f"stand-in {fn.__name__}: {e}")
        return fn(*a, **k)

    return call


class Seen:
    """Stand-in for a callee: records its arguments, obeys its contract."""

    def __init__(self, **k):
        self.__dict__.update({n: guarded(v) for n, v in k.items()})

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Gap(f"stand-in has no {name}")


def _gap(self, name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Gap(f"stand-in instance has no {name}")


def instance(cls, **k):
    """An instance with the given attributes and methods; its class body is not run."""
    if not hasattr(cls, "__getattr__"):
        k["__getattr__"] = _gap
    return object.__new__(type(cls.__name__, (cls,), k))


class Discard(Exception):
    """Concrete sample rejected by an assumption."""


class EnsureFailed(Exception):
    pass


class Namespace:
    def __init__(self, get):
        self._get = get

    def __getattr__(self, n):
        v = self._get(n)
        setattr(self, n, v)
        return v


def dyadic(x, bits=8):
    return round(x * (1 << bits)) / (1 << bits)


class Env:
    """Common logic helpers."""

    def implies(self, a, b):
        return self.lor(self.lnot(a), b)


class SymEnv(Env):
    mode = "sym"
    symbolic = True

    def __init__(self, universe, ctx):
        self.c = ctx
        self.u = universe
        self.np = symnp
        self.g = Namespace(lambda n: universe.load("glimpse." + n.replace("__", ".")))
        self.inputs = {}
        from . import symdt

        self.dt = symdt

    # -- inputs
    def real(self, name, ge=None, gt=None, le=None, lt=None, scale=10, nan=False, inf=False):
        t = z3.Real(name)
        self.inputs[name] = ("real", t)
        s = SNum(t)
        if nan:
            nb = z3.Bool(name + "_nan")
            s = SNum(t, nb)
            self.inputs[name] = ("real", t, nb)
        self._bounds(SNum(t), ge, gt, le, lt)
        return s

    def _bounds(self, s, ge, gt, le, lt):
        if ge is not None:
            self.assume(s >= ge)
        if gt is not None:
            self.assume(s > gt)
        if le is not None:
            self.assume(s <= le)
        if lt is not None:
            self.assume(s < lt)

    def int(self, name, ge=None, le=None, scale=10):
        t = z3.Int(name)
        self.inputs[name] = ("int", t)
        s = SNum(t)
        self._bounds(s, ge, None, le, None)
        return s

    def bool(self, name):
        t = z3.Bool(name)
        self.inputs[name] = ("bool", t)
        return SBool(t)

    def size(self, name, ge=1, le=None, sample=6):
        t = z3.Int(name)
        self.inputs[name] = ("int", t)
        s = SNum(t)
        self._bounds(s, ge, None, le, None)
        return s

    def choice(self, name, options):
        t = z3.Int(name)
        self.inputs[name] = ("int", t)
        self.c.assume(z3.And(t >= 0, t < len(options)))
        for k in range(len(options) - 1):
            if self.c.decide(t == k):
                return options[k]
        return options[-1]

    def array(self, name, shape, ge=None, gt=None, le=None, lt=None, scale=10, nan=False, dtype="f"):
        if not isinstance(shape, tuple):
            shape = (shape,)
        dt = {"f": symnp.F8, "i": symnp.I8, "b": symnp.B1}[dtype]
        a = symnp.arbitrary(name, shape, dt, nan_ok=nan) if False else None
        shape = tuple(symnp.dim(d) for d in shape)
        sort = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[dtype]

        def bound(v):
            for op, lim in ((">=", ge), (">", gt), ("<=", le), ("<", lt)):
                if lim is None:
                    continue
                x = SNum(v)
                cnd = {">=": lambda: x >= lim, ">": lambda: x > lim, "<=": lambda: x <= lim, "<": lambda: x < lim}[op]()
                core.ctx().add_fact(cnd.e if isinstance(cnd, SBool) else cnd)

        if symnp.concrete(shape):
            arr = symnp._obj(shape)
            for i in _np.ndindex(*shape):
                nm = name + "".join(f"_{x}" for x in i)
                v = z3.Const(nm, sort)
                if dtype == "b":
                    arr[i] = SBool(v)
                    continue
                bound(v)
                arr[i] = SNum(v, z3.Bool(nm + "_nan") if nan else False)
            a = symnp.CArr(arr, dt)
            self.inputs[name] = ("carr", a.copy(), shape, dtype)
            return a
        f = z3.Function(name, *([z3.IntSort()] * len(shape)), sort)
        fnan = z3.Function(name + "_nan", *([z3.IntSort()] * len(shape)), z3.BoolSort()) if nan else None

        def get(idx):
            ix = [symnp.zi(i) for i in idx]
            v = f(*ix)
            if dtype == "b":
                return SBool(v)
            bound(v)
            return SNum(v, fnan(*ix) if nan else False)

        a = symnp.SArr.from_fn(get, shape, dt)
        self.inputs[name] = ("sarr", f, fnan, shape, dtype, (ge, gt, le, lt))
        return a

    def increasing(self, name, n, strict=True, scale=10):
        """Array of n increasing reals."""
        n = symnp.dim(n)
        if isinstance(n, int):
            a = self.array(name, (n,))
            for i in range(n - 1):
                self.assume(a[i] < a[i + 1] if strict else a[i] <= a[i + 1])
            return a
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        seen = []
        c = self.c

        def get(idx):
            i = symnp.zi(idx[0])
            if not any(i.eq(j) for j in seen):
                for j in seen:
                    if strict:
                        c.add_fact(z3.And((i < j) == (f(i) < f(j)), (i == j) == (f(i) == f(j))))
                    else:
                        c.add_fact(z3.And(z3.Implies(i <= j, f(i) <= f(j)), z3.Implies(j <= i, f(j) <= f(i))))
                seen.append(i)
            return SNum(f(i))

        self.inputs[name] = ("sarr", f, None, (n,), "f", (None,) * 4)
        return symnp.SArr.from_fn(get, (n,), symnp.F8)

    def index(self, n, name="i"):
        """Arbitrary index of a domain of size n (the obligation holds for each)."""
        nm = self.c.name("ix_" + name)
        t = z3.Int(nm)
        self.c.assume(z3.And(t >= 0, t < symnp.zi(n)))
        self.c.reg_index(symnp.zi(n), t)
        return SNum(t)

    def each(self, n, name="i"):
        """Iterate over an arbitrary index (symbolic) / every index (concrete)."""
        n = symnp.dim(n)
        if isinstance(n, int):
            yield from builtins.range(n)
            return
        if not self.c.entails(symnp.zi(n) > 0):
            # an empty domain has nothing to check
            if not bool(SNum(symnp.zi(n)) > 0):
                return
        yield self.index(n, name)

    def date(self, name, span=100000):
        t = z3.Int(name)
        self.inputs[name] = ("date", t)
        return self.dt.SDate(t)

    def delta(self, name, ge=None, gt=None):
        t = z3.Int(name)
        self.inputs[name] = ("delta", t)
        if ge is not None:
            self.assume(SNum(t) >= ge)
        if gt is not None:
            self.assume(SNum(t) > gt)
        return self.dt.SDelta(t)

    # -- logic
    def _b(self, x):
        if isinstance(x, symnp.ndarray):
            x = symnp.all(x)
        if isinstance(x, SBool):
            return x.e
        if isinstance(x, SNum):
            return symnp._boole(x)
        return bool(x)

    def land(self, *xs):
        return mkbool(b_and(*[self._b(x) for x in xs]))

    def lor(self, *xs):
        return mkbool(b_or(*[self._b(x) for x in xs]))

    def lnot(self, x):
        return mkbool(b_not(self._b(x)))

    def iff(self, a, b):
        return mkbool(core.b_eq(self._b(a), self._b(b)))

    def ite(self, c, a, b):
        return core.s_ite(self._b(c), a, b)

    def same(self, a, b, **k):
        """a equals b, NaN equal to NaN."""
        from .symdt import _Ord

        if isinstance(a, _Ord) or isinstance(b, _Ord):
            return a == b
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.iff(a, b)
        if not core.isnumlike(a) or not core.isnumlike(b):
            return a == b
        a, b = lift(a), lift(b)
        ea, eb = core.coerce2(a, b)
        if a.plain() and b.plain():
            return mkbool(True if ea.eq(eb) else ea == eb)
        na, nb = a.nan, b.nan
        fin = ea == eb
        if type(a.inf) is not int or type(b.inf) is not int:
            ia, ib = core.zinf(a), core.zinf(b)
            fin = z3.And(ia == ib, z3.Or(ia != 0, ea == eb))
        parts = [core.b_eq(na, nb), b_or(na, fin)]
        return mkbool(b_and(*parts))

    def isnan(self, x):
        return symnp.s_isnan(x)

    def assume(self, c):
        self.c.assume(self._b(c))

    def unsupported(self, why):
        raise Unsupported(why)

    # -- obligations
    def ensure(self, name, cond, detail=""):
        self.c.obligations.append(
            core.Obligation(name, zb(self._b(cond)), list(self.c.pc), None, list(self.c.decisions), "ensure", detail)
        )

    def lemma(self, name, cond):
        self.ensure(name, cond)
        hyp = self.c.pc
        self.c.add_fact(z3.Implies(z3.And(*hyp) if hyp else z3.BoolVal(True), zb(self._b(cond))))

    def generations(self, k):
        """Depth of instantiation at indices named by other instantiations."""
        self.c.memo["generations"] = k

    def sum_nonneg(self, name, a):
        """Lemma: a sum of non-negative terms is non-negative (each term proved so)."""
        for i in self.each(a.shape[0], "term"):
            self.ensure(name, a[i] >= 0)
        hyp = self.c.pc
        self.c.add_fact(z3.Implies(z3.And(*hyp) if hyp else z3.BoolVal(True), zb(self._b(symnp.sum(a) >= 0))))

    def eq(self, name, a, b, **k):
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            a, b = symnp._array(a, copy=False), symnp._array(b, copy=False)
        if isinstance(a, symnp.ndarray) or isinstance(b, symnp.ndarray):
            a, b = symnp._array(a, copy=False), symnp._array(b, copy=False)
            if a.ndim != b.ndim:
                self.ensure(name + ".shape", False, f"{a.shape} vs {b.shape}")
                return
            for x, y in zip(a.shape, b.shape):
                if not symnp.dims_eq_syntactic(x, y):
                    self.ensure(name + ".shape", core.compare("==", x, y))
                    self.c.assume(zb(self._b(core.compare("==", x, y))))
            idxs = [()]
            for x, y in zip(a.shape, b.shape):
                d = x if isinstance(x, int) else y
                if isinstance(d, int):
                    idxs = [i + (j,) for i in idxs for j in range(d)]
                else:
                    if not self.c.entails(symnp.zi(d) > 0):
                        if not bool(SNum(symnp.zi(d)) > 0):
                            return
                    j = self.index(d, "eq").e
                    idxs = [i + (j,) for i in idxs]
            for i in idxs:
                sfx = "".join(f"[{x}]" if isinstance(x, int) else "[*]" for x in i)
                self.ensure(name + sfx, self.same(a._get(i), b._get(i)))
            return
        self.ensure(name, self.same(a, b))

    def le(self, name, a, b, **k):
        self.ensure(name, self._np_bool(a <= b))

    def lt(self, name, a, b, **k):
        self.ensure(name, self._np_bool(a < b))

    def _np_bool(self, x):
        return x

    def unreachable(self, name):
        self.ensure(name, False)

    def raises(self, fn, *exc):
        """(raised, value)"""
        try:
            return None, fn()
        except Unsupported:
            raise
        except exc as e:
            return e, None

    def patch(self, obj, name, value):
        """Replace an attribute for the duration of the harness."""
        old = getattr(obj, name, None)
        if old is None:
            raise Gap(f"nothing to replace: {name}")
        self.c.memo.setdefault("patches", []).append((obj, name, old))
        setattr(obj, name, guarded(value))


def extract(model, inputs):
    """Concrete input values of a model."""
    vals = {}

    def num(t):
        v = model.eval(t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        return 0

    def boo(t):
        return z3.is_true(model.eval(t, model_completion=True))

    def enc(x):
        return float(x) if isinstance(x, Fraction) else x

    dims = {}
    for name, spec in inputs.items():
        k = spec[0]
        if k == "real":
            v = enc(num(spec[1]))
            if len(spec) > 2 and boo(spec[2]):
                v = float("nan")
            vals[name] = float(v)
        elif k in ("int", "date", "delta"):
            vals[name] = num(spec[1])
        elif k == "bool":
            vals[name] = boo(spec[1])
    for name, spec in inputs.items():
        k = spec[0]
        if k == "carr":
            a, shape, dtype = spec[1], spec[2], spec[3]
            out = _np.empty(shape, dtype={"f": float, "i": int, "b": bool}[dtype])
            for i in _np.ndindex(*shape):
                x = a.a[i]
                if dtype == "b":
                    out[i] = boo(x.e) if isinstance(x, SBool) else x
                else:
                    out[i] = enc(num(x.e))
                    if bval(x.nan) is None and boo(x.nan):
                        out[i] = _np.nan
            vals[name] = out.tolist()
        elif k == "sarr":
            f, fnan, shape, dtype, bounds = spec[1:6]
            sh = []
            for d in shape:
                if isinstance(d, int):
                    sh.append(d)
                else:
                    v = num(d.e)
                    if v < 0 or v > 60:
                        return None
                    sh.append(v)
            out = _np.empty(tuple(sh), dtype={"f": float, "i": int, "b": bool}[dtype])
            for i in _np.ndindex(*sh):
                ix = [z3.IntVal(j) for j in i]
                if dtype == "b":
                    out[i] = boo(f(*ix))
                    continue
                v = enc(num(f(*ix)))
                lo = bounds[0] if bounds[0] is not None else bounds[1]
                hi = bounds[2] if bounds[2] is not None else bounds[3]
                try:
                    if isinstance(lo, (int, float)) and v < lo:
                        v = lo + (1 if bounds[0] is None else 0)
                    if isinstance(hi, (int, float)) and v > hi:
                        v = hi - (1 if bounds[2] is None else 0)
                except TypeError:
                    pass
                out[i] = v
                if fnan is not None and boo(fnan(*ix)):
                    out[i] = _np.nan
            vals[name] = out.tolist()
    return vals


class ConcEnv(Env):
    mode = "conc"
    symbolic = False

    def __init__(self, rng, values=None, tol=1e-6):
        import glimpse

        self.np = _np
        self.rng = rng
        self.given = values or {}
        self.values = {}
        self.failures = []
        self.checked = {}
        self.tol = tol
        self.patches = []
        self.pool = []
        import datetime

        self.dt = datetime
        import importlib

        self.g = Namespace(lambda n: importlib.import_module("glimpse." + n.replace("__", ".")))

    # -- inputs
    def _num(self, lo, hi, lo_open, hi_open, scale):
        r = self.rng
        a = lo if lo is not None else (hi - scale if hi is not None else -scale)
        b = hi if hi is not None else (lo + scale if lo is not None else scale)
        if b < a:
            raise Discard()
        for _ in range(50):
            u = r.random()
            if u < 0.12 and self.pool:
                x = r.choice(self.pool)
            elif u < 0.35:
                x = float(r.randint(math.ceil(a), math.floor(b))) if math.ceil(a) <= math.floor(b) else a
            elif u < 0.42:
                x = r.choice([a, b])
            elif u < 0.52:
                x = dyadic(r.uniform(a, b), 1)
            else:
                x = dyadic(r.uniform(a, b), 8 if b - a > 0.05 else 16)
            if x < a or x > b or (lo_open and x == a) or (hi_open and x == b):
                continue
            self.pool.append(x)
            if len(self.pool) > 12:
                self.pool.pop(0)
            return x
        return (a + b) / 2

    def real(self, name, ge=None, gt=None, le=None, lt=None, scale=10, nan=False, inf=False):
        if name in self.given:
            x = float(self.given[name])
        elif nan and self.rng.random() < 0.15:
            x = float("nan")
        else:
            lo = ge if ge is not None else gt
            hi = le if le is not None else lt
            x = self._num(lo, hi, ge is None and gt is not None, le is None and lt is not None, scale)
        self.values[name] = x
        return x

    def int(self, name, ge=None, le=None, scale=10):
        if name in self.given:
            x = int(self.given[name])
        else:
            a = ge if ge is not None else (le - scale if le is not None else -scale)
            b = le if le is not None else a + 2 * scale
            x = self.rng.randint(int(a), int(b))
        self.values[name] = x
        return x

    def bool(self, name):
        x = bool(self.given[name]) if name in self.given else self.rng.random() < 0.5
        self.values[name] = x
        return x

    def size(self, name, ge=1, le=None, sample=6):
        if name in self.given:
            x = int(self.given[name])
            if x > 200:
                raise Discard()
        else:
            x = self.rng.randint(ge, min(le, ge + sample) if le is not None else ge + sample)
        self.values[name] = x
        return x

    def choice(self, name, options):
        k = int(self.given[name]) if name in self.given else self.rng.randrange(len(options))
        self.values[name] = k
        return options[k]

    def array(self, name, shape, ge=None, gt=None, le=None, lt=None, scale=10, nan=False, dtype="f"):
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(int(s) for s in shape)
        dt = {"f": float, "i": int, "b": bool}[dtype]
        if name in self.given:
            x = _np.array(self.given[name], dtype=dt).reshape(shape)
        else:
            x = _np.empty(shape, dtype=dt)
            for i in _np.ndindex(*shape):
                if dtype == "b":
                    x[i] = self.rng.random() < 0.5
                elif nan and self.rng.random() < 0.15:
                    x[i] = _np.nan
                else:
                    lo = ge if ge is not None else gt
                    hi = le if le is not None else lt
                    v = self._num(lo, hi, ge is None and gt is not None, le is None and lt is not None, scale)
                    x[i] = round(v) if dtype == "i" else v
        self.values[name] = x.tolist()
        return x

    def increasing(self, name, n, strict=True, scale=10):
        if name in self.given:
            x = _np.array(self.given[name], dtype=float)
        else:
            steps = [dyadic(self.rng.uniform(0.01 if strict else 0, 3), 6) + (2**-6 if strict else 0) for _ in range(n)]
            if not strict:
                steps = [0.0 if self.rng.random() < 0.3 else s for s in steps]
            x = _np.cumsum(steps) + dyadic(self.rng.uniform(-scale, scale), 4) if n else _np.zeros(0)
        self.values[name] = list(map(float, x))
        return x

    def index(self, n, name="i"):
        if n <= 0:
            raise Discard()
        return self.rng.randrange(int(n))

    def each(self, n, name="i"):
        yield from range(int(n))

    def date(self, name, span=100000):
        k = self.given[name] if name in self.given else self.rng.choice(
            [self.rng.randint(0, 20) * 10**6, self.rng.randint(0, span * 10**6)]
        )
        self.values[name] = k
        import datetime

        try:
            return datetime.datetime(2000, 1, 1) + datetime.timedelta(microseconds=int(k))
        except OverflowError:
            raise Discard()

    def delta(self, name, ge=None, gt=None):
        if name in self.given:
            k = self.given[name]
        else:
            k = self.rng.randint(-10, 10) * self.rng.choice([10**6, 500000, 1, 86400 * 10**6])
            lo = ge if ge is not None else (gt + 1 if gt is not None else None)
            if lo is not None and k < lo:
                k = lo + abs(k)
        self.values[name] = k
        import datetime

        try:
            return datetime.timedelta(microseconds=int(k))
        except OverflowError:
            raise Discard()

    # -- logic
    def _b(self, x):
        if isinstance(x, _np.ndarray):
            return bool(_np.all(x))
        return bool(x)

    def land(self, *xs):
        return all(self._b(x) for x in xs)

    def lor(self, *xs):
        return any(self._b(x) for x in xs)

    def lnot(self, x):
        return not self._b(x)

    def iff(self, a, b):
        return self._b(a) == self._b(b)

    def ite(self, c, a, b):
        return a if self._b(c) else b

    def same(self, a, b, tol=None, scale=1.0):
        tol = self.tol if tol is None else tol
        if isinstance(a, (bool, _np.bool_)) or isinstance(b, (bool, _np.bool_)):
            return bool(a) == bool(b)
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            return bool(a == b)
        if fa != fa or fb != fb:
            return (fa != fa) and (fb != fb)
        if math.isinf(fa) or math.isinf(fb):
            return fa == fb
        return abs(fa - fb) <= tol * max(scale, abs(fa), abs(fb))

    def isnan(self, x):
        return bool(x != x)

    def assume(self, c):
        if not self._b(c):
            raise Discard()

    def unsupported(self, why):
        pass

    # -- obligations
    def ensure(self, name, cond, detail=""):
        self.checked[name] = self.checked.get(name, 0) + 1
        if not self._b(cond):
            self.failures.append((name, str(detail)))

    lemma = ensure

    def eq(self, name, a, b, tol=None, scale=1.0):
        if isinstance(a, (list, tuple, _np.ndarray)) or isinstance(b, (list, tuple, _np.ndarray)):
            a, b = _np.asarray(a), _np.asarray(b)
            if a.shape != b.shape:
                self.ensure(name + ".shape", False, f"{a.shape} vs {b.shape}")
                return
            for i in _np.ndindex(*a.shape):
                if not self.same(a[i], b[i], tol, scale):
                    self.ensure(name, False, f"at {i}: {a[i]!r} vs {b[i]!r}")
                    return
            self.ensure(name, True)
            return
        self.ensure(name, self.same(a, b, tol, scale), f"{a!r} vs {b!r}")

    def le(self, name, a, b, tol=None, scale=1.0):
        tol = self.tol if tol is None else tol
        a_, b_ = _np.asarray(a, dtype=float), _np.asarray(b, dtype=float)
        self.ensure(name, _np.all(a_ <= b_ + tol * _np.maximum(scale, _np.abs(b_))), f"{a!r} <= {b!r}")

    def lt(self, name, a, b, tol=None, scale=1.0):
        self.le(name, a, b, tol, scale)

    def generations(self, k):
        pass

    def sum_nonneg(self, name, a):
        self.ensure(name, bool((a >= -1e-9).all()))

    def unreachable(self, name):
        self.ensure(name, False)

    def raises(self, fn, *exc):
        try:
            return None, fn()
        except Unsupported:
            raise
        except exc as e:
            return e, None

    def patch(self, obj, name, value):
        old = getattr(obj, name, None)
        if old is None:
            raise Gap(f"nothing to replace: {name}")
        self.patches.append((obj, name, old))
        setattr(obj, name, guarded(value))


# ---------------------------------------------------------------------------
# Execution
# ---------------------------------------------------------------------------


class PathResult:
    pass


def explore(h, deadline, max_paths, on_obligation=None, seed=1, ob_budget=20.0, work=None):
    """Symbolically execute harness h over all paths, discharging obligations."""
    from . import loader, loops, prover

    sys.setrecursionlimit(20000)
    loops.UNROLL = h.unroll
    loader.UNROLL = max(h.unroll, 4)
    u = loader.universe()
    res = {
        "paths": 0, "infeasible": 0, "obligations": [], "unsupported": {}, "budget": None,
        "notes": set(), "exceptions": [],
    }
    work = work or Work()
    while True:
        prefix = work.pop(deadline)
        if prefix is None:
            break
        if time.time() > deadline:
            res["budget"] = "time"
            break
        if res["paths"] >= max_paths:
            res["budget"] = "paths"
            break
        shared = core.Shared(deadline)
        c = core.Ctx(prefix, shared)
        core.set_ctx(c)
        env = SymEnv(u, c)
        status = "ok"
        exc = None
        try:
            h.fn(env)
        except core.PathAbort:
            status = "abort"
        except core.Budget:
            res["budget"] = "time"
            status = "budget"
        except Unsupported as e:
            status = "unsupported"
            exc = str(e)
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if "/glimpse/" in f.filename]
            if loc:
                exc += f" @ {os.path.basename(loc[-1].filename)}:{loc[-1].lineno}"
            elif tb:
                exc += f" @ {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
        except RecursionError:
            status = "unsupported"
            exc = "recursion limit"
        except z3.Z3Exception as e:
            status = "unsupported"
            exc = f"z3: {e}"
        except Exception as e:
            status = "exception"
            exc = (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
        finally:
            for obj, name, old in reversed(c.memo.get("patches", [])):
                setattr(obj, name, old)
            core.set_ctx(None)
        for i in range(len(prefix), len(c.decisions)):
            if c.decisions[i][1]:
                work.push([(d[0], False, d[2]) for d in c.decisions[:i]] + [(not c.decisions[i][0], False, True)])
        res["paths"] += 1
        res["notes"] |= c.notes
        if status == "budget":
            break
        if status == "exception":
            c.obligations.append(
                core.Obligation("no-exception:" + exc[0], z3.BoolVal(False), list(c.pc), None, list(c.decisions), "exception", exc[1] + "\n" + exc[2])
            )
        if status == "unsupported":
            res["unsupported"][exc] = res["unsupported"].get(exc, 0) + 1
        for ob in c.obligations:
            if time.time() > deadline:
                res["budget"] = "time"
            r = prover.discharge(c, ob, ob_budget, deadline)
            rec = {
                "name": ob.name, "status": r.status, "backend": r.backend, "secs": round(r.secs, 3),
                "kind": ob.kind, "path": "".join("T" if d[0] else "F" for d in ob.path),
                "detail": ob.detail, "why": r.why,
            }
            if r.status == "refuted" or (r.status == "unknown" and r.model is not None):
                cands = []
                m2 = small_model(c, ob, env.inputs)
                for m in (m2, r.model):
                    if m is not None:
                        v = extract(m, env.inputs)
                        if v is not None:
                            cands.append(v)
                rec["models"] = cands
            elif r.status == "unknown":
                m2 = small_model(c, ob, env.inputs)
                if m2 is not None:
                    v = extract(m2, env.inputs)
                    if v is not None:
                        rec["models"] = [v]
            res["obligations"].append(rec)
            if on_obligation:
                on_obligation(rec)
        work.done()
    work.stop()
    if res["budget"] is None and work.unfinished():
        res["budget"] = "time"
    return res


class Work:
    """Paths yet to be explored by one process."""

    def __init__(self):
        self.stack = [[]]

    def pop(self, deadline):
        return self.stack.pop() if self.stack else None

    def push(self, prefix):
        self.stack.append(prefix)

    def done(self):
        pass

    def stop(self):
        pass

    def unfinished(self):
        return False


class SharedWork:
    """Paths yet to be explored, shared by several processes.

    Each process keeps its own stack, and passes prefixes on while others are idle.
    """

    def __init__(self, mp, processes):
        self.queue = mp.SimpleQueue()
        self.lock = mp.Lock()
        self.waiting = mp.Value("i", 0, lock=False)  # prefixes in the queue
        self.open = mp.Value("i", 1, lock=False)  # prefixes not yet explored
        self.over = mp.Value("i", 0, lock=False)  # whether a process gave up
        self.want = 2 * processes
        self.stack = []
        self.put([])

    def put(self, prefix):
        self.queue.put(bytes(d[0] + 2 * d[2] for d in prefix))
        self.waiting.value += 1

    def pop(self, deadline):
        while not self.stack:
            with self.lock:
                if self.waiting.value:
                    self.waiting.value -= 1
                    return [(bool(d & 1), False, bool(d & 2)) for d in self.queue.get()]
                if self.over.value or not self.open.value:
                    return None
            if time.time() > deadline:
                return None
            time.sleep(0.01)
        return self.stack.pop()

    def push(self, prefix):
        with self.lock:
            self.open.value += 1
            # (what waits in the pipe must fit into it)
            if self.waiting.value < self.want and len(prefix) < 40000 // self.want:
                return self.put(prefix)
        self.stack.append(prefix)

    def done(self):
        with self.lock:
            self.open.value -= 1

    def stop(self):
        with self.lock:
            if self.open.value:
                self.over.value = 1

    def unfinished(self):
        return self.open.value > 0


def small_model(c, ob, inputs):
    """A model of the negated goal with small input values, if one is found."""
    s = z3.Solver()
    s.set("timeout", 2500)
    for f in c.facts:
        s.add(f)
    for p in ob.pc:
        s.add(p)
    s.add(z3.Not(ob.goal))
    cons = []
    for name, spec in inputs.items():
        if spec[0] == "int":
            cons.append(z3.And(spec[1] >= -6, spec[1] <= 6))
        elif spec[0] == "real":
            cons.append(z3.And(spec[1] >= -50, spec[1] <= 50))
    s.push()
    for x in cons:
        s.add(x)
    from . import prover

    if prover.checked(s, 2500, model=True) == z3.sat:
        return s.model()
    s.pop()
    return None


def run_concrete(h, values=None, seed=0, tol=1e-6):
    """One concrete execution. Returns (status, env, detail)."""
    rng = _random.Random(seed)
    _np.random.seed(seed % (2**32))
    env = ConcEnv(rng, values, tol)
    import warnings

    try:
        with warnings.catch_warnings(), _np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            h.fn(env)
    except (Discard, Unsupported):
        # failures recorded before the discard still count
        if env.failures:
            return "fail", env, "; ".join(f"{n}: {d}" for n, d in env.failures[:5])
        return "discard", env, ""
    except Exception as e:
        return "exception", env, f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
    finally:
        for obj, name, old in reversed(env.patches):
            setattr(obj, name, old)
    if env.failures:
        return "fail", env, "; ".join(f"{n}: {d}" for n, d in env.failures[:5])
    return "ok", env, ""

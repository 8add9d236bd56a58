"""numpy functions for the symbolic stand-in (see symnp)."""
import builtins
import math as _math
import operator

import numpy as _np

from . import core
from . import symnp as S
from .core import (
    SBool,
    SNum,
    Sym,
    Unsupported,
    b_and,
    b_not,
    b_or,
    ctx,
    is_num,
    isnumlike,
    lift,
    mkbool,
    numval,
    s_ite,
    to_real,
    z3,
    zb,
)
from .symnp import (
    B1,
    CArr,
    F8,
    I8,
    OB,
    SArr,
    _array,
    _boole,
    _is_arraylike,
    _item,
    _obj,
    cast_scalar,
    concrete,
    dim,
    dims_eq_syntactic,
    dims_same,
    dt_of,
    elementwise,
    elementwise2,
    kind_of,
    ndarray,
    s_isfinite,
    s_isinf,
    s_isnan,
    s_lnot,
    s_truth,
    sop,
    tidx,
    zi,
)

nan, inf = float("nan"), float("inf")
PUBLIC = []


def public(f):
    PUBLIC.append(f.__name__)
    return f


def _shape(s):
    if isinstance(s, ndarray):
        s = [s._get((i,)) for i in range(len(s))]
    if isinstance(s, (tuple, list)):
        out = []
        for x in s:
            if isinstance(x, float) or (isinstance(x, SNum) and x.kind == "f"):
                raise TypeError("'float' object cannot be interpreted as an integer")
            d = dim(x.item() if isinstance(x, ndarray) else x)
            out.append(_nonneg(d))
        return tuple(out)
    if isinstance(s, float) or (isinstance(s, SNum) and s.kind == "f"):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return (_nonneg(dim(s)),)


def _nonneg(d):
    if isinstance(d, int):
        if d < 0:
            raise ValueError("negative dimensions are not allowed")
    elif not ctx().entails(d.e >= 0):
        if bool(core.compare("<", d, 0)):
            raise ValueError("negative dimensions are not allowed")
    return d


def _filled(shape, v, dt):
    shape = _shape(shape)
    v = cast_scalar(_item(v), dt)
    if concrete(shape):
        a = _obj(shape)
        for i in _np.ndindex(*shape):
            a[i] = v
        return CArr(a, dt)
    return SArr.from_fn(lambda idx: v, shape, dt)


@public
def zeros(shape, dtype=None, **k):
    return _filled(shape, 0, F8 if dtype is None else dt_of(dtype))


@public
def ones(shape, dtype=None, **k):
    return _filled(shape, 1, F8 if dtype is None else dt_of(dtype))


@public
def empty(shape, dtype=None, **k):
    dt = F8 if dtype is None else dt_of(dtype)
    shape = _shape(shape)
    if dt.kind == "O":
        return _filled(shape, None, dt)
    # arbitrary contents
    return arbitrary("empty", shape, dt)


@public
def full(shape, fill_value, dtype=None, **k):
    if _is_arraylike(fill_value):
        v = _array(fill_value)
        r = _filled(shape, 0, v.dt if dtype is None else dt_of(dtype))
        r[...] = v
        return r
    dt = kind_of(fill_value) if dtype is None else dt_of(dtype)
    return _filled(shape, fill_value, dt)


@public
def zeros_like(a, dtype=None, **k):
    a = _array(a, copy=False)
    return zeros(a.shape, dtype=a.dt if dtype is None else dtype)


@public
def ones_like(a, dtype=None, **k):
    a = _array(a, copy=False)
    return ones(a.shape, dtype=a.dt if dtype is None else dtype)


@public
def full_like(a, v, dtype=None, **k):
    a = _array(a, copy=False)
    return full(a.shape, v, dtype=a.dt if dtype is None else dtype)


@public
def eye(n, dtype=None, **k):
    r = zeros((n, n), dtype=dtype)
    for i in range(n):
        r[i, i] = 1
    return r


def arbitrary(name, shape, dt=F8, nan_ok=False, inf_ok=False):
    """Array of arbitrary (unconstrained) elements."""
    shape = tuple(dim(d) for d in shape)
    nm = ctx().name(name)
    sort = {"f": z3.RealSort(), "i": z3.IntSort(), "u": z3.IntSort(), "b": z3.BoolSort()}[dt.kind]
    if concrete(shape):
        a = _obj(shape)
        for i in _np.ndindex(*shape):
            t = nm + "".join(f"_{x}" for x in i)
            a[i] = _elem(z3.Const(t, sort), t, dt, nan_ok)
        return CArr(a, dt)
    f = z3.Function(nm, *([z3.IntSort()] * len(shape)), sort)
    fn = z3.Function(nm + "_nan", *([z3.IntSort()] * len(shape)), z3.BoolSort()) if nan_ok else None

    def get(idx):
        ix = [zi(i) for i in idx]
        v = f(*ix)
        if dt.kind == "u":
            ctx().add_fact(v >= 0)
        if dt.kind == "b":
            return SBool(v)
        return SNum(v, fn(*ix) if nan_ok else False)

    r = SArr.from_fn(get, shape, dt)
    r.symname = nm
    return r


def _elem(v, name, dt, nan_ok):
    if dt.kind == "b":
        return SBool(v)
    if dt.kind == "u":
        ctx().add_fact(v >= 0)
    return SNum(v, z3.Bool(name + "_nan") if nan_ok else False)


@public
def arange(*args, dtype=None, **k):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        (start, stop), step = args, 1
    else:
        start, stop, step = args
    start, stop, step = [_item(x.item() if isinstance(x, ndarray) else x) for x in (start, stop, step)]
    start = k.get("start", start)
    isint = builtins.all(kind_of(x).kind in "iub" for x in (start, stop, step))
    dt = dt_of(dtype) if dtype is not None else (I8 if isint else F8)
    if builtins.all(isinstance(x, (int, float)) for x in (start, stop, step)):
        r = _np.arange(start, stop, step)
        return _array(r).astype(dt) if dtype is not None else _array(r)
    if isinstance(step, (int, float)) and step == 0:
        raise ZeroDivisionError
    n = (lift(stop) - start) / step if not isint else None
    if isint:
        st = step if isinstance(step, int) else None
        if st == 1:
            L = lift(lift(stop) - start)
        elif st == -1:
            L = lift(lift(start) - stop)
        elif st is not None and st > 0:
            L = lift((lift(stop) - start + (st - 1)) // st)
        else:
            raise Unsupported("arange with symbolic integer step")
    else:
        L = lift(core.s_trunc(core.s_ceil(n)))
    if not ctx().entails(L.e >= 0):
        L = lift(s_ite(core.compare("<", L, 0), 0, L))
    if isint and isinstance(start, int) and isinstance(step, int) and ctx().entails(z3.And(zi(stop) >= -6, zi(stop) <= 6)):
        # (few cases)
        for v in range(-6, 7):
            if bool(core.compare("==", stop, v)):
                return arange(start, v, step, dtype=dtype)
    d = dim(L)
    if not isinstance(d, int):
        if isint and step == 1 and isinstance(start, int) and start == 0:
            d = dim(lift(s_ite(core.compare("<", stop, 0), 0, stop))) if not ctx().entails(lift(stop).e >= 0) else dim(stop)
    s0, stp = start, step

    def f(idx):
        i = SNum(zi(idx[0]))
        return cast_scalar(_item(lift(s0) + lift(stp) * i) if not (isinstance(s0, int) and s0 == 0 and isinstance(stp, int) and stp == 1) else _item(i), dt)

    if isinstance(d, int):
        return _array([f((i,)) for i in range(d)]).astype(dt) if d else zeros(0, dtype=dt)
    r = SArr.from_fn(f, (d,), dt)
    if isint and step == 1 and isinstance(start, int) and start == 0:
        r.inbounds = d
    return r


@public
def linspace(start, stop, num=50, endpoint=True, **k):
    start, stop = [_item(x.item() if isinstance(x, ndarray) else x) for x in (start, stop)]
    num = dim(num if not isinstance(num, float) else _bad_int())
    if isinstance(num, int) and num < 0:
        raise ValueError("Number of samples must be non-negative")
    div = num - 1 if endpoint else num

    def f(i):
        if isinstance(i, int) and i == 0:
            return cast_scalar(start, F8)
        return cast_scalar(
            _item(lift(start) + (lift(stop) - lift(start)) * lift(i) / lift(div)), F8
        )

    if isinstance(num, int):
        if num == 1:
            return _array([cast_scalar(start, F8)])
        return _array([f(i) for i in range(num)]).astype(F8) if num else zeros(0)
    c = ctx()
    if bool(core.compare("<", num, 0)):
        raise ValueError("Number of samples must be non-negative")
    if endpoint and bool(core.compare("<=", num, 1)):
        if bool(core.compare("==", num, 1)):
            return _array([cast_scalar(start, F8)])
        return zeros(0)
    return SArr.from_fn(lambda idx: f(SNum(zi(idx[0]))), (num,), F8)


def _bad_int():
    raise TypeError("'float' object cannot be interpreted as an integer")


# ---------------------------------------------------------------------------
# Elementwise functions
# ---------------------------------------------------------------------------


def _fdt(x):
    a = _array(x, copy=False) if _is_arraylike(x) else None
    return a.dt if a is not None else kind_of(x)


def _u(fn, x, dt=None, out=None, where=None):
    r = elementwise(fn, [x], dt or F8)
    return r


def _unary(name, fn, out=F8, keepint=False):
    def f(x, *a, **k):
        if x is None:
            raise TypeError("loop of ufunc does not support argument 0 of type NoneType")
        d = out
        if keepint:
            dd = _fdt(x)
            d = dd if dd.kind in "iu" else F8
        return elementwise(fn, [x], d)

    f.__name__ = name
    return public(f)


def _num1(fn):
    def g(x):
        return _item(fn(x))

    return g


sqrt = _unary("sqrt", core.s_sqrt)
sin = _unary("sin", lambda x: core.s_trig("sin", x))
cos = _unary("cos", lambda x: core.s_trig("cos", x))
exp = _unary("exp", core.s_exp)
log = _unary("log", core.s_log)
floor = _unary("floor", lambda x: core.s_floor(x))
ceil = _unary("ceil", lambda x: core.s_ceil(x))
sign = _unary("sign", core.s_sign, keepint=True)
isnan = _unary("isnan", s_isnan, B1)
isinf = _unary("isinf", s_isinf, B1)
isfinite = _unary("isfinite", s_isfinite, B1)
logical_not = _unary("logical_not", s_lnot, B1)
square = _unary("square", lambda x: x * x, keepint=True)


def _tan(x):
    s, c = core.s_trig("sin", x), core.s_trig("cos", x)
    return s / c


tan = _unary("tan", _tan)
tanh = _unary("tanh", lambda x: _un("tanh"))


def _un(n):
    raise Unsupported(n)


def _lazy_trig(n):
    def f(x):
        from . import trig

        return getattr(trig, n)(x)

    return f


arctan = _unary("arctan", _lazy_trig("s_arctan"))
arccos = _unary("arccos", _lazy_trig("s_arccos"))
arcsin = _unary("arcsin", lambda x: S.pi / 2 - _lazy_trig("s_arccos")(x))
deg2rad = _unary("deg2rad", lambda x: lift(x) * (S.pi / 180))
radians = deg2rad
rad2deg = _unary("rad2deg", lambda x: lift(x) * (180 / S.pi))
PUBLIC += ["radians"]


@public
def abs(x, **k):
    d = _fdt(x)
    return elementwise(core.s_abs, [x], d)


absolute = abs
PUBLIC.append("absolute")


@public
def round(x, decimals=0, **k):
    if decimals != 0:
        raise Unsupported("round to decimals")
    d = _fdt(x)
    return elementwise(core.s_round, [x], d)


around = round
PUBLIC += ["around"]


@public
def arctan2(y, x):
    from . import trig

    return elementwise(trig.s_arctan2, [y, x], F8)


def _minmax(fn):
    def f(x, y, **k):
        d = S._res_dt("+", [_fdt(x), _fdt(y)], [x, y])
        return elementwise(lambda a, b: fn(a, b), [x, y], d)

    return f


minimum = _minmax(core.np_min)
maximum = _minmax(core.np_max)
PUBLIC += ["minimum", "maximum"]


@public
def hypot(a, b):
    return sqrt(_array(a) * a + _array(b) * b)


@public
def clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def _bin(op):
    def f(a, b, **k):
        if not _is_arraylike(a) and not _is_arraylike(b):
            return sop(op, _item(a), _item(b))
        if isinstance(a, (list, tuple)):
            a = _array(a)
        if isinstance(b, (list, tuple)):
            b = _array(b)
        return elementwise2(op, a, b)

    return f


class _UFunc:
    def __init__(self, op):
        self.f = _bin(op)
        self.op = op

    def __call__(self, a, b, **k):
        return self.f(a, b)

    def outer(self, a, b):
        a, b = _array(a), _array(b)
        return self.f(a.reshape(tuple(a.shape) + (1,) * b.ndim), b)


add, subtract, multiply, divide = _UFunc("+"), _UFunc("-"), _UFunc("*"), _UFunc("/")
true_divide = divide
floor_divide, mod, power = _UFunc("//"), _UFunc("%"), _UFunc("**")
remainder = mod
less, less_equal, greater, greater_equal = _UFunc("<"), _UFunc("<="), _UFunc(">"), _UFunc(">=")
equal, not_equal = _UFunc("=="), _UFunc("!=")
PUBLIC += """add subtract multiply divide true_divide floor_divide mod remainder power less
less_equal greater greater_equal equal not_equal""".split()


@public
def logical_and(a, b):
    return elementwise(lambda x, y: s_truth(x) & s_truth(y), [a, b], B1)


@public
def logical_or(a, b):
    return elementwise(lambda x, y: s_truth(x) | s_truth(y), [a, b], B1)


@public
def where(cond, *xy):
    if not xy:
        return nonzero(cond)
    x, y = xy
    d = S._res_dt("+", [_fdt(x), _fdt(y)], [x, y])

    def f(c, a, b):
        r = s_ite(_boole(c), a, b)
        return cast_scalar(_item(r), d) if d.kind != "O" else r

    return elementwise(f, [cond, x, y], d)


@public
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = lift(x), lift(y)
        return (core.s_abs(x - y) <= atol + rtol * core.s_abs(y)) | (x == y)

    return elementwise(f, [a, b], B1)


@public
def allclose(a, b, **k):
    return bool(all(isclose(a, b, **k)))


# ---------------------------------------------------------------------------
# Reductions
# ---------------------------------------------------------------------------


def _axis(axis, nd):
    if axis is None:
        return list(range(nd))
    ax = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
    out = []
    for a in ax:
        if not -nd <= a < nd:
            raise S.AxisError(f"axis {a} is out of bounds for array of dimension {nd}")
        out.append(a % nd)
    return out


def reduce_(a, axis, fold, sym, dt, keepdims=False, empty=None):
    """Generic reduction.

    fold(list of elements) for concrete axes; sym(n, f) for one symbolic axis.
    """
    a = _array(a, copy=False)
    axes = _axis(axis, a.ndim)
    rest = [k for k in range(a.ndim) if k not in axes]
    rshape = tuple(a.shape[k] for k in rest)
    rd = a.snapshot()._get if isinstance(a, CArr) else a.reader()
    cax = [k for k in axes if isinstance(a.shape[k], int)]
    sax = [k for k in axes if not isinstance(a.shape[k], int)]
    if len(sax) > 1:
        if axis is None and len(sax) == a.ndim == 2:
            # nested: only for reductions that nest
            inner = reduce_(a, 1, fold, sym, dt)
            return reduce_(inner, None, fold, sym, dt)
        raise Unsupported("reduction over two symbolic axes")

    def at(ridx):
        def elems(extra):
            out = []
            for ci in _np.ndindex(*[a.shape[k] for k in cax]):
                full = [None] * a.ndim
                for k, i in zip(rest, ridx):
                    full[k] = i
                for k, i in zip(cax, ci):
                    full[k] = i
                for k, i in extra.items():
                    full[k] = i
                out.append(rd(tuple(full)))
            return out

        if not sax:
            xs = elems({})
            if not xs and empty is not None:
                return empty()
            return fold(xs)
        k = sax[0]
        if cax:
            return sym(a.shape[k], lambda i: fold(elems({k: i})), True)
        return sym(a.shape[k], lambda i: elems({k: i})[0], False)

    if not rest:
        r = _item(at(()))
        if keepdims:
            return _array([r]).reshape((1,) * a.ndim)
        return r
    if concrete(rshape):
        out = _obj(rshape)
        for i in _np.ndindex(*rshape):
            out[i] = _item(at(i))
        r = CArr(out, dt)
    else:
        r = SArr.from_fn(at, rshape, dt)
    if keepdims:
        r = r.reshape(tuple(1 if k in axes else a.shape[k] for k in range(a.ndim)))
    return r


CANON = [z3.Int(f"canon!{i}") for i in range(6)]


def _body(n, f):
    """Body of a bounded operator at the canonical index, with its depth variable."""
    c = ctx()
    lvl = c.memo.get("canon-depth", 0)
    v = CANON[lvl]
    c.memo["canon-depth"] = lvl + 1
    try:
        return v, f(v)
    finally:
        c.memo["canon-depth"] = lvl


def sym_any(n, f, _nested=False):
    """Exists i in [0, n) with f(i)."""
    c = ctx()
    nt = zi(n)
    v, body = _body(n, f)
    body = _boole(body)
    if core.bval(body) is False:
        return False
    if core.bval(body) is True:
        return mkbool(core._simpb(nt > 0))
    body = core._simpb(body)
    if core.bval(body) is False:
        return False
    # the element is index-independent
    key = ("any", S.core.nkey(n if isinstance(n, int) else nt), body.get_id())
    c.keep.append(body)
    if key not in c.memo:
        b = core.fresh_bool("any")
        k = core.fresh_int("anyk")
        c.memo[key] = b

        def at(i):
            return zb(_boole(f(tidx(i))))

        c.add_fact(z3.Implies(b, z3.And(k >= 0, k < nt, at(k))))
        c.reg_index(nt, k)
        c.reg_forall(nt, lambda i: z3.Implies(at(i), b))
    return mkbool(c.memo[key])


def sym_all(n, f, _nested=False):
    r = sym_any(n, lambda i: mkbool(b_not(_boole(f(i)))))
    return mkbool(b_not(_boole(r)))


def _fold_and(xs):
    r = True
    for x in xs:
        r = b_and(r, _boole(s_truth(x)))
    return mkbool(r)


def _fold_or(xs):
    r = False
    for x in xs:
        r = b_or(r, _boole(s_truth(x)))
    return mkbool(r)


@public
def all(a, axis=None, keepdims=False, **k):
    if not _is_arraylike(a):
        return s_truth(a)
    return reduce_(a, axis, _fold_and, sym_all, B1, keepdims)


@public
def any(a, axis=None, keepdims=False, **k):
    if not _is_arraylike(a):
        return s_truth(a)
    return reduce_(a, axis, _fold_or, sym_any, B1, keepdims)


def _depends(e, v):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        st.extend(x.children())
    return False


def sum_term(n, f):
    """z3 term for sum_{i<n} f(i) with f returning a z3 Real/Int term."""
    from .poly import ATOMS, canon, from_poly, pkey

    c = ctx()
    nt = zi(n)
    v, body = _body(n, f)
    isint = body.sort() == z3.IntSort()
    try:
        p = canon(to_real(body))
    except Unsupported:
        p = None
    groups = {}
    if p is not None and p.den is None:
        for mono, co in p.num.items():
            dep = tuple((a, k) for a, k in mono if _depends(ATOMS[a], v))
            ind = tuple((a, k) for a, k in mono if not _depends(ATOMS[a], v))
            groups.setdefault(dep, {})[ind] = co
    elif p is not None and not builtins.any(_depends(ATOMS[a], v) for m in p.den for a, _ in m):
        # index-free denominator factors out
        den = from_poly(p.den)
        num = from_poly(p.num)
        return core.t_div(sum_term(n, lambda i: z3.substitute(num, (v, i) if not isinstance(i, int) else (v, z3.IntVal(i)))), den)
    else:
        groups = None
    if groups is None:
        return _sum_atom(nt, v, to_real(body), f, ("raw", body.get_id()), False)
    tot = z3.RealVal(0)
    for dep, ind in groups.items():
        coef = from_poly(ind)
        if not dep:
            tot = core.t_add(tot, core.t_mul(coef, core.to_real(nt)))
            continue
        m = from_poly({dep: 1})
        s = _sum_atom(nt, v, m, None, ("m", pkey({dep: 1})), True)
        tot = core.t_add(tot, core.t_mul(coef, s))
    if isint and len(groups) <= 1 and False:
        return tot
    return tot


def _sum_atom(nt, v, body, f, key, sub):
    c = ctx()
    k = ("sum", z3.simplify(nt).get_id(), key)
    c.keep.append(z3.simplify(nt))
    c.keep.append(body)
    if k in c.memo:
        return c.memo[k]
    s = core.fresh_real("sum")
    c.memo[k] = s

    def at(i):
        i = i if not isinstance(i, int) else z3.IntVal(i)
        return z3.substitute(body, (v, i))

    w1, w2 = core.fresh_int("sumneg"), core.fresh_int("sumpos")
    neg = z3.And(w1 >= 0, w1 < nt, at(w1) < 0)
    pos = z3.And(w2 >= 0, w2 < nt, at(w2) > 0)
    c.reg_index(nt, w1)
    c.reg_index(nt, w2)
    c.add_fact(z3.Implies(nt <= 0, s == 0))
    c.add_fact(z3.Implies(s < 0, neg))
    c.add_fact(z3.Implies(s > 0, pos))
    c.add_fact(z3.Implies(nt == 1, s == at(z3.IntVal(0))))
    # a term never exceeds the sum unless a negative term exists
    c.reg_forall(nt, lambda i: z3.Or(s >= at(i), neg))
    c.reg_forall(nt, lambda i: z3.Implies(z3.Not(neg), at(i) >= 0))
    c.memo.setdefault("sum-atoms", []).append((s, nt, at))
    return s


def sym_sum(n, f, _nested=False):
    c = ctx()
    v, body = _body(n, f)
    kd = kind_of(body)
    if kd.kind == "b":
        # counting: 0..n, relation with any/all
        g = lambda i: _boole(f(i))  # noqa: E731
        return _count(n, g)
    L = lift(body)
    nanb = False
    if core.bval(L.nan) is not False:
        nanb = _boole(sym_any(n, lambda i: mkbool(lift(f(i)).nan)))
    if type(L.inf) is not int:
        raise Unsupported("sum of possibly infinite values")
    t = sum_term(n, lambda i: lift(f(i)).e)
    if L.kind == "i":
        k = ("sumint", t.get_id())
        c.keep.append(t)
        if k not in c.memo:
            z = core.fresh_int("isum")
            c.add_fact(z3.ToReal(z) == t)
            c.memo[k] = z
        return SNum(c.memo[k])
    return SNum(t, nanb)


def _count(n, g):
    c = ctx()
    m = SArr.from_fn(lambda idx: mkbool(g(idx[0])), (n,), B1)
    sel = S.get_sel(m)
    return SNum(sel.m)


def _fold_sum(xs):
    if not xs:
        return 0
    r = xs[0]
    if kind_of(r).kind == "b":
        r = SNum(z3.If(r.e, z3.IntVal(1), z3.IntVal(0))) if isinstance(r, SBool) else int(r)
    for x in xs[1:]:
        if isinstance(x, SBool):
            x = x.num()
        r = sop("+", _item(r), int(x) if isinstance(x, bool) else _item(x))
    return r


@public
def sum(a, axis=None, keepdims=False, dtype=None, **k):
    if not _is_arraylike(a):
        return a
    a = _array(a, copy=False)
    d = a.dt if a.dt.kind in "fO" else I8
    z = 0.0 if d.kind == "f" else 0
    return reduce_(a, axis, _fold_sum, sym_sum, d, keepdims, empty=lambda: z)


def _nelems(a, axis):
    r = 1
    for k in _axis(axis, a.ndim):
        r = r * a.shape[k]
    return r


@public
def mean(a, axis=None, keepdims=False, **k):
    if not _is_arraylike(a):
        return cast_scalar(a, F8)
    a = _array(a, copy=False)
    return sum(a, axis=axis, keepdims=keepdims) / _item(_nelems(a, axis))


@public
def var(a, axis=None, ddof=0, keepdims=False, **k):
    a = _array(a, copy=False)
    m = mean(a, axis=axis, keepdims=True)
    d = a - m
    return sum(d * d, axis=axis, keepdims=keepdims) / _item(_nelems(a, axis) - ddof)


@public
def std(a, axis=None, ddof=0, keepdims=False, **k):
    return sqrt(var(a, axis=axis, ddof=ddof, keepdims=keepdims))


@public
def prod(a, axis=None, **k):
    a = _array(a, copy=False)

    def fold(xs):
        r = 1
        for x in xs:
            r = r * x
        return r

    def sym(n, f, nested):
        raise Unsupported("product over a symbolic axis")

    return reduce_(a, axis, fold, sym, a.dt)


def _ext(kind, skipnan):
    """min/max reductions."""
    less_ = (lambda x, y: core.compare("<=", x, y)) if kind == "min" else (lambda x, y: core.compare("<=", y, x))

    def fold(xs):
        if not xs:
            raise ValueError("zero-size array to reduction operation which has no identity")
        r = lift(xs[0])
        for x in xs[1:]:
            x = lift(x)
            if skipnan:
                nb = s_ite(mkbool(r.nan), x, s_ite(mkbool(x.nan), r, s_ite(less_(r, x), r, x)))
                r = lift(nb)
            else:
                r = core.np_min(r, x) if kind == "min" else core.np_max(r, x)
        return r

    def sym(n, f, nested):
        c = ctx()
        nt = zi(n)
        if bool(core.compare("<=", n, 0)):
            raise ValueError("zero-size array to reduction operation which has no identity")
        v, body = _body(n, f)
        L = lift(body)
        key = (kind, skipnan, core.nkey(nt), L.e.get_id(), None if core.bval(L.nan) is not None else L.nan.get_id())
        c.keep += [L.e, zb(L.nan)]
        if type(L.inf) is not int:
            raise Unsupported("min/max of possibly infinite values")
        if key not in c.memo:
            r = core.fresh_int(kind) if L.kind == "i" else core.fresh_real(kind)
            k = core.fresh_int(kind + "k")

            def at(i):
                return lift(f(tidx(i)))

            nanb = False
            if core.bval(L.nan) is not False:
                if skipnan:
                    nanb = _boole(sym_all(n, lambda i: mkbool(at(i).nan)))
                else:
                    nanb = _boole(sym_any(n, lambda i: mkbool(at(i).nan)))
            ak = at(k)
            c.add_fact(z3.And(k >= 0, k < nt))
            c.add_fact(z3.Implies(zb(b_not(nanb)), z3.And(r == ak.e, zb(b_not(ak.nan)))))

            def q(i):
                x = at(i)
                return z3.Implies(zb(b_not(b_or(nanb, x.nan))), r <= x.e if kind == "min" else r >= x.e)

            c.reg_forall(nt, q)
            c.reg_index(nt, k)
            c.memo[key] = (r, nanb)
        r, nanb = c.memo[key]
        return SNum(r, nanb)

    def f(a, axis=None, keepdims=False, **k):
        if not _is_arraylike(a):
            return a
        a = _array(a, copy=False)
        return reduce_(a, axis, fold, sym, a.dt, keepdims)

    return f


min, max = _ext("min", False), _ext("max", False)
nanmin, nanmax = _ext("min", True), _ext("max", True)
amin, amax = min, max
PUBLIC += ["min", "max", "nanmin", "nanmax", "amin", "amax"]


@public
def ptp(a, axis=None):
    return max(a, axis=axis) - min(a, axis=axis)


@public
def nansum(a, axis=None, **k):
    a = _array(a, copy=False)
    return sum(where(isnan(a), 0.0, a), axis=axis)


@public
def nanmean(a, axis=None, **k):
    a = _array(a, copy=False)
    ok = ~isnan(a)
    return sum(where(ok, a, 0.0), axis=axis) / sum(ok, axis=axis)


def _arg(kind, skipnan=False):
    better = (lambda x, y: core.compare("<", x, y)) if kind == "min" else (lambda x, y: core.compare("<", y, x))

    def fold(xs):
        if not xs:
            raise ValueError("attempt to get argmax of an empty sequence")
        xs = [SNum(x.us) if hasattr(x, "us") else x for x in xs]
        k = 0
        r = xs[0]
        for j, x in enumerate(xs[1:], 1):
            if kind_of(x).kind == "b":
                x = SBool(x.e).num() if isinstance(x, SBool) else int(x)
            if kind_of(r).kind == "b":
                r = SBool(r.e).num() if isinstance(r, SBool) else int(r)
            c = better(x, r)
            lr, lx = lift(r), lift(x)
            if skipnan:
                c = mkbool(b_and(b_not(lx.nan), b_or(_boole(c), lr.nan)))
            elif core.bval(lr.nan) is not False or core.bval(lx.nan) is not False:
                # the first NaN wins
                c = mkbool(b_and(b_not(lr.nan), b_or(_boole(c), lx.nan)))
            k = s_ite(c, j, k)
            r = s_ite(c, x, r)
        if skipnan:
            if bool(mkbool(lift(r).nan)):
                raise ValueError("All-NaN slice encountered")
        return k

    def sym(n, f, nested):
        c = ctx()
        nt = zi(n)
        if bool(core.compare("<=", n, 0)):
            raise ValueError("attempt to get argmax of an empty sequence")

        def at(i):
            x = f(tidx(i))
            if kind_of(x).kind == "b":
                x = SBool(x.e).num() if isinstance(x, SBool) else int(x)
            return lift(x)

        v, body = _body(n, at)
        key = ("arg", kind, skipnan, core.nkey(nt), body.e.get_id())
        c.keep.append(body.e)
        if core.bval(body.nan) is not False:
            raise Unsupported("argmin/argmax over values that may be NaN")
        if key not in c.memo:
            k = core.fresh_int("arg")
            c.memo[key] = k
            ak = at(k)
            c.add_fact(z3.And(k >= 0, k < nt))

            def q(i):
                x = at(i)
                le = core.compare("<=", ak, x) if kind == "min" else core.compare("<=", x, ak)
                lt = core.compare("<", ak, x) if kind == "min" else core.compare("<", x, ak)
                return z3.And(zb(_boole(le)), z3.Implies(i < k, zb(_boole(lt))))

            c.reg_forall(nt, q)
            c.reg_index(nt, k)
        return SNum(c.memo[key])

    def f(a, axis=None, **k):
        a = _array(a, copy=False)
        if a.ndim == 0:
            return 0
        if axis is None and a.ndim > 1:
            a = a.ravel()
        return reduce_(a, axis, fold, sym, I8)

    return f


argmin, argmax = _arg("min"), _arg("max")
nanargmin, nanargmax = _arg("min", True), _arg("max", True)
PUBLIC += ["argmin", "argmax", "nanargmin", "nanargmax"]


@public
def count_nonzero(a, axis=None, **k):
    a = _array(a, copy=False)
    b = elementwise(s_truth, [a], B1)
    return sum(b, axis=axis)


@public
def cumsum(a, axis=None, **k):
    a = _array(a, copy=False)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    n = a.shape[axis]
    d = a.dt if a.dt.kind == "f" else I8
    if not isinstance(n, int):
        if a.ndim != 1:
            raise Unsupported("cumsum over symbolic axis of 2-d array")
        return _sym_cumsum(a, d)
    rd = a.snapshot()._get if isinstance(a, CArr) else a.reader()

    def f(idx):
        j = idx[axis]
        if not isinstance(j, int):
            raise Unsupported("cumsum index")
        return _fold_sum([rd(idx[:axis] + (t,) + idx[axis + 1 :]) for t in range(j + 1)])

    if isinstance(a, CArr):
        out = _obj(a.shape)
        for i in _np.ndindex(*a.shape):
            out[i] = _item(f(i))
        return CArr(out, d)
    if concrete(a.shape):
        out = _obj(a.shape)
        for i in _np.ndindex(*a.shape):
            out[i] = _item(f(i))
        return CArr(out, d)
    base = SArr.from_fn(f, a.shape, d)
    return base


def _sym_cumsum(a, d):
    """Prefix sums of a symbolic-length array: fresh function with its recurrence."""
    c = ctx()
    rd = a.reader()
    n = zi(a.shape[0])
    v, body = _body(a.shape[0], lambda i: rd((i,)))
    L = lift(body)
    if core.bval(L.nan) is not False or type(L.inf) is not int:
        raise Unsupported("cumsum of possibly non-finite values")
    key = ("cumsum", core.nkey(n), L.e.get_id())
    c.keep.append(L.e)
    if key not in c.memo:
        isint = d.kind != "f"
        fn = z3.Function(c.name("cumsum"), z3.IntSort(), z3.IntSort() if isint else z3.RealSort())
        tot = sym_sum(a.shape[0], lambda i: rd((i,)))
        c.memo[key] = fn

        def el(i):
            x = lift(rd((tidx(i),)))
            return x.e if isint else to_real(x.e)

        w = core.fresh_int("csneg")
        negw = z3.And(w >= 0, w < n, el(w) < 0)
        c.reg_index(n, w)

        def q(i):
            parts = [z3.If(i > 0, fn(i) == fn(i - 1) + el(i), fn(i) == el(i))]
            te = lift(tot).e
            if te.sort() != fn(i).sort():
                parts.append(z3.Implies(i == n - 1, to_real(fn(i)) == to_real(te)))
                parts.append(z3.Or(negw, to_real(fn(i)) <= to_real(te)))
            else:
                parts.append(z3.Implies(i == n - 1, fn(i) == te))
                parts.append(z3.Or(negw, fn(i) <= te))
            parts.append(z3.Or(negw, fn(i) >= el(i)))
            parts.append(z3.Or(negw, z3.And(el(i) >= 0, fn(i) >= 0)))
            return z3.And(*parts)

        c.reg_forall(n, q)
        c.memo[("cumsum-info", fn.name())] = (n, negw, el)
    fn = c.memo[key]
    seen = c.memo.setdefault(("cumsum-idx", fn.name()), [])

    def get(idx):
        i = zi(idx[0])
        c2 = ctx()
        if not builtins.any(i.eq(j) for j in seen):
            c2.reg_index(n, i)
            _, negw, el = c2.memo[("cumsum-info", fn.name())]
            for j in seen:
                rng = z3.And(i >= 0, i < n, j >= 0, j < n)
                c2.add_fact(
                    z3.Implies(rng, z3.Or(negw, z3.And(z3.Implies(i <= j, fn(i) <= fn(j)), z3.Implies(j <= i, fn(j) <= fn(i)),
                                                          z3.Implies(i < j, fn(i) <= fn(j) - el(j)), z3.Implies(j < i, fn(j) <= fn(i) - el(i)))))
                )
            seen.append(i)
        return SNum(fn(i))

    return SArr.from_fn(get, a.shape, d)


@public
def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = _array(a, copy=False)
    if prepend is not None or append is not None:
        parts = ([_atleast(prepend, a)] if prepend is not None else []) + [a] + ([_atleast(append, a)] if append is not None else [])
        a = concatenate(parts, axis=axis)
    if n != 1:
        raise Unsupported("diff order")
    axis %= a.ndim
    k1 = [slice(None)] * a.ndim
    k2 = [slice(None)] * a.ndim
    k1[axis], k2[axis] = slice(1, None), slice(None, -1)
    x, y = a[tuple(k1)], a[tuple(k2)]
    if a.dt.kind == "b":
        return x != y
    return x - y


def _atleast(v, a):
    v = _array(v, copy=False)
    return v.reshape((1,)) if v.ndim == 0 else v


@public
def gradient(*a, **k):
    raise Unsupported("gradient")


@public
def dot(a, b):
    return matmul(a, b)


def _stacked_matmul(a, b):
    if not (concrete(a.shape) and concrete(b.shape)):
        raise Unsupported("stacked matmul of symbolic shape")
    a, b = [x if isinstance(x, CArr) else S._force_c(x, x.shape) for x in (a, b)]
    x = a.a[None, :] if a.ndim == 1 else a.a
    y = b.a[:, None] if b.ndim == 1 else b.a
    if x.shape[-1] != y.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    lead = _np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
    x = _np.broadcast_to(x, lead + x.shape[-2:])
    y = _np.broadcast_to(y, lead + y.shape[-2:])
    out = _obj(lead + (x.shape[-2], y.shape[-1]))
    for i in _np.ndindex(*out.shape):
        t = 0
        for k in range(x.shape[-1]):
            t = t + lift(x[i[:-1] + (k,)]) * lift(y[i[:-2] + (k, i[-1])])
        out[i] = t
    if a.ndim == 1:
        out = out[..., 0, :]
    if b.ndim == 1:
        out = out[..., 0]
    return CArr(out, F8 if F8 in (a.dt, b.dt) else I8)


@public
def matmul(a, b):
    a, b = _array(a, copy=False), _array(b, copy=False)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    ra = a.snapshot()._get if isinstance(a, CArr) else a.reader()
    rb = b.snapshot()._get if isinstance(b, CArr) else b.reader()
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a.ndim > 2 or b.ndim > 2:
        return _stacked_matmul(a, b)
    K, K2 = a.shape[-1], b.shape[0]
    if not dims_eq_syntactic(K, K2) and not dims_same(K, K2):
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension")
    if not isinstance(K, int) and isinstance(K2, int):
        K = K2
    shape = (() if a1 else (a.shape[0],)) + (() if b1 else (b.shape[1],))
    d = S._res_dt("*", [a.dt, b.dt], [a, b])

    def at(idx):
        i = () if a1 else (idx[0],)
        j = () if b1 else (idx[-1],)
        if isinstance(K, int):
            return _fold_sum([sop("*", _item(ra(i + (k,))), _item(rb((k,) + j))) for k in range(K)]) if K else 0.0
        return sym_sum(K, lambda k: sop("*", _item(ra(i + (k,))), _item(rb((k,) + j))))

    if shape == ():
        return _item(at(()))
    if concrete(shape):
        out = _obj(shape)
        for i in _np.ndindex(*shape):
            out[i] = _item(at(i))
        return CArr(out, d)
    return SArr.from_fn(at, shape, d)


@public
def outer(a, b):
    a, b = _array(a).ravel(), _array(b).ravel()
    return a[:, None] * b


@public
def cross(a, b):
    a, b = _array(a), _array(b)
    return _array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


@public
def average(a, axis=None, weights=None, **k):
    a = _array(a, copy=False)
    if weights is None:
        return mean(a, axis=axis)
    w = _array(weights, copy=False)
    if a.ndim != w.ndim or not builtins.all(dims_eq_syntactic(x, y) for x, y in zip(a.shape, w.shape)):
        if a.ndim == w.ndim:
            for x, y in zip(a.shape, w.shape):
                if not dims_same(x, y):
                    raise TypeError("Axis must be specified when shapes of a and weights differ.")
        else:
            if axis is None:
                raise TypeError("Axis must be specified when shapes of a and weights differ.")
            if w.ndim != 1:
                raise TypeError("1D weights expected when shapes of a and weights differ.")
            if not dims_same(w.shape[0], a.shape[axis]):
                raise ValueError("Length of weights not compatible with specified axis.")
            w = w.reshape(tuple(-1 if kk == axis % a.ndim else 1 for kk in range(a.ndim)))
    scl = sum(w, axis=axis if w.ndim == 1 or a.ndim == 1 or builtins.all(dims_eq_syntactic(x, y) for x, y in zip(a.shape, w.shape)) else axis)
    if isinstance(scl, ndarray) and scl.ndim and builtins.all(isinstance(x, int) and x == 1 for x in scl.shape):
        scl = scl.item()
    if bool(any(_array(scl) == 0.0) if isinstance(scl, ndarray) else core.compare("==", lift(scl), 0)):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return sum(a * w, axis=axis) / scl


@public
def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None):
    X = _array(m, copy=False)
    if X.ndim == 1:
        X = X.reshape(1, -1)
    elif not rowvar:
        X = X.T
    if y is not None or fweights is not None:
        raise Unsupported("cov arguments")
    if ddof is None:
        ddof = 0 if bias else 1
    n = X.shape[1]
    if aweights is None:
        wsum = n
        avg = mean(X, axis=1)
        fact = n - ddof
        Y = X - avg[:, None]
        c = matmul(Y, Y.T)
    else:
        w = _array(aweights, copy=False)
        if bool(any(w < 0)):
            raise ValueError("aweights cannot be negative")
        wsum = sum(w)
        avg = average(X, axis=1, weights=w)
        if ddof == 0:
            fact = wsum
        else:
            fact = wsum - ddof * sum(w * w) / wsum
        Y = X - avg[:, None]
        c = matmul(Y, (Y * w).T)
    r = c / fact
    if isinstance(r, ndarray):
        r = r.squeeze() if builtins.all(isinstance(x, int) and x == 1 for x in r.shape) else r
        return r if isinstance(r, ndarray) else _array(r)
    return r


# ---------------------------------------------------------------------------
# Shape manipulation
# ---------------------------------------------------------------------------


@public
def atleast_1d(*xs):
    out = []
    for x in xs:
        x = _array(x, copy=False)
        out.append(x.reshape((1,)) if x.ndim == 0 else x)
    return out[0] if len(out) == 1 else out


@public
def atleast_2d(*xs):
    out = []
    for x in xs:
        x = _array(x, copy=False)
        if x.ndim == 0:
            x = x.reshape((1, 1))
        elif x.ndim == 1:
            x = x[None, :]
        out.append(x)
    return out[0] if len(out) == 1 else out


@public
def atleast_3d(*xs):
    out = []
    for x in xs:
        x = _array(x, copy=False)
        if x.ndim == 0:
            x = x.reshape((1, 1, 1))
        elif x.ndim == 1:
            x = x[None, :, None]
        elif x.ndim == 2:
            x = x[:, :, None]
        out.append(x)
    return out[0] if len(out) == 1 else out


@public
def reshape(a, s, **k):
    return _array(a, copy=False).reshape(s)


@public
def ravel(a, **k):
    return _array(a, copy=False).ravel()


@public
def squeeze(a, axis=None):
    return _array(a, copy=False).squeeze(axis=axis)


@public
def transpose(a, *ax):
    return _array(a, copy=False).transpose(*ax)


@public
def expand_dims(a, axis):
    a = _array(a, copy=False)
    nd = a.ndim + (1 if not isinstance(axis, tuple) else len(axis))
    axs = [x % nd for x in ((axis,) if not isinstance(axis, tuple) else axis)]
    key = tuple(None if k in axs else slice(None) for k in range(nd))
    return a[key]


@public
def shape(a):
    return _array(a, copy=False).shape


@public
def size(a, axis=None):
    a = _array(a, copy=False)
    return a.size if axis is None else a.shape[axis]


@public
def ndim(a):
    return _array(a, copy=False).ndim


@public
def copy(a, **k):
    return _array(a)


@public
def broadcast_to(a, shape):
    a = _array(a, copy=False)
    z = zeros(shape, dtype=a.dt)
    return where(zeros(shape, dtype=bool), z, a) if False else elementwise(lambda x, y: y, [z, a], a.dt)


@public
def concatenate(arrs, axis=0, **k):
    if axis is None:
        arrs = [_array(x, copy=False).ravel() for x in arrs]
        axis = 0
    arrs = [_array(x, copy=False) for x in arrs]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    if builtins.any(a.ndim == 0 for a in arrs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    nd = arrs[0].ndim
    if builtins.any(a.ndim != nd for a in arrs):
        raise ValueError("all the input array dimensions must match exactly")
    if not -nd <= axis < nd:
        raise S.AxisError(f"axis {axis} is out of bounds for array of dimension {nd}")
    axis %= nd
    d = S._common_dt([a.dt for a in arrs])
    for a in arrs[1:]:
        for kx in range(nd):
            if kx != axis and not dims_eq_syntactic(a.shape[kx], arrs[0].shape[kx]) and not dims_same(a.shape[kx], arrs[0].shape[kx]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    if builtins.all(isinstance(a, CArr) for a in arrs):
        r = CArr(_np.concatenate([a.a for a in arrs], axis=axis), d)
        return S._recast(r, d)
    readers = [a.snapshot()._get if isinstance(a, CArr) else a.reader() for a in arrs]
    offs = [0]
    for a in arrs:
        offs.append(dim(lift(offs[-1] + a.shape[axis])))
    shp = list(arrs[0].shape)
    for a in arrs:
        shp = [x if isinstance(x, int) else y for x, y in zip(shp, a.shape)]
    shp[axis] = offs[-1]

    def f(idx):
        i = idx[axis]
        r = None
        # from last to first
        for kx in range(len(arrs) - 1, -1, -1):
            nk = arrs[kx].shape[axis]
            if isinstance(nk, int) and nk == 0:
                continue
            off = offs[kx]
            if isinstance(i, int) and isinstance(off, int):
                j = i - off
                if isinstance(nk, int) and not 0 <= j < nk:
                    continue
                if j < 0:
                    continue
            else:
                j = tidx(zi(i) - zi(off))
            if isinstance(j, int) and isinstance(nk, int) and not 0 <= j < nk:
                continue
            # out-of-range parts are masked by the selection below
            val = None
            if r is None:
                val = readers[kx](idx[:axis] + (j,) + idx[axis + 1 :])
                r = cast_scalar(_item(val), d)
            else:
                nxt = offs[kx + 1]
                cond = core._simpb(zi(i) < zi(nxt)) if not (isinstance(i, int) and isinstance(nxt, int)) else i < nxt
                if core.bval(cond) is False:
                    continue
                val = readers[kx](idx[:axis] + (j,) + idx[axis + 1 :])
                r = s_ite(cond, cast_scalar(_item(val), d), r)
        if r is None:
            return cast_scalar(0, d)
        return r

    return SArr.from_fn(f, tuple(shp), d)


@public
def stack(arrs, axis=0, **k):
    arrs = [_array(x, copy=False) for x in arrs]
    if not arrs:
        raise ValueError("need at least one array to stack")
    nd = arrs[0].ndim
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError("all input arrays must have the same shape")
        for x, y in zip(a.shape, arrs[0].shape):
            if not dims_eq_syntactic(x, y) and not dims_same(x, y):
                raise ValueError("all input arrays must have the same shape")
    return concatenate([expand_dims(a, axis) for a in arrs], axis=axis)


@public
def vstack(arrs, **k):
    arrs = [atleast_2d(a) for a in arrs]
    return concatenate(arrs, axis=0)


row_stack = vstack
PUBLIC.append("row_stack")


@public
def hstack(arrs, **k):
    arrs = [atleast_1d(a) for a in arrs]
    if arrs and arrs[0].ndim == 1:
        return concatenate(arrs, axis=0)
    return concatenate(arrs, axis=1)


@public
def column_stack(arrs, **k):
    if not isinstance(arrs, (tuple, list, ndarray)):
        raise TypeError('arrays to stack must be passed as a "sequence" type')
    out = []
    for a in arrs:
        a = _array(a, copy=False)
        if a.ndim < 2:
            a = a.reshape(1, 1) if a.ndim == 0 else a[:, None]
        out.append(a)
    return concatenate(out, axis=1)


@public
def dstack(arrs, **k):
    if not isinstance(arrs, (tuple, list, ndarray)):
        raise TypeError('arrays to stack must be passed as a "sequence" type')
    return concatenate([atleast_3d(a) for a in arrs], axis=2)


@public
def repeat(a, n, axis=None):
    a = _array(a, copy=False)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    if _is_arraylike(n):
        m = _array(n, copy=False)
        if isinstance(m, CArr) and m.a.size == 1:
            n = m.item()
        else:
            return _repeat_arr(a, m, axis)
    n = _item(n)
    if isinstance(n, float) or (isinstance(n, SNum) and n.kind == "f"):
        raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
    n = dim(n)
    if isinstance(n, int) and n == 1:
        return a.copy()
    if isinstance(n, int) and isinstance(a, CArr):
        return CArr(_np.repeat(a.a, n, axis=axis), a.dt)
    if a.shape[axis] == 1 and isinstance(a.shape[axis], int):
        rd = a.snapshot()._get if isinstance(a, CArr) else a.reader()
        shp = a.shape[:axis] + (_nonneg(n),) + a.shape[axis + 1 :]
        return SArr.from_fn(lambda idx: rd(idx[:axis] + (0,) + idx[axis + 1 :]), shp, a.dt)
    rd = a.snapshot()._get if isinstance(a, CArr) else a.reader()
    shp = a.shape[:axis] + (dim(lift(a.shape[axis] * n)),) + a.shape[axis + 1 :]
    return SArr.from_fn(
        lambda idx: rd(idx[:axis] + (tidx(core.int_floordiv(zi(idx[axis]), zi(n))),) + idx[axis + 1 :]),
        shp,
        a.dt,
    )


def _repeat_arr(a, m, axis):
    if a.ndim != 1:
        if isinstance(m, CArr):
            m = _array([operator.index(_force_int(x)) for x in m.a])
            return CArr(_np.repeat(a.a, m.a.astype(int), axis=axis), a.dt)
        raise Unsupported("repeat with symbolic repetitions")
    if m.dt.kind == "f":
        raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
    if not dims_same(a.shape[0], m.shape[0]):
        raise ValueError("operands could not be broadcast together")
    if isinstance(a, CArr) and isinstance(m, CArr):
        out = []
        for x, r in zip(a.a, m.a):
            out += [x] * _force_int(r)
        return _array(out).astype(a.dt) if out else zeros(0, dtype=a.dt)
    raise Unsupported("repeat with symbolic repetitions")


def _force_int(x, limit=64):
    """Concrete value of a bounded symbolic integer by forking."""
    if isinstance(x, int):
        return x
    x = lift(x)
    for k in range(limit):
        if bool(core.compare("==", x, k)):
            return k
        if k and bool(core.compare("==", x, -k)):
            return -k
    raise Unsupported("unbounded symbolic integer made concrete")


@public
def tile(a, reps):
    a = _array(a, copy=False)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = tuple(dim(r) for r in reps)
    nd = builtins.max(a.ndim, len(reps))
    reps = (1,) * (nd - len(reps)) + reps
    a = a.reshape((1,) * (nd - a.ndim) + tuple(a.shape)) if a.ndim < nd else a
    if isinstance(a, CArr) and builtins.all(isinstance(r, int) for r in reps):
        return CArr(_np.tile(a.a, reps), a.dt)
    rd = a.snapshot()._get if isinstance(a, CArr) else a.reader()
    shp = tuple(dim(lift(d * r)) for d, r in zip(a.shape, reps))

    def f(idx):
        out = []
        for i, d, r in zip(idx, a.shape, reps):
            if isinstance(d, int) and d == 1:
                out.append(0)
            elif isinstance(r, int) and r == 1:
                out.append(i)
            else:
                out.append(tidx(zi(i) - zi(d) * core.int_floordiv(zi(i), zi(d))))
        return rd(tuple(out))

    return SArr.from_fn(f, shp, a.dt)


@public
def meshgrid(*xs, indexing="xy", **k):
    if indexing != "xy" or len(xs) != 2:
        raise Unsupported("meshgrid")
    x, y = [_array(v, copy=False).ravel() for v in xs]
    shp = (y.shape[0], x.shape[0])
    zx = elementwise(lambda a, b: a, [x[None, :], y[:, None]], x.dt)
    zy = elementwise(lambda a, b: b, [x[None, :], y[:, None]], y.dt)
    return [zx, zy]


@public
def flip(a, axis=None):
    a = _array(a, copy=False)
    axes = _axis(axis, a.ndim)
    return a[tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(a.ndim))]


@public
def fliplr(a):
    return _array(a, copy=False)[:, ::-1]


@public
def flipud(a):
    return _array(a, copy=False)[::-1]


@public
def append(a, v, axis=None):
    a, v = _array(a, copy=False), _array(v, copy=False)
    if axis is None:
        return concatenate([a.ravel(), v.ravel()])
    return concatenate([a, v], axis=axis)


def _cidx(i, n):
    i = S._cint(i)
    if not isinstance(i, int):
        raise Unsupported("symbolic position")
    return i


@public
def insert(a, obj, values, axis=None):
    a = _array(a, copy=False)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    n = a.shape[axis]
    pre = (slice(None),) * axis
    if not _is_arraylike(obj):
        i = _item(obj)
        if isinstance(i, int) and i < 0:
            i = n + i
        v = _array(values, copy=False)
        if a.ndim == 1:
            v = v.reshape(-1)
        elif v.ndim == 0:
            v = full(tuple(1 if k == axis else s for k, s in enumerate(a.shape)), v.item(), dtype=a.dt)
        elif v.ndim < a.ndim:
            v = expand_dims(v, axis)
        return concatenate([a[pre + (slice(None, i),)], v.astype(a.dt), a[pre + (slice(i, None),)]], axis=axis)
    o = _array(obj, copy=False)
    if a.ndim == 1 and isinstance(o, CArr) and isinstance(a, CArr):
        pos = [_force_int(x) for x in o.a.reshape(-1)]
        v = _array(values, copy=False)
        vs = list(_np.broadcast_to(v.a.reshape(-1), (len(pos),)))
        r = _np.insert(_np.arange(n), pos, [-1 - j for j in range(len(pos))])
        out = [a.a[k] if k >= 0 else cast_scalar(vs[-1 - k], a.dt) for k in r]
        return CArr(_mk(out), a.dt)
    if isinstance(a, CArr) and isinstance(o, CArr):
        pos = [_force_int(x) for x in o.a.reshape(-1)]
        v = _array(values, copy=False)
        r = _np.insert(_np.arange(n), pos, [-1 - j for j in range(len(pos))])
        va = _np.moveaxis(_np.broadcast_to(v.a, tuple(len(pos) if k == axis else s for k, s in enumerate(a.shape))), axis, 0)
        aa = _np.moveaxis(a.a, axis, 0)
        out = _np.stack([aa[k] if k >= 0 else va[-1 - k] for k in r])
        return CArr(_np.moveaxis(out, 0, axis), a.dt).astype(a.dt)
    raise Unsupported("insert at symbolic positions")


def _mk(items):
    a = _obj(len(items))
    for i, v in enumerate(items):
        a[i] = v
    return a


@public
def delete(a, obj, axis=None):
    a = _array(a, copy=False)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    n = a.shape[axis]
    if isinstance(obj, (int, SNum)) and not isinstance(obj, bool):
        i = S._chk_index(obj, n)
        pre = (slice(None),) * axis
        i = SNum(i) if not isinstance(i, int) else i
        return concatenate([a[pre + (slice(None, i),)], a[pre + (slice(i + 1, None),)]], axis=axis)
    if isinstance(obj, slice):
        raise Unsupported("delete slice")
    o = _array(obj, copy=False)
    if o.dt.kind == "b":
        m = ~o
    else:
        if isinstance(o, CArr) and isinstance(n, int):
            drop = set()
            for x in o.a.reshape(-1):
                x = _force_int(x)
                drop.add(x + n if x < 0 else x)
            keep = [k for k in range(n) if k not in drop]
            return take(a, _array(keep, I8) if keep else zeros(0, dtype=int), axis=axis)
        m = ~isin(arange(n), o)
    return a[(slice(None),) * axis + (m,)]


@public
def take(a, idx, axis=None, **k):
    a = _array(a, copy=False)
    if axis is None:
        return a.ravel()[idx]
    return a[(slice(None),) * (axis % a.ndim) + (idx,)]


@public
def split(a, idx, axis=0):
    a = _array(a, copy=False)
    if isinstance(idx, int):
        n = a.shape[axis]
        if not isinstance(n, int):
            raise Unsupported("split")
        if n % idx:
            raise ValueError("array split does not result in an equal division")
        pos = [n // idx * k for k in range(1, idx)]
    else:
        idx = _array(idx, copy=False)
        pos = [idx[i] for i in range(len(idx))]
    if axis != 0:
        raise Unsupported("split axis")
    b = [0] + [x.item() if isinstance(x, ndarray) else x for x in pos] + [None]
    return [a[slice(b[k], b[k + 1])] for k in range(len(b) - 1)]


# ---------------------------------------------------------------------------
# Searching and sorting
# ---------------------------------------------------------------------------


@public
def nonzero(a):
    a = _array(a, copy=False)
    if a.ndim == 0:
        raise Unsupported("nonzero of 0-d")
    if isinstance(a, CArr) or concrete(a.shape):
        a = a if isinstance(a, CArr) else S._force_c(a, a.shape)
        idx = []
        for i in _np.ndindex(*a.a.shape):
            if bool(s_truth(a.a[i])):
                idx.append(i)
        return tuple(
            _array([t[k] for t in idx], I8) if idx else zeros(0, dtype=int) for k in range(a.ndim)
        )
    if a.ndim == 1:
        m = a if a.dt.kind == "b" else elementwise(s_truth, [a], B1)
        sel = S.get_sel(m)
        r = SArr.from_fn(lambda idx: SNum(sel.at(zi(idx[0]))), (SNum(sel.m),), I8)
        r.sel = sel
        r.inbounds = dim(SNum(sel.n))
        return (r,)
    if a.ndim == 2:
        # row-major enumeration through the flattened mask
        fl = a.ravel()
        (k,) = nonzero(fl)
        rr, cc = unravel_index(k, a.shape)
        rr.inbounds, cc.inbounds = dim(a.shape[0]), dim(a.shape[1])
        return rr, cc
    raise Unsupported("nonzero of symbolic n-d array")


@public
def flatnonzero(a):
    return nonzero(_array(a, copy=False).ravel())[0]


@public
def argwhere(a):
    return column_stack(nonzero(a))


@public
def unravel_index(k, shape):
    shape = tuple(dim(d) for d in shape)
    if len(shape) == 1:
        return (k,)
    if len(shape) != 2:
        raise Unsupported("unravel_index")
    n = shape[1]
    tot = lift(shape[0]) * n
    karr = _is_arraylike(k)
    bad = any(_array(k) >= tot) if karr else core.compare("<=", tot, lift(k))
    if bool(bad):
        raise ValueError("index is out of bounds for array with given size")
    c = ctx()

    def q(x):
        x = _item(x)
        if isinstance(x, int) and isinstance(n, int):
            return x // n
        xe, ne = zi(x), zi(n)
        d = _undiv(xe, ne)
        if d is not None:
            return SNum(d[0])
        qq = core.int_floordiv(xe, ne)
        c.add_fact(z3.Implies(z3.And(xe >= 0, xe < zi(tot), ne > 0), z3.And(qq >= 0, qq < zi(shape[0]))))
        return SNum(qq)

    def r(x):
        x = _item(x)
        if isinstance(x, int) and isinstance(n, int):
            return x % n
        d = _undiv(zi(x), zi(n))
        if d is not None:
            return SNum(d[1])
        return lift(x) - lift(n) * lift(q(x))

    if karr:
        return (elementwise(q, [k], I8), elementwise(r, [k], I8))
    return (q(k), r(k))


def _undiv(x, n):
    """(q, r) when x was built as q*n + r with 0 <= r < n."""
    return ctx().memo.get("ravel", {}).get((x.get_id(), z3.simplify(n).get_id()))


@public
def ravel_multi_index(mi, dims, mode="raise", order="C"):
    r, c = mi
    dims = tuple(dim(d) for d in dims)
    if len(dims) != 2 or mode != "raise" or order != "C":
        raise Unsupported("ravel_multi_index")
    for v, d in ((r, dims[0]), (c, dims[1])):
        if kind_of(v).kind == "f" if not _is_arraylike(v) else _array(v, copy=False).dt.kind == "f":
            raise TypeError("only int indices permitted")
        if _is_arraylike(v):
            v = _array(v, copy=False)
            bad = any((v < 0) | (v >= d))
        else:
            bad = mkbool(b_or(_boole(core.compare("<", lift(v), 0)), _boole(core.compare("<=", lift(d), lift(v)))))
        if bool(bad):
            raise ValueError("invalid entry in coordinates array")

    def f(a, b):
        x = lift(lift(a) * dims[1] + b)
        if not is_num(x.e):
            n = z3.simplify(zi(dims[1]))
            m = ctx().memo.setdefault("ravel", {})
            ctx().keep += [x.e, n]
            m[(x.e.get_id(), n.get_id())] = (zi(a), zi(b))
        return x

    if _is_arraylike(r) or _is_arraylike(c):
        return elementwise(f, [r, c], I8)
    return f(_item(r), _item(c))


def _isort(vals, lt):
    """Stable insertion sort by forking comparisons; returns positions."""
    order = []
    for i in range(len(vals)):
        j = len(order)
        while j > 0 and bool(lt(vals[i], vals[order[j - 1]])):
            j -= 1
        order.insert(j, i)
    return order


def _lt_nan(x, y):
    """x sorts before y (NaN last)."""
    if isinstance(x, (float, SNum)) or isinstance(y, (float, SNum)):
        lx, ly = lift(x), lift(y)
        return mkbool(b_or(_boole(core.compare("<", lx, ly)), b_and(b_not(lx.nan), ly.nan)))
    return x < y


@public
def argsort(a, axis=-1, **k):
    a = _array(a, copy=False)
    if a.ndim == 1 and concrete(a.shape):
        a = a if isinstance(a, CArr) else S._force_c(a, a.shape)
        return _array(_isort(list(a.a), _lt_nan), I8) if a.a.size else zeros(0, dtype=int)
    if a.ndim == 2 and concrete(a.shape):
        a = a if isinstance(a, CArr) else S._force_c(a, a.shape)
        ax = axis % 2
        out = _obj(a.shape)
        for i in range(a.shape[1 - ax]):
            v = a.a[i] if ax == 1 else a.a[:, i]
            o = _isort(list(v), _lt_nan)
            if ax == 1:
                out[i] = o
            else:
                out[:, i] = o
        return CArr(out, I8)
    if a.ndim == 1:
        return _sym_argsort(a)
    raise Unsupported("argsort of symbolic array")


def _sym_argsort(a):
    """Permutation sorting a symbolic-length array (contract of numpy.argsort)."""
    c = ctx()
    n = zi(a.shape[0])
    rd = a.reader()
    v, body = _body(a.shape[0], lambda i: rd((i,)))
    L = lift(body)
    if core.bval(L.nan) is not False or type(L.inf) is not int:
        raise Unsupported("argsort of possibly non-finite values")
    key = ("argsort", core.nkey(n), L.e.get_id())
    c.keep.append(L.e)
    if key not in c.memo:
        nm = c.name("argsort")
        p = z3.Function(nm, z3.IntSort(), z3.IntSort())
        q = z3.Function(nm + "_inv", z3.IntSort(), z3.IntSort())
        c.reg_forall(n, lambda i: z3.And(p(i) >= 0, p(i) < n, q(p(i)) == i, q(i) >= 0, q(i) < n, p(q(i)) == i))
        c.memo[key] = (p, q, [])
    p, q, seen = c.memo[key]

    def get(idx):
        i = zi(idx[0])
        if not builtins.any(i.eq(j) for j in seen):
            c2 = ctx()
            c2.reg_index(n, i)
            x = lift(rd((tidx(p(i)),)))
            for j in seen:
                y = lift(rd((tidx(p(j)),)))
                rng = z3.And(i >= 0, i < n, j >= 0, j < n)
                c2.add_fact(z3.Implies(z3.And(rng, i <= j), x.e <= y.e))
                c2.add_fact(z3.Implies(z3.And(rng, j <= i), y.e <= x.e))
                c2.add_fact(z3.Implies(rng, (p(i) == p(j)) == (i == j)))
            seen.append(i)
        return SNum(p(i))

    r = SArr.from_fn(get, a.shape, I8)
    r.inbounds = a.shape[0]
    return r


@public
def sort(a, axis=-1, **k):
    a = _array(a, copy=False)
    if a.ndim == 1:
        return a[argsort(a)]
    raise Unsupported("sort")


@public
def lexsort(keys, **k):
    keys = [_array(x, copy=False) for x in (keys if not isinstance(keys, ndarray) else [keys[i] for i in range(len(keys))])]
    if not builtins.all(isinstance(x, CArr) for x in keys):
        raise Unsupported("lexsort of symbolic arrays")
    n = keys[0].shape[0]
    rows = [tuple(kk.a[i] for kk in reversed(keys)) for i in range(n)]
    return _array(_isort(rows, _lexlt), I8) if n else zeros(0, dtype=int)


def _lexlt(x, y):
    r = False
    eq = True
    for a, b in zip(x, y):
        lt = _boole(a < b)
        r = b_or(r, b_and(eq, lt))
        e = a == b
        eq = b_and(eq, _boole(e))
    return mkbool(r)


@public
def searchsorted(a, v, side="left", **k):
    a = _array(a, copy=False)
    n = a.shape[0]
    rd = a.snapshot()._get if isinstance(a, CArr) else a.reader()
    c = ctx()
    # precondition of the dependency's contract: a is sorted
    if isinstance(n, int):
        ok = True
        for i in range(n - 1):
            ok = b_and(ok, _boole(rd((i,)) <= rd((i + 1,))))
        if not c.entails(core.zb(ok)):
            if not bool(mkbool(ok)):
                raise Unsupported("searchsorted on an unsorted array")
    else:
        j = core.fresh_int("ss")
        c.reg_index(zi(n), j)
        c.reg_index(zi(n), j + 1)
        bad = _boole(lift(rd((j + 1,))) < lift(rd((j,))))
        if not c.entails(z3.Implies(z3.And(j >= 0, j + 1 < zi(n)), zb(b_not(bad))), 1500):
            raise Unsupported("searchsorted on an array not known to be sorted")

    def before(x, y):
        # element x lies before the insertion point of y
        return (x < y) if side == "left" else (x <= y)

    def one(y):
        if isinstance(n, int):
            r = 0
            for i in range(n):
                b = before(rd((i,)), y)
                if isinstance(b, bool):
                    r = r + int(b)
                else:
                    r = r + b.num()
            # a sorted array: the count is the insertion point
            if isinstance(r, SNum):
                c.add_fact(z3.And(r.e >= 0, r.e <= n))
            return r
        nt = zi(n)
        v0, body = _body(n, lambda i: before(rd((i,)), y))
        bb = core.zb(_boole(body))
        key = ("ss", side, core.nkey(nt), bb.get_id())
        c.keep.append(bb)
        if key not in c.memo:
            r = core.fresh_int("pos")
            c.add_fact(z3.And(r >= 0, r <= nt))
            c.reg_forall(nt, lambda i: zb(_boole(before(rd((tidx(i),)), y))) == (i < r))
            c.reg_index(nt, r)
            c.reg_index(nt, r - 1)
            c.memo[key] = r
        return SNum(c.memo[key])

    if _is_arraylike(v):
        return elementwise(one, [v], I8)
    return one(_item(v))


@public
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = _array(a, copy=False)
    if axis is not None and a.ndim > 1:
        return _unique_rows(a, return_index, return_inverse, return_counts, axis)
    if not concrete(a.shape):
        raise Unsupported("unique of symbolic array")
    a = a if isinstance(a, CArr) else S._force_c(a, a.shape)
    vals = list(a.a.reshape(-1))
    order = _isort(vals, _lt_nan)
    groups = []
    for i in order:
        if groups and bool(vals[i] == vals[groups[-1][0]]):
            groups[-1].append(i)
        else:
            groups.append([i])
    return _uniq_out([vals[g[0]] for g in groups], groups, len(vals), a.dt, return_index, return_inverse, return_counts)


def _uniq_out(u, groups, n, dt, ri, rv, rc, rows=False):
    if rows:
        arr = CArr(u, dt)
    else:
        arr = CArr(_mk(u), dt)
    out = [arr]
    if ri:
        out.append(_array([builtins.min(g) for g in groups], I8) if groups else zeros(0, dtype=int))
    if rv:
        inv = [0] * n
        for k, g in enumerate(groups):
            for i in g:
                inv[i] = k
        out.append(_array(inv, I8) if n else zeros(0, dtype=int))
    if rc:
        out.append(_array([len(g) for g in groups], I8) if groups else zeros(0, dtype=int))
    return tuple(out) if len(out) > 1 else out[0]


def _unique_rows(a, ri, rv, rc, axis):
    if axis != 0 or not concrete(a.shape):
        raise Unsupported("unique rows")
    a = a if isinstance(a, CArr) else S._force_c(a, a.shape)
    rows = [tuple(a.a[i].reshape(-1)) for i in range(a.shape[0])]
    order = _isort(rows, _lexlt)
    groups = []

    def eq(x, y):
        r = True
        for p, q in zip(x, y):
            r = b_and(r, _boole(p == q))
        return mkbool(r)

    for i in order:
        if groups and bool(eq(rows[i], rows[groups[-1][0]])):
            groups[-1].append(i)
        else:
            groups.append([i])
    u = a.a[[g[0] for g in groups]] if groups else a.a[:0]
    return _uniq_out(u, groups, len(rows), a.dt, ri, rv, rc, rows=True)


@public
def isin(a, b, invert=False, **k):
    b = _array(b, copy=False).ravel()

    def f(x):
        if isinstance(b, CArr):
            r = False
            for y in b.a:
                r = b_or(r, _boole(x == y))
            return mkbool(b_not(r) if invert else r)
        rd = b.reader()
        r = sym_any(b.shape[0], lambda i: x == rd((i,)))
        return mkbool(b_not(_boole(r)) if invert else _boole(r))

    return elementwise(f, [a], B1)


in1d = isin
PUBLIC.append("in1d")


@public
def setdiff1d(a, b, **k):
    a = unique(a)
    return a[isin(a, b, invert=True)]


@public
def intersect1d(a, b, return_indices=False, **k):
    if return_indices:
        ua, ia = unique(a, return_index=True)
        ub, ib = unique(b, return_index=True)
        m = isin(ua, ub)
        m2 = isin(ub, ua)
        return ua[m], ia[m], ib[m2]
    a, b = unique(a), unique(b)
    return a[isin(a, b)]


@public
def union1d(a, b):
    return unique(concatenate([_array(a).ravel(), _array(b).ravel()]))


@public
def bincount(x, weights=None, minlength=0):
    x = _array(x, copy=False)
    if not concrete(x.shape):
        raise Unsupported("bincount of symbolic array")
    x = x if isinstance(x, CArr) else S._force_c(x, x.shape)
    if weights is not None:
        weights = _array(weights, copy=False)
        weights = weights if isinstance(weights, CArr) else S._force_c(weights, weights.shape)
    ks = [_force_int(v) for v in x.a]
    m = builtins.max([minlength] + [k + 1 for k in ks])
    out = [0.0 if weights is not None else 0] * m
    for i, k in enumerate(ks):
        out[k] = out[k] + (weights.a[i] if weights is not None else 1)
    return _array(out) if m else zeros(0)


@public
def array_equal(a, b, **k):
    a, b = _array(a, copy=False), _array(b, copy=False)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not dims_eq_syntactic(x, y) and not dims_same(x, y):
            return False
    return all(a == b)


@public
def array_equiv(a, b):
    a, b = _array(a, copy=False), _array(b, copy=False)
    try:
        r = a == b
    except ValueError:
        return False
    return all(r)


@public
def iterable(x):
    if isinstance(x, Sym):
        return False
    if isinstance(x, ndarray):
        return x.ndim > 0
    try:
        iter(x)
    except TypeError:
        return False
    return True


@public
def isscalar(x):
    return isnumlike(x) or isinstance(x, str)


@public
def ndenumerate(a):
    raise Unsupported("ndenumerate")


@public
def interp(x, xp, fp, left=None, right=None, **k):
    xp, fp = _array(xp, copy=False), _array(fp, copy=False)
    if not (concrete(xp.shape) and concrete(fp.shape)):
        raise Unsupported("interp on symbolic-length data")
    xp = xp if isinstance(xp, CArr) else S._force_c(xp, xp.shape)
    fp = fp if isinstance(fp, CArr) else S._force_c(fp, fp.shape)
    n = xp.a.size
    if n == 0:
        raise ValueError("array of sample points is empty")
    if n != fp.a.size:
        raise ValueError("fp and xp are not of the same length")
    ok = True
    for i in range(n - 1):
        ok = b_and(ok, _boole(xp.a[i] < xp.a[i + 1]))
    if not ctx().entails(zb(ok)):
        if not bool(mkbool(ok)):
            raise Unsupported("interp on sample points that are not increasing")

    def f(v):
        r = fp.a[n - 1] if right is None else right
        r = s_ite(v == xp.a[n - 1], fp.a[n - 1], r)
        for i in range(n - 2, -1, -1):
            t = lift(fp.a[i]) + (lift(v) - xp.a[i]) * (lift(fp.a[i + 1]) - fp.a[i]) / (lift(xp.a[i + 1]) - xp.a[i])
            r = s_ite(v < xp.a[i + 1], t, r)
        r = s_ite(v < xp.a[0], fp.a[0] if left is None else left, r)
        lv = lift(v)
        if core.bval(lv.nan) is not False:
            r = s_ite(mkbool(lv.nan), nan, r)
        return r

    return elementwise(f, [x], F8)


@public
def polyfit(*a, **k):
    raise Unsupported("polyfit")


@public
def polyval(p, x):
    p = _array(p, copy=False)
    if not concrete(p.shape):
        raise Unsupported("polyval")
    r = 0
    for i in range(p.shape[0]):
        r = _array(x) * r + p[i] if _is_arraylike(x) else x * r + p[i]
    return r


@public
def fromiter(it, dtype=None, **k):
    return _array(list(it), dtype)


@public
def float(x=0.0):
    raise Unsupported("np.float")


PUBLIC.remove("float")
del float


class _Linalg:
    LinAlgError = _np.linalg.LinAlgError

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = _array(x, copy=False)
        if ord is not None and not (ord == 2 and (isinstance(axis, int) or x.ndim == 1)):
            raise Unsupported("norm order")
        return sqrt(sum(x * x, axis=axis, keepdims=keepdims))

    @staticmethod
    def det(x):
        x = _array(x, copy=False)
        a = x.a
        if a.shape == (2, 2):
            return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        if a.shape == (3, 3):
            return (
                a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1])
                - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
                + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0])
            )
        raise Unsupported("det")

    def __getattr__(self, n):
        raise Unsupported(f"numpy.linalg.{n}")


class _Random:
    """Random draws are arbitrary values in the range of the distribution."""

    @staticmethod
    def randn(*shape):
        c = ctx()
        c.notes.add("numpy.random.randn returns arbitrary reals")
        hook = c.memo.get("randn-hook")
        if hook is not None:
            return hook(shape)
        if not shape:
            return SNum(core.fresh_real("randn"))
        return arbitrary("randn", _shape(shape), F8)

    @staticmethod
    def random(size=None):
        c = ctx()
        c.notes.add("numpy.random.random returns arbitrary reals in [0, 1)")
        hook = c.memo.get("random-hook")
        if hook is not None:
            return hook(size)
        if size is None:
            r = core.fresh_real("random")
            c.add_fact(z3.And(r >= 0, r < 1))
            return SNum(r)
        a = arbitrary("random", _shape(size), F8)

        def rng(x):
            ctx().add_fact(z3.And(x.e >= 0, x.e < 1))
            return x

        return elementwise(rng, [a], F8)

    rand = staticmethod(lambda *s: _Random.random(s or None))

    @staticmethod
    def choice(a, size=None, replace=True, p=None):
        c = ctx()
        hook = c.memo.get("choice-hook")
        if hook is not None:
            return hook(a, size, replace, p)
        raise Unsupported("random.choice")

    def __getattr__(self, n):
        raise Unsupported(f"numpy.random.{n}")


class _Math:
    def __getattr__(self, n):
        f = getattr(_math, n)

        def g(*a):
            if builtins.all(isinstance(x, (int, builtins.float)) for x in a):
                return f(*a)
            raise Unsupported(f"math.{n}")

        return g


linalg = _Linalg()
random = _Random()
math = _Math()
__all__ = list(PUBLIC)

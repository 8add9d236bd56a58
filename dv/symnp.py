"""Symbolic stand-in for numpy used while executing the real glimpse source.

Arrays come in two forms:
  CArr  every dimension is a concrete integer: a real numpy object array of
        (symbolic) scalars, so that views, strides and in-place writes have
        numpy's own behaviour;
  SArr  at least one dimension is symbolic: a function from index terms to
        scalars (buffer) seen through an affine view, so that one execution
        covers arrays of every length.
Functions that are not modelled raise Unsupported.
"""
import builtins
import math as _math
import operator

import numpy as _np

from . import core
from .core import (
    SBool,
    SNum,
    Sym,
    Unsupported,
    b_and,
    b_ite,
    b_not,
    b_or,
    bval,
    ctx,
    is_num,
    isnumlike,
    lift,
    mkbool,
    numval,
    s_ite,
    to_real,
    unlift,
    z3,
    zb,
)

# re-exported real numpy objects
dtype = _np.dtype
integer = _np.integer
floating = _np.floating
number = _np.number
bool_ = _np.bool_
float64 = _np.float64
float32 = _np.float32
float16 = _np.float16
int8, int16, int32, int64 = _np.int8, _np.int16, _np.int32, _np.int64
uint8, uint16, uint32, uint64 = _np.uint8, _np.uint16, _np.uint32, _np.uint64
object_ = _np.object_
str_ = _np.str_
generic = _np.generic
ufunc = _np.ufunc
AxisError = _np.AxisError
VisibleDeprecationWarning = _np.VisibleDeprecationWarning
issubdtype = _np.issubdtype
newaxis = None
nan = float("nan")
inf = float("inf")
pi = SNum(core.PI)
e = _math.e
finfo = _np.finfo
iinfo = _np.iinfo
errstate = _np.errstate

F8 = _np.dtype("float64")
I8 = _np.dtype("int64")
B1 = _np.dtype("bool")
OB = _np.dtype("object")


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported(f"numpy.{name}")


# ---------------------------------------------------------------------------
# Scalars
# ---------------------------------------------------------------------------


def _item(x):
    """Normalise an element: numpy scalars to Python, literals to Python numbers."""
    if isinstance(x, _np.generic):
        return x.item()
    if isinstance(x, SNum):
        return unlift(x)
    if isinstance(x, SBool):
        return mkbool(x.e)
    return x


def kind_of(x):
    if isinstance(x, (bool, SBool, _np.bool_)):
        return B1
    if isinstance(x, SNum):
        return I8 if x.kind == "i" else F8
    if isinstance(x, int):
        return I8
    if isinstance(x, float):
        return F8
    if isinstance(x, _np.generic):
        return x.dtype
    return OB


def dt_of(t):
    """numpy dtype of a dtype-like argument (including the shim's int/float/bool)."""
    t = getattr(t, "_dtype_alias", t)
    if t is builtins.int:
        return I8
    if t is builtins.float:
        return F8
    if t is builtins.bool:
        return B1
    return _np.dtype(t)


def cast_scalar(x, t):
    dt = dt_of(t)
    k = dt.kind
    if k == "O":
        return x
    if k == "f":
        if isinstance(x, (bool, int, float)):
            return float(x)
        if x is None:
            return nan
        if isinstance(x, SBool):
            x = x.num()
        if isinstance(x, SNum):
            return SNum(to_real(x.e), x.nan, x.inf)
        if isinstance(x, _np.generic):
            return float(x)
        if isinstance(x, str):
            return float(x)
        raise TypeError(f"float() argument must be a real number, not {type(x).__name__}")
    if k in "iu":
        if isinstance(x, float):
            if x != x or x in (inf, -inf):
                raise Unsupported("nan/inf to int")
            return int(x)
        if isinstance(x, (bool, int)):
            r = int(x)
        elif isinstance(x, Sym):
            r = core.s_trunc(x)
        elif isinstance(x, _np.generic):
            r = int(x)
        else:
            raise TypeError("int() argument")
        return r
    if k == "b":
        if isinstance(x, (bool, int, float)):
            return bool(x)
        if isinstance(x, SBool):
            return x
        if isinstance(x, SNum):
            return core.compare("!=", x, 0)
        return bool(x)
    raise Unsupported(f"dtype {dt}")


def sop(op, a, b):
    """Binary scalar operation with numpy semantics."""
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = getattr(operator, _OPN[op])(a, b)
        return _item(r) if isinstance(r, SNum) else r
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if op == "+" and isinstance(a, bool) and isinstance(b, bool):
            return a or b
        if op == "*" and isinstance(a, bool) and isinstance(b, bool):
            return a and b
        if op == "/":
            if b == 0:
                if a == 0 or a != a:
                    return nan
                return _math.copysign(inf, a) * _math.copysign(1, b)
            if isinstance(a, int) and isinstance(b, int):
                return _exactdiv(a, b)
            return a / b
        if op in ("//", "%") and b == 0:
            raise Unsupported("modulo by zero")
        if op == "**":
            if a == 0 and b < 0:
                return inf
            if isinstance(b, int) or float(b).is_integer() or a < 0:
                return a ** b if a >= 0 or float(b).is_integer() else nan
            return _item(lift(float(a)) ** b)
        try:
            return getattr(operator, _OPN[op])(a, b)
        except OverflowError:
            raise Unsupported("overflow")
    return getattr(operator, _OPN[op])(a, b)


def _exactdiv(a, b):
    return a / b


_OPN = {
    "+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod",
    "**": "pow", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne",
    "&": "and_", "|": "or_", "^": "xor",
}


def s_isnan(x):
    if isinstance(x, float):
        return x != x
    if isinstance(x, SNum):
        return mkbool(x.nan)
    if isinstance(x, (int, bool, SBool)):
        return False
    if x is None or isinstance(x, str):
        raise TypeError("ufunc 'isnan' not supported for the input types")
    raise TypeError("ufunc 'isnan' not supported for the input types")


def s_isinf(x):
    if isinstance(x, float):
        return x in (inf, -inf)
    if isinstance(x, SNum):
        return False if type(x.inf) is int else mkbool(b_and(b_not(x.nan), x.inf != 0))
    return False


def s_isfinite(x):
    return s_not(s_or(s_isnan(x), s_isinf(x)))


def s_not(x):
    if isinstance(x, SBool):
        return ~x
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return ~x
    return ~x


def s_lnot(x):
    if isinstance(x, SNum):
        return s_not(core.compare("!=", x, 0))
    if isinstance(x, SBool):
        return ~x
    return not x


def s_and(a, b):
    return a & b


def s_or(a, b):
    return a | b


def s_truth(x):
    """Truth value of an element as bool/SBool (no fork)."""
    if isinstance(x, SNum):
        return core.compare("!=", x, 0)
    if isinstance(x, SBool):
        return x
    return bool(x)


# ---------------------------------------------------------------------------
# Sizes and indices
# ---------------------------------------------------------------------------


def zi(x):
    """z3 Int term of an index or size."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, _np.integer):
        return z3.IntVal(int(x))
    if isinstance(x, SNum):
        if x.kind != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return x.e
    if isinstance(x, SBool):
        return x.num().e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, ndarray) and x.ndim == 0:
        return zi(x.item())
    if hasattr(x, "__index__"):
        return z3.IntVal(operator.index(x))
    raise TypeError("an integer is required")


def dim(x):
    """Canonical dimension: Python int or SNum Int."""
    if isinstance(x, SNum):
        s = z3.simplify(x.e)
        if is_num(s):
            return int(numval(s))
        return SNum(s)
    if isinstance(x, z3.ExprRef):
        return dim(SNum(x))
    return int(x)


def isdim(x):
    return isinstance(x, (int, SNum, _np.integer)) and not isinstance(x, bool)


def dims_same(a, b):
    """Decide (forking if needed) whether two dimensions are equal."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return bool(core.compare("==", a, b))


def dims_eq_syntactic(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) or isinstance(b, int):
        return False
    return a.e.eq(b.e)


def broadcast_dims(a, b):
    if dims_eq_syntactic(a, b):
        return a
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(a, int) and isinstance(b, int):
        raise ValueError("operands could not be broadcast together")
    if dims_same(a, b):
        return a if isinstance(a, int) else b
    if not isinstance(a, int) and bool(core.compare("==", a, 1)):
        return b
    if not isinstance(b, int) and bool(core.compare("==", b, 1)):
        return a
    raise ValueError("operands could not be broadcast together")


def broadcast_shape(*shapes):
    nd = builtins.max((len(s) for s in shapes), default=0)
    out = []
    for k in range(nd):
        d = 1
        for s in shapes:
            j = k - (nd - len(s))
            if j >= 0:
                d = broadcast_dims(d, s[j])
        out.append(d)
    return tuple(out)


def concrete(shape):
    return builtins.all(isinstance(d, int) for d in shape)


def ikey(idx):
    return tuple(i if isinstance(i, int) else i.get_id() for i in idx)


def tidx(i):
    """Index component as int or z3 term."""
    if isinstance(i, int):
        return i
    if is_num(i):
        return int(numval(i))
    s = z3.simplify(i)
    if is_num(s):
        return int(numval(s))
    return s


# ---------------------------------------------------------------------------
# Arrays
# ---------------------------------------------------------------------------


class _Meta(type):
    pass


class ndarray(metaclass=_Meta):
    """Common interface of symbolic arrays."""

    __array_ufunc__ = None
    __array_priority__ = 2000
    __hash__ = None
    dt = F8

    # -- metadata
    @property
    def dtype(self):
        return self.dt

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return dim(r)

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return _Flat(self)

    @property
    def nbytes(self):
        return self.size * self.dt.itemsize

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return operator.index(self.shape[0])

    # -- elementwise operators
    def _bin(self, o, op, r=False):
        if not _operand(o):
            return NotImplemented
        a, b = (o, self) if r else (self, o)
        return elementwise2(op, a, b)

    def __add__(self, o):
        return self._bin(o, "+")

    def __radd__(self, o):
        return self._bin(o, "+", True)

    def __sub__(self, o):
        return self._bin(o, "-")

    def __rsub__(self, o):
        return self._bin(o, "-", True)

    def __mul__(self, o):
        return self._bin(o, "*")

    def __rmul__(self, o):
        return self._bin(o, "*", True)

    def __truediv__(self, o):
        return self._bin(o, "/")

    def __rtruediv__(self, o):
        return self._bin(o, "/", True)

    def __floordiv__(self, o):
        return self._bin(o, "//")

    def __rfloordiv__(self, o):
        return self._bin(o, "//", True)

    def __mod__(self, o):
        return self._bin(o, "%")

    def __rmod__(self, o):
        return self._bin(o, "%", True)

    def __pow__(self, o):
        return self._bin(o, "**")

    def __rpow__(self, o):
        return self._bin(o, "**", True)

    def __lt__(self, o):
        return self._bin(o, "<")

    def __le__(self, o):
        return self._bin(o, "<=")

    def __gt__(self, o):
        return self._bin(o, ">")

    def __ge__(self, o):
        return self._bin(o, ">=")

    def __eq__(self, o):
        return self._bin(o, "==")

    def __ne__(self, o):
        return self._bin(o, "!=")

    def __and__(self, o):
        return self._bin(o, "&")

    def __rand__(self, o):
        return self._bin(o, "&", True)

    def __or__(self, o):
        return self._bin(o, "|")

    def __ror__(self, o):
        return self._bin(o, "|", True)

    def __xor__(self, o):
        return self._bin(o, "^")

    def __neg__(self):
        return elementwise1(lambda x: -x, self, self.dt)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return abs(self)

    def __invert__(self):
        return elementwise1(s_not, self, self.dt)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    # -- in-place operators
    def _inp(self, o, op):
        r = elementwise2(op, self, o)
        rdt = getattr(r, "dt", None) or kind_of(r)
        if self.dt.kind in "iu" and rdt.kind == "f":
            raise TypeError(
                "Cannot cast ufunc output from dtype('float64') to dtype('int64') "
                "with casting rule 'same_kind'"
            )
        if self.dt.kind == "b" and rdt.kind in "iuf":
            raise TypeError("Cannot cast ufunc output to dtype('bool')")
        rs = getattr(r, "shape", ())
        if len(rs) != len(self.shape):
            raise ValueError("non-broadcastable output operand")
        for x, y in zip(rs, self.shape):
            if not dims_eq_syntactic(x, y) and not dims_same(x, y):
                raise ValueError("non-broadcastable output operand")
        self._assign_all(r)
        return self

    def __iadd__(self, o):
        return self._inp(o, "+")

    def __isub__(self, o):
        return self._inp(o, "-")

    def __imul__(self, o):
        return self._inp(o, "*")

    def __itruediv__(self, o):
        return self._inp(o, "/")

    def __iand__(self, o):
        return self._inp(o, "&")

    def __ior__(self, o):
        return self._inp(o, "|")

    def __ipow__(self, o):
        return self._inp(o, "**")

    def __imod__(self, o):
        return self._inp(o, "%")

    def __ifloordiv__(self, o):
        return self._inp(o, "//")

    # -- conversion
    def __bool__(self):
        n = self.size
        if isinstance(n, int):
            if n == 0:
                return False
            if n > 1:
                raise ValueError("The truth value of an array with more than one element is ambiguous")
        else:
            if bool(core.compare("==", n, 0)):
                return False
            if not bool(core.compare("==", n, 1)):
                raise ValueError(
                    "The truth value of an array with more than one element is ambiguous"
                )
        return bool(s_truth(self._get(tuple(0 for _ in self.shape))))

    def __index__(self):
        if self.size == 1:
            return operator.index(self.item())
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if not dims_same(self.size, 1):
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self._get(tuple(0 for _ in self.shape))

    def tolist(self):
        if not concrete(self.shape):
            raise Unsupported("tolist of symbolic-length array")
        return _nested(self)

    def __array__(self, *a, **k):
        raise Unsupported("conversion to a real numpy array")

    # -- methods as functions
    def all(self, axis=None, **k):
        return all(self, axis=axis, **k)

    def any(self, axis=None, **k):
        return any(self, axis=axis, **k)

    def sum(self, axis=None, **k):
        return sum(self, axis=axis, **k)

    def mean(self, axis=None, **k):
        return mean(self, axis=axis, **k)

    def std(self, axis=None, **k):
        return std(self, axis=axis, **k)

    def var(self, axis=None, **k):
        return var(self, axis=axis, **k)

    def min(self, axis=None, **k):
        return min(self, axis=axis, **k)

    def max(self, axis=None, **k):
        return max(self, axis=axis, **k)

    def argmin(self, axis=None, **k):
        return argmin(self, axis=axis, **k)

    def argmax(self, axis=None, **k):
        return argmax(self, axis=axis, **k)

    def argsort(self, axis=-1, **k):
        return argsort(self, axis=axis, **k)

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis=axis, **k)

    def prod(self, axis=None, **k):
        return prod(self, axis=axis, **k)

    def dot(self, o):
        return dot(self, o)

    def clip(self, lo=None, hi=None):
        return clip(self, lo, hi)

    def round(self, decimals=0):
        return round(self, decimals)

    def nonzero(self):
        return nonzero(self)

    def flatten(self, order="C"):
        return self.ravel(order).copy()

    def ravel(self, order="C"):
        if order not in ("C", "K", "A"):
            raise Unsupported("order")
        return self.reshape(-1)

    def repeat(self, n, axis=None):
        return repeat(self, n, axis=axis)

    def take(self, idx, axis=None):
        return take(self, idx, axis=axis)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    def fill(self, v):
        self[...] = v

    def tobytes(self):
        raise Unsupported("tobytes")

    def astype(self, t, copy=True, **k):
        if t is str:
            if self.ndim != 1 or not isinstance(self.shape[0], int) or self.dt.kind not in "iub" and self.shape[0]:
                raise Unsupported("text of an array")
            items = [_item(self._get((i,))) for i in range(self.shape[0])]
            if not all(isinstance(x, int) for x in items):
                raise Unsupported("text of symbolic values")
            return array([str(x) for x in items], dtype=object)
        dt = dt_of(t)
        if dt == self.dt and not copy:
            return self
        return elementwise1(lambda x: cast_scalar(x, dt), self, dt, keep0=True)

    def searchsorted(self, v, side="left"):
        return searchsorted(self, v, side=side)

    def __contains__(self, x):
        return bool(any(self == x))

    def __iter__(self):
        if not self.shape:
            raise TypeError("iteration over a 0-d array")
        n = self.shape[0]
        if not isinstance(n, int):
            from . import loops

            n = loops.concretize(n)
        return iter([self[i] for i in range(n)])


def _nested(a):
    if a.ndim == 0:
        return a.item()
    if a.ndim == 1:
        return [_item(a._get((i,))) for i in range(a.shape[0])]
    return [_nested(a[i]) for i in range(a.shape[0])]


class _Flat:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return self.a.ravel()[k]

    def __setitem__(self, k, v):
        a = self.a
        if isinstance(a, CArr):
            c = CArr(a.a.reshape(-1), a.dt) if a.a.flags.c_contiguous else None
            if c is not None and c.a.base is not None:
                c[k] = v
                return
            tmp = CArr(a.a.reshape(-1).copy(), a.dt)
            tmp[k] = v
            a.a[...] = tmp.a.reshape(a.a.shape)
            return
        # symbolic: unravel the flat index
        if a.ndim != 2:
            raise Unsupported("flat assignment")
        if isinstance(k, SArr) or isinstance(k, CArr) or isnumlike(k):
            r, c = unravel_index(k, a.shape)
            a[r, c] = v
            return
        raise Unsupported("flat assignment")

    def __iter__(self):
        return iter(self.a.ravel())

    def __len__(self):
        return len(self.a.ravel())


def _operand(o):
    return (
        isinstance(o, (ndarray, list, tuple, _np.ndarray))
        or isnumlike(o)
        or o is None
        or hasattr(o, "us")  # dates and intervals
        or not hasattr(o, "__array_ufunc__")
    )


class CArr(ndarray):
    """Array of concrete shape (object array of scalars)."""

    def __init__(self, a, dt):
        self.a = a
        self.dt = dt

    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    def _get(self, idx):
        """Element at tuple of int / z3 Int indices (assumed within bounds)."""
        if builtins.all(isinstance(i, int) for i in idx):
            return self.a[idx]
        idx = tuple(tidx(i) for i in idx)
        if builtins.all(isinstance(i, int) for i in idx):
            return self.a[idx]
        return self._select(idx, 0, ())

    def _select(self, idx, k, pre):
        if k == len(idx):
            return self.a[pre]
        i = idx[k]
        if isinstance(i, int):
            return self._select(idx, k + 1, pre + (i,))
        n = self.a.shape[k]
        if n == 0:
            return 0.0
        if n > 64:
            raise Unsupported("symbolic index into a large concrete array")
        r = self._select(idx, k + 1, pre + (n - 1,))
        for j in range(n - 2, -1, -1):
            r = s_ite(i == j, self._select(idx, k + 1, pre + (j,)), r)
        return r

    def copy(self, order=None):
        return CArr(self.a.copy(), self.dt)

    def snapshot(self):
        return CArr(self.a.copy(), self.dt)

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = ax[0]
        return CArr(self.a.transpose(*ax), self.dt)

    def reshape(self, *s, order="C"):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        if order != "C":
            raise Unsupported("order")
        s = tuple(_cint(x) for x in s)
        if not builtins.all(isinstance(x, int) for x in s):
            s = tuple(operator.index(x) for x in s)
        return CArr(self.a.reshape(s), self.dt)

    def squeeze(self, axis=None):
        return _wrap(self.a.squeeze(axis=axis), self.dt)

    def _assign_all(self, r):
        if isinstance(r, CArr):
            vals = _np.broadcast_to(r.a, self.a.shape)
            tmp = _np.empty(self.a.shape, dtype=object)
            for i in _np.ndindex(*self.a.shape):
                tmp[i] = cast_scalar(vals[i], self.dt)
            self.a[...] = tmp
        else:
            for i in _np.ndindex(*self.a.shape):
                self.a[i] = cast_scalar(r, self.dt)

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    def __repr__(self):
        return f"CArr({self.a!r})"

    def __deepcopy__(self, memo):
        return self.copy()


def _cint(x):
    x = _item(x) if isinstance(x, (SNum, _np.generic)) else x
    if isinstance(x, SNum):
        s = z3.simplify(x.e)
        if is_num(s):
            return int(numval(s))
    if isinstance(x, CArr) and x.a.size == 1:
        return _cint(x.a.reshape(-1)[0])
    return x


class Buffer:
    __slots__ = ("fn", "shape", "memo", "version")

    def __init__(self, fn, shape):
        self.fn = fn
        self.shape = shape
        self.memo = {}
        self.version = 0

    def reader(self):
        """Immutable reader of the current contents."""
        fn, memo = self.fn, self.memo

        def read(idx):
            k = ikey(idx)
            hit = memo.get(k)
            if hit is None:
                v = _item(fn(idx))
                memo[k] = (v, idx)
                return v
            return hit[0]

        return read

    def update(self, fn):
        self.fn = fn
        self.memo = {}
        self.version += 1


class SArr(ndarray):
    """Array with a symbolic dimension: affine view of a buffer.

    axes: for every buffer dimension ('c', term) or ('a', axis, start, step)
    """

    def __init__(self, buf, shape, axes=None, dt=F8, readonly=False):
        self.buf = buf
        self.shape = tuple(dim(d) for d in shape)
        self.axes = axes
        self.dt = dt
        self.readonly = readonly

    @staticmethod
    def from_fn(fn, shape, dt):
        shape = tuple(dim(d) for d in shape)
        b = Buffer(fn, shape)
        return SArr(b, shape, [("a", k, 0, 1) for k in range(len(shape))], dt)

    def _bidx(self, idx):
        out = []
        for ax in self.axes:
            if ax[0] == "c":
                out.append(ax[1])
            else:
                _, k, start, step = ax
                i = idx[k]
                if step == 1 and isinstance(start, int) and start == 0:
                    out.append(i)
                elif isinstance(i, int) and isinstance(start, int) and isinstance(step, int):
                    out.append(start + step * i)
                else:
                    out.append(tidx(zi(start) + zi(step) * zi(i)))
        return tuple(out)

    def reader(self):
        rd = self.buf.reader()
        if builtins.all(
            a[0] == "a" and a[1] == k and isinstance(a[2], int) and a[2] == 0 and a[3] == 1
            for k, a in enumerate(self.axes)
        ):
            if len(self.axes) == len(self.shape):
                return rd
        view = SArr(self.buf, self.shape, list(self.axes), self.dt)
        return lambda idx: rd(view._bidx(idx))

    def _get(self, idx):
        return self.buf.reader()(self._bidx(tuple(tidx(i) for i in idx)))

    def copy(self, order=None):
        return SArr.from_fn(self.reader(), self.shape, self.dt)

    snapshot = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        if not ax:
            ax = tuple(reversed(range(self.ndim)))
        inv = {a: k for k, a in enumerate(ax)}
        axes = [a if a[0] == "c" else ("a", inv[a[1]], a[2], a[3]) for a in self.axes]
        return SArr(self.buf, tuple(self.shape[a] for a in ax), axes, self.dt, self.readonly)

    def _renumber(self, newshape, mapping):
        """View with axes renumbered; mapping old axis -> new axis or None (size-1, dropped)."""
        axes = []
        for a in self.axes:
            if a[0] == "c":
                axes.append(a)
            elif mapping.get(a[1]) is None:
                axes.append(("c", a[2]))
            else:
                axes.append(("a", mapping[a[1]], a[2], a[3]))
        return SArr(self.buf, newshape, axes, self.dt, self.readonly)

    def squeeze(self, axis=None):
        drop = []
        for k, d in enumerate(self.shape):
            if axis is not None and k not in ((axis % self.ndim),):
                continue
            if isinstance(d, int):
                if d == 1:
                    drop.append(k)
            elif bool(core.compare("==", d, 1)):
                drop.append(k)
        keep = [k for k in range(self.ndim) if k not in drop]
        return _maybe_c(
            self._renumber(
                tuple(self.shape[k] for k in keep), {k: j for j, k in enumerate(keep)}
            )
        )

    def reshape(self, *s, order="C"):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        if order != "C":
            raise Unsupported("order")
        s = tuple(dim(x) if not (isinstance(x, int) and x == -1) else -1 for x in s)
        old = self.shape
        # -1 resolution
        if -1 in [x for x in s if isinstance(x, int)]:
            k = [i for i, x in enumerate(s) if isinstance(x, int) and x == -1][0]
            rest = [x for i, x in enumerate(s) if i != k]
            olds = list(old)
            # cancel syntactically equal dims
            for x in list(rest):
                for y in olds:
                    if dims_eq_syntactic(x, y):
                        olds.remove(y)
                        rest.remove(x)
                        break
            cr = 1
            for x in rest:
                if not isinstance(x, int):
                    raise Unsupported("reshape")
                cr *= x
            co = 1
            sym = None
            for y in olds:
                if isinstance(y, int):
                    co *= y
                else:
                    sym = y if sym is None else sym * y
            if cr == 0:
                raise Unsupported("reshape of empty")
            if co % cr == 0:
                d = co // cr if sym is None else dim(sym * (co // cr))
            else:
                if sym is None:
                    raise ValueError("cannot reshape array")
                tot = sym * co
                if not bool(core.compare("==", tot % cr, 0)):
                    raise ValueError("cannot reshape array")
                d = dim(tot // cr)
            s = s[:k] + (d,) + s[k + 1 :]
        # trivial: same dims up to 1s
        o2 = [(k, d) for k, d in enumerate(old) if not (isinstance(d, int) and d == 1)]
        n2 = [(k, d) for k, d in enumerate(s) if not (isinstance(d, int) and d == 1)]
        if len(o2) == len(n2) and builtins.all(
            dims_eq_syntactic(a[1], b[1]) for a, b in zip(o2, n2)
        ):
            return self._renumber(s, {a[0]: b[0] for a, b in zip(o2, n2)})
        # size check
        so, sn = lift(1), lift(1)
        for d in old:
            so = lift(so * d)
        for d in s:
            sn = lift(sn * d)
        if not bool(core.compare("==", so, sn)):
            raise ValueError("cannot reshape array")
        rd = self.reader()

        def fn(idx):
            # flat position from new index, then old index
            flat = z3.IntVal(0)
            for d, i in zip(s, idx):
                flat = core.t_add(core.t_mul(flat, zi(d)), zi(i))
            out = []
            rem = z3.simplify(flat)
            for d in reversed(old[1:]):
                out.append(tidx(_imod(rem, zi(d))))
                rem = _idiv(rem, zi(d))
            out.append(tidx(rem))
            return rd(tuple(reversed(out)))

        r = SArr.from_fn(fn, s, self.dt)
        r.readonly = True
        return r

    def _assign_all(self, r):
        setitem(self, Ellipsis, r)

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    def __repr__(self):
        return f"SArr(shape={self.shape})"


def _imod(a, b):
    if is_num(b) and numval(b) == 1:
        return z3.IntVal(0)
    if is_num(a) and is_num(b):
        return z3.IntVal(int(numval(a)) % int(numval(b)))
    # b*k + i with 0 <= i < b
    q = _idiv(a, b)
    return z3.simplify(a - b * q)


def _idiv(a, b):
    """Floor division for non-negative a and positive b."""
    if is_num(b) and numval(b) == 1:
        return a
    if is_num(a) and is_num(b):
        return z3.IntVal(int(numval(a)) // int(numval(b)))
    c = ctx()
    # recognise a = b*q + r structurally (q, r from a ravel)
    for (q, r, b2) in c.memo.get("divlemma", []):
        pass
    return core.int_floordiv(a, b)


def _wrap(a, dt):
    """Object array -> CArr, or scalar for 0-d."""
    if not isinstance(a, _np.ndarray):
        return _item(a)
    if a.ndim == 0:
        return _item(a.item())
    return CArr(a, dt)


def _maybe_c(x):
    """Convert an SArr whose dims all became concrete (and small) to CArr copies? No:
    keep the SArr (views must alias); only 0-d becomes a scalar."""
    if isinstance(x, SArr) and x.ndim == 0:
        return x._get(())
    return x


def _obj(shape):
    return _np.empty(shape, dtype=object)


def asarray(x, dtype=None, **k):
    return _array(x, dtype, copy=False)


def array(x, dtype=None, copy=True, **k):
    return _array(x, dtype, copy=copy)


def _array(x, dtype=None, copy=True):
    dt = None if dtype is None else dt_of(dtype)
    if isinstance(x, ndarray):
        if dt is None or dt == x.dt:
            return x.copy() if copy else x
        return x.astype(dt)
    if isinstance(x, _np.ndarray):
        a = _obj(x.shape)
        for i in _np.ndindex(*x.shape):
            a[i] = _item(x[i])
        return CArr(a, x.dtype) if dt is None else CArr(a, x.dtype).astype(dt)
    if isinstance(x, _np.generic) and not isinstance(x, Sym):
        x = x.item()
    if isinstance(x, (list, tuple)) or (
        not isinstance(x, (str, bytes, dict, set, Sym)) and hasattr(x, "__len__") and hasattr(x, "__getitem__")
    ):
        if hasattr(x, "_sym_array"):
            r = x._sym_array()
            return r if dt is None else r.astype(dt)
        items = [x[i] for i in range(len(x))] if not isinstance(x, (list, tuple)) else x
        if builtins.any(isinstance(i, ndarray) or isinstance(i, (list, tuple)) or isinstance(i, _np.ndarray) for i in items):
            subs = [_array(i, dt, copy=False) for i in items]
            shapes = {len(s.shape) for s in subs}
            if len(shapes) > 1:
                raise ValueError("setting an array element with a sequence. inhomogeneous shape")
            if builtins.all(isinstance(s, CArr) for s in subs):
                if len({s.shape for s in subs}) > 1:
                    raise ValueError("setting an array element with a sequence. inhomogeneous shape")
                a = _np.stack([s.a for s in subs]) if subs[0].a.ndim else _np.array([s.a for s in subs], dtype=object)
                d = _common_dt([s.dt for s in subs])
                r = CArr(a.copy(), d)
                return _recast(r, d) if dt is None else r.astype(dt)
            return stack(subs, axis=0)
        a = _obj(len(items))
        for i, v in enumerate(items):
            a[i] = _item(v)
        d = _common_dt([kind_of(v) for v in a])
        r = CArr(a, d)
        return _recast(r, d) if dt is None else r.astype(dt)
    if isinstance(x, (range,)):
        return _array(list(x), dt)
    a = _obj(())
    a[()] = _item(x)
    r = CArr(a, kind_of(x))
    return r if dt is None else r.astype(dt)


def _common_dt(dts):
    if not dts:
        return F8
    if builtins.any(d.kind == "O" for d in dts):
        return OB
    return _np.result_type(*dts)


def _recast(r, d):
    if d.kind == "f":
        for i in _np.ndindex(*r.a.shape):
            r.a[i] = cast_scalar(r.a[i], d)
    return r


def _is_arraylike(x):
    return isinstance(x, (ndarray, list, tuple, _np.ndarray, range))


def operand(x):
    """Operand as (shape, reader, dtype-or-python-scalar)."""
    if isinstance(x, SArr):
        return x.shape, x.reader(), x.dt
    if isinstance(x, CArr):
        s = x.snapshot()
        return x.shape, s._get, x.dt
    if _is_arraylike(x):
        return operand(_array(x))
    x = _item(x)
    return (), (lambda idx: x), kind_of(x)


def _res_dt(op, dts, args):
    if op in ("<", "<=", ">", ">=", "==", "!="):
        return B1
    if builtins.any(d.kind == "O" for d in dts):
        return OB
    if op in ("&", "|", "^"):
        return _np.result_type(*dts)
    # weak Python scalars
    strong = [d for d, a in zip(dts, args) if _is_arraylike(a)]
    if strong:
        kinds = "biuf"
        top = builtins.max(strong, key=lambda d: {"b": 0, "u": 1, "i": 2, "f": 3}[d.kind])
        weak = [d for d, a in zip(dts, args) if not _is_arraylike(a)]
        r = _np.result_type(*strong)
        for w in weak:
            if {"b": 0, "u": 1, "i": 1, "f": 2}[w.kind] > {"b": 0, "u": 1, "i": 1, "f": 2}[r.kind]:
                r = w
    else:
        r = _np.result_type(*dts)
    if op == "/":
        return r if r.kind == "f" else F8
    if op in ("-", "+", "*", "//", "%", "**") and r.kind == "b" and op in ("**", "//", "%"):
        return I8
    return r


def elementwise(fn, args, dt):
    """Apply scalar function with broadcasting."""
    if not builtins.any(_is_arraylike(a) for a in args):
        return _item(fn(*[_item(a) for a in args]))
    arrs = [_array(a, copy=False) if _is_arraylike(a) and not isinstance(a, ndarray) else a for a in args]
    if builtins.all(isinstance(a, CArr) or not isinstance(a, ndarray) for a in arrs):
        shape = broadcast_shape(*[a.shape if isinstance(a, CArr) else () for a in arrs])
        bs = [
            _np.broadcast_to(a.a, shape) if isinstance(a, CArr) else None for a in arrs
        ]
        out = _obj(shape)
        for i in _np.ndindex(*shape):
            out[i] = _item(
                fn(*[b[i] if b is not None else _item(a) for a, b in zip(arrs, bs)])
            )
        if shape == ():
            return out.item()
        return CArr(out, dt)
    ops = [operand(a) for a in arrs]
    shape = broadcast_shape(*[o[0] for o in ops])

    def elem(idx):
        vals = []
        for (s, rd, _), in zip(ops):
            k = len(shape) - len(s)
            vals.append(
                rd(
                    tuple(
                        0 if (isinstance(d, int) and d == 1) else _bi(idx[k + j], d, shape[k + j])
                        for j, d in enumerate(s)
                    )
                )
            )
        return fn(*vals)

    return SArr.from_fn(elem, shape, dt)


def _bi(i, d, full):
    """Broadcast index: a symbolic dim d broadcast to full uses 0 when d == 1."""
    if dims_eq_syntactic(d, full):
        return i
    c = ctx()
    if isinstance(d, int):
        return i
    if c.entails(zi(d) == zi(full)):
        return i
    return tidx(z3.If(zi(d) == zi(full), zi(i), z3.IntVal(0)))


def elementwise1(fn, a, dt, keep0=False):
    if isinstance(a, CArr) and keep0:
        out = _obj(a.a.shape)
        for i in _np.ndindex(*a.a.shape):
            out[i] = _item(fn(a.a[i]))
        return CArr(out, dt)
    return elementwise(fn, [a], dt)


def elementwise2(op, a, b):
    da = kind_of(a) if not _is_arraylike(a) else (a.dt if isinstance(a, ndarray) else _array(a, copy=False).dt)
    db = kind_of(b) if not _is_arraylike(b) else (b.dt if isinstance(b, ndarray) else _array(b, copy=False).dt)
    if op == "-" and da.kind == "b" and db.kind == "b":
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    dt = _res_dt(op, [da, db], [a, b])
    if op in ("==", "!=") and (a is None or b is None or da.kind == "O" or db.kind == "O"):
        def f(x, y):
            if x is None or y is None:
                r = x is y
                return r if op == "==" else not r
            r = getattr(operator, _OPN[op])(x, y)
            return r
        return elementwise(f, [a, b], B1)
    return elementwise(lambda x, y: sop(op, x, y), [a, b], dt)


# ---------------------------------------------------------------------------
# Selections (boolean masks over symbolic dimensions)
# ---------------------------------------------------------------------------


class Sel:
    """Enumeration of the indices where a 1-d mask over n elements holds."""

    def __init__(self, n, pred):
        c = ctx()
        self.n, self.pred = zi(n), pred
        nm = c.name("sel")
        self.fn = z3.Function(nm, z3.IntSort(), z3.IntSort())
        self.rk = z3.Function(nm + "_rank", z3.IntSort(), z3.IntSort())
        self.m = z3.Int(nm + "_count")
        c.add_fact(z3.And(self.m >= 0, self.m <= self.n))
        # count reaches n iff all, 0 iff none
        self.used = []
        self.ranked = []
        c.reg_forall(self.n, lambda i: z3.Implies(zb(self.pred(i)), self._rank_facts(i)))
        c.reg_forall(self.m, lambda k: self._sel_facts(k))

    def _rank_facts(self, i):
        r = self.rk(i)
        return z3.And(r >= 0, r < self.m, self.fn(r) == i, self.m >= 1)

    def _sel_facts(self, k):
        s = self.fn(k)
        return z3.And(s >= 0, s < self.n, zb(self.pred(s)), self.rk(s) == k)

    def at(self, k):
        k = zi(k)
        c = ctx()
        kk = k.get_id()
        if kk not in [x[0] for x in self.used]:
            c.add_fact(z3.Implies(z3.And(k >= 0, k < self.m), self._sel_facts(k)))
            for _, k2 in self.used:
                c.add_fact(
                    z3.Implies(
                        z3.And(k >= 0, k < self.m, k2 >= 0, k2 < self.m),
                        z3.And(
                            (k < k2) == (self.fn(k) < self.fn(k2)),
                            (k == k2) == (self.fn(k) == self.fn(k2)),
                        ),
                    )
                )
            self.used.append((kk, k))
            c.keep.append(k)
            c.reg_index(self.m, k)
            c.reg_index(self.n, self.fn(k))
        return self.fn(k)

    def rank(self, i):
        i = zi(i)
        c = ctx()
        if i.get_id() not in [x.get_id() for x in self.ranked]:
            self.ranked.append(i)
            c.keep.append(i)
            c.add_fact(
                z3.Implies(
                    z3.And(i >= 0, i < self.n, zb(self.pred(i))), self._rank_facts(i)
                )
            )
            self.at(self.rk(i))
        return self.rk(i)


def canon_index(n, k=0):
    return z3.Int(f"canon!{k}")


def get_sel(mask):
    """Selection of a 1-d SArr mask (shared between structurally equal masks)."""
    c = ctx()
    rd = mask.reader()
    n = zi(mask.shape[0])
    ci = canon_index(n)
    body = zb(_boole(rd((ci,))))
    key = ("sel", z3.simplify(n).get_id(), body.get_id())
    c.keep += [body, n]
    if key not in c.memo:
        def pred(i):
            return _boole(rd((tidx(i),)))

        s = Sel(n, pred)
        c.memo[key] = s
        c.reg_index(n, ci) if False else None
    return c.memo[key]


def _boole(x):
    """bool/SBool element -> Python bool or z3 Bool."""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, SNum):
        r = core.compare("!=", x, 0)
        return r if isinstance(r, bool) else r.e
    return bool(x)


# ---------------------------------------------------------------------------
# Indexing
# ---------------------------------------------------------------------------


def _norm_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = tuple(
        _array(list(k) if isinstance(k, tuple) else k, copy=False) if isinstance(k, (list, tuple, _np.ndarray, range)) else k
        for k in key
    )
    # shim slice objects carry symbolic bounds natively (CPython slice keeps objects)
    n_used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, ndarray) and k.dt.kind == "b":
            n_used += k.ndim
        else:
            n_used += 1
    if n_used > len(a.shape):
        raise IndexError("too many indices for array")
    out = []
    seen = False
    for k in key:
        if k is Ellipsis and not seen:
            seen = True
            out += [slice(None)] * (len(a.shape) - n_used)
        else:
            out.append(k)
    if not seen:
        out += [slice(None)] * (len(a.shape) - n_used)
    return out


def _is_sym_scalar_int(k):
    return isinstance(k, SNum) or (isinstance(k, ndarray) and k.ndim == 0)


def _chk_index(i, n):
    """Normalise an integer index against dimension n (raising IndexError)."""
    if isinstance(i, ndarray):
        i = i.item()
    if isinstance(i, float) or (isinstance(i, SNum) and i.kind == "f"):
        raise IndexError("only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices")
    i = _cint(i)
    if isinstance(i, (int, _np.integer)) and isinstance(n, int):
        i = int(i)
        if not -n <= i < n:
            raise IndexError("index out of bounds")
        return i + n if i < 0 else i
    si, sn = lift(i), lift(n)
    if isinstance(i, int):
        if i >= 0:
            if not bool(core.compare("<", si, sn)):
                raise IndexError("index out of bounds")
            return i
        if not bool(core.compare("<=", -i, sn)):
            raise IndexError("index out of bounds")
        return tidx((sn + i).e)
    if bool(core.compare("<", si, 0)):
        if not bool(core.compare("<=", -si, sn)):
            raise IndexError("index out of bounds")
        return tidx((si + sn).e)
    if not bool(core.compare("<", si, sn)):
        raise IndexError("index out of bounds")
    return tidx(si.e)


def _slice(k, n):
    """(start, step, length) of a slice on dimension n."""
    start, stop, step = k.start, k.stop, k.step
    start, stop, step = [None if x is None else _cint(x) for x in (start, stop, step)]
    for x in (start, stop, step):
        if isinstance(x, float) or (isinstance(x, SNum) and x.kind == "f"):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
    if step is not None and not isinstance(step, int):
        # (forks on a step of one in either direction)
        for v in (1, -1):
            if bool(step == v):
                step = v
                break
        else:
            raise Unsupported("symbolic slice step")
    step = 1 if step is None else step
    if step == 0:
        raise ValueError("slice step cannot be zero")
    if isinstance(n, int) and builtins.all(x is None or isinstance(x, int) for x in (start, stop)):
        s, e_, st = slice(start, stop, step).indices(n)
        return s, st, len(range(s, e_, st))
    N = lift(n)

    def clampi(x, default, lo, hi):
        if x is None:
            return lift(default)
        X = lift(x)
        if isinstance(x, int) and x >= 0:
            r = X
        elif isinstance(x, int):
            r = lift(X + N)
        else:
            r = lift(s_ite(core.compare("<", X, 0), X + N, X))
        r = lift(s_ite(core.compare("<", r, lo), lo, r))
        r = lift(s_ite(core.compare("<", hi, r), hi, r))
        return r

    if step > 0:
        s = clampi(start, 0, lift(0), N)
        e_ = clampi(stop, n, lift(0), N)
    else:
        s = clampi(start, N - 1, lift(-1), lift(N - 1))
        e_ = clampi(stop, -1, lift(-1), lift(N - 1))
    if step == 1:
        L = lift(e_ - s)
    elif step == -1:
        L = lift(s - e_)
    elif step > 0:
        L = lift((e_ - s + (step - 1)) // step)
    else:
        L = lift((s - e_ + (-step - 1)) // (-step))
    c = ctx()
    if not c.entails(L.e >= 0):
        L = lift(s_ite(core.compare("<", L, 0), 0, L))
    Ld = dim(L)
    if isinstance(Ld, SNum):
        # prefer a known equal dimension
        if c.entails(Ld.e == N.e):
            Ld = dim(n)
    return tidx(s.e), step, Ld


def getitem(a, key):
    if isinstance(key, str):
        raise Unsupported("structured array")
    ks = _norm_key(a, key)
    adv = [k for k in ks if isinstance(k, ndarray) and k.ndim > 0 or isinstance(k, ndarray) and k.dt.kind == "b"]
    if not adv:
        return _basic_get(a, ks)
    return _adv_get(a, ks)


def _bool_scalar_key(k):
    return isinstance(k, (bool, SBool))


def _basic_get(a, ks):
    if builtins.any(_bool_scalar_key(k) for k in ks):
        raise Unsupported("boolean scalar index")
    if isinstance(a, CArr):
        out = []
        symk = []
        j = 0
        for k in ks:
            if k is None:
                out.append(None)
                continue
            n = a.a.shape[j]
            if isinstance(k, slice):
                s, st, L = _slice(k, n)
                if isinstance(s, int) and isinstance(L, int):
                    e_ = s + st * L
                    out.append(slice(s, e_ if e_ >= 0 else None, st) if L > 0 else slice(0, 0))
                else:
                    # symbolic slice of a concrete array: treat as symbolic array
                    return _basic_get(_to_sarr(a), ks)
            else:
                i = _chk_index(k, n)
                if isinstance(i, int):
                    out.append(i)
                else:
                    symk.append((len(out), j, i))
                    out.append(slice(None))
            j += 1
        if not symk:
            r = a.a[tuple(out)]
            return CArr(r, a.dt) if isinstance(r, _np.ndarray) else _item(r)
        # symbolic integer index into concrete axes: select chains
        idx2 = {p: i for p, _, i in symk}
        n_none = 0
        base = a.a[tuple(out)]
        # axes in base corresponding to symbolic positions
        axmap = []
        ax = 0
        for p, o in enumerate(out):
            if o is None or isinstance(o, slice):
                if p in idx2:
                    axmap.append((ax, idx2[p]))
                ax += 1
        shape = tuple(d for k, d in enumerate(base.shape) if k not in [x for x, _ in axmap])
        res = _obj(shape)
        bc = CArr(base, a.dt)
        for i in _np.ndindex(*shape):
            it = list(i)
            full = []
            for k in range(base.ndim):
                hit = [t for x, t in axmap if x == k]
                full.append(hit[0] if hit else it.pop(0))
            res[i] = bc._get(tuple(full))
        return _wrap(res, a.dt)
    # SArr
    newshape = []
    mp = {}
    consts = {}
    starts = {}
    j = 0
    for k in ks:
        if k is None:
            newshape.append(1)
            continue
        n = a.shape[j]
        if isinstance(k, slice):
            s, st, L = _slice(k, n)
            mp[j] = (len(newshape), s, st)
            newshape.append(L)
        else:
            consts[j] = _chk_index(k, n)
        j += 1
    axes = []
    for ax in a.axes:
        if ax[0] == "c":
            axes.append(ax)
            continue
        _, k, st0, sp0 = ax
        if k in consts:
            axes.append(("c", _lin(st0, sp0, consts[k])))
        else:
            nk_, s, st = mp[k]
            axes.append(("a", nk_, _lin(st0, sp0, s), sp0 * st))
    r = SArr(a.buf, tuple(newshape), axes, a.dt, a.readonly)
    if r.ndim == 0:
        return r._get(())
    return r


def _lin(start, step, i):
    if isinstance(start, int) and isinstance(step, int) and isinstance(i, int):
        return start + step * i
    return tidx(zi(start) + zi(step) * zi(i))


def _to_sarr(a):
    if isinstance(a, SArr):
        return a
    s = a.snapshot()
    r = SArr.from_fn(s._get, a.shape, a.dt)
    r.readonly = True
    return r


def _expand_masks(a, ks):
    """Replace boolean arrays by integer index arrays (numpy nonzero)."""
    out = []
    j = 0
    for k in ks:
        if isinstance(k, ndarray) and k.dt.kind == "b":
            for t, d in enumerate(k.shape):
                if not dims_eq_syntactic(d, a.shape[j + t]) and not dims_same(d, a.shape[j + t]):
                    raise IndexError("boolean index did not match indexed array")
            out.extend(nonzero(k))
            j += k.ndim
        else:
            out.append(k)
            if k is not None:
                j += 1
    return out


def _adv_get(a, ks):
    ks = _expand_masks(a, ks)
    # plan: result dims
    advpos = [p for p, k in enumerate(ks) if isinstance(k, ndarray) or not (k is None or isinstance(k, slice))]
    adjacent = advpos == list(range(advpos[0], advpos[-1] + 1))
    advs = []
    j = 0
    dims_basic = []  # list of (position-in-ks, newdim)
    plan = []  # per array axis
    for p, k in enumerate(ks):
        if k is None:
            dims_basic.append((p, 1, None))
            continue
        n = a.shape[j]
        if isinstance(k, slice):
            s, st, L = _slice(k, n)
            dims_basic.append((p, L, (j, s, st)))
        else:
            if isinstance(k, ndarray):
                if k.dt.kind not in "iu":
                    if k.dt.kind == "f" and k.size == 0:
                        k = k.astype(builtins.int)
                    else:
                        raise IndexError("arrays used as indices must be of integer (or boolean) type")
                k = _check_fancy(k, n)
            else:
                k = asarray(SNum(zi(_chk_index(k, n))) if not isinstance(_cint(k), int) else _chk_index(k, n))
            advs.append((p, j, k))
        j += 1
    ashape = broadcast_shape(*[k.shape for _, _, k in advs])
    ops = [(jx, operand(k)) for _, jx, k in advs]
    before = [d for d in dims_basic if d[0] < advpos[0]] if adjacent else []
    after = [d for d in dims_basic if d not in before]
    shape = tuple(d[1] for d in before) + ashape + tuple(d[1] for d in after)
    nb, na = len(before), len(ashape)
    if isinstance(a, CArr):
        rd = a.snapshot()._get
    else:
        rd = a.reader()

    def elem(idx):
        src = [None] * len(a.shape)
        ai = idx[nb : nb + na]
        for jx, (s, r, _) in ops:
            k = na - len(s)
            v = r(tuple(0 if (isinstance(d, int) and d == 1) else _bi(ai[k + t], d, ashape[k + t]) for t, d in enumerate(s)))
            v = v if isinstance(v, int) else tidx(zi(v))
            src[jx] = v
        for t, d in enumerate(before):
            if d[2] is not None:
                jx, s, st = d[2]
                src[jx] = _lin(s, st, idx[t])
        for t, d in enumerate(after):
            if d[2] is not None:
                jx, s, st = d[2]
                src[jx] = _lin(s, st, idx[nb + na + t])
        return rd(tuple(src))

    if concrete(shape) and builtins.all(isinstance(k, CArr) for _, _, k in advs):
        out = _obj(shape)
        for i in _np.ndindex(*shape):
            out[i] = _item(elem(i))
        return _wrap(out, a.dt)
    return SArr.from_fn(elem, shape, a.dt)


def _check_fancy(k, n):
    """Bounds-check an integer index array and wrap negative indices."""
    if isinstance(k, CArr):
        out = _obj(k.a.shape)
        for i in _np.ndindex(*k.a.shape):
            v = _chk_index(k.a[i], n)
            out[i] = v if isinstance(v, int) else SNum(v)
        return CArr(out, I8)
    if getattr(k, "inbounds", None) is not None and dims_eq_syntactic(k.inbounds, dim(n)):
        return k
    bad = any((k < -n if isinstance(n, int) else k < -lift(n)) | (k >= n))
    if bool(bad):
        raise IndexError("index out of bounds")
    if bool(any(k < 0)):
        k = where(k < 0, k + n, k)
    return k


def setitem(a, key, value):
    if isinstance(a, SArr) and a.readonly:
        raise Unsupported("write through a reshaped copy of a symbolic array")
    ks = _norm_key(a, key)
    adv = [k for k in ks if isinstance(k, ndarray) and (k.ndim > 0 or k.dt.kind == "b")]
    if isinstance(value, (list, tuple, _np.ndarray, range)):
        value = _array(value, copy=False)
    if isinstance(a, CArr):
        return _c_setitem(a, ks, adv, value)
    return _s_setitem(a, ks, adv, value)


def _c_setitem(a, ks, adv, value):
    # fully concrete keys: numpy does it
    nk = []
    simple = True
    j = 0
    maskcond = None
    for k in ks:
        if k is None:
            nk.append(None)
            continue
        if isinstance(k, ndarray):
            if not isinstance(k, CArr):
                # symbolic-length index into a concrete array
                k2 = _concretize_array(k)
                if k2 is None:
                    raise Unsupported("symbolic-length index into concrete array")
                k = k2
            if k.dt.kind == "b":
                if builtins.all(isinstance(x, bool) for x in k.a.reshape(-1)):
                    nk.append(k.a.astype(bool))
                else:
                    simple = False
                    nk.append(k)
                j += k.ndim
                continue
            kk = _obj(k.a.shape)
            for i in _np.ndindex(*k.a.shape):
                v = _chk_index(k.a[i], a.a.shape[j])
                if not isinstance(v, int):
                    simple = False
                kk[i] = v
            nk.append(kk.astype(int) if simple else CArr(kk, I8))
            j += 1
            continue
        n = a.a.shape[j]
        if isinstance(k, slice):
            s, st, L = _slice(k, n)
            if not (isinstance(s, int) and isinstance(L, int)):
                raise Unsupported("symbolic slice assignment into a concrete array")
            e_ = s + st * L
            nk.append(slice(s, e_ if e_ >= 0 else None, st) if L > 0 else slice(0, 0))
        else:
            i = _chk_index(k, n)
            if not isinstance(i, int):
                simple = False
            nk.append(i)
        j += 1
    if simple:
        tgt = a.a[tuple(nk)]
        tshape = tgt.shape if isinstance(tgt, _np.ndarray) else ()
        if isinstance(value, ndarray):
            if isinstance(value, SArr):
                value = _force_c(value, tshape)
            v = value.a
            while v.ndim > len(tshape) and v.shape[0] == 1:
                v = v[0]
            v = _np.broadcast_to(v, tshape)
            tmp = _obj(tshape)
            for i in _np.ndindex(*tshape):
                tmp[i] = cast_scalar(v[i], a.dt)
            a.a[tuple(nk)] = tmp if tshape != () else tmp.item()
        else:
            v = cast_scalar(_item(value), a.dt)
            if tshape == ():
                a.a[tuple(nk)] = v
            else:
                tmp = _obj(tshape)
                for i in _np.ndindex(*tshape):
                    tmp[i] = v
                a.a[tuple(nk)] = tmp
        return
    # boolean mask with symbolic entries
    masks = [k for k in nk if isinstance(k, CArr) and k.dt.kind == "b"]
    if len(masks) == 1 and not isinstance(value, ndarray):
        m = masks[0]
        p = [i for i, k in enumerate(nk) if k is m][0]
        if builtins.all(not isinstance(k, CArr) or k is m for k in nk):
            v = cast_scalar(_item(value), a.dt)
            for i in _np.ndindex(*m.a.shape):
                cond = m.a[i]
                sub = tuple(nk[:p]) + i + tuple(nk[p + 1 :])
                cur = a.a[sub]
                if isinstance(cur, _np.ndarray):
                    tmp = _obj(cur.shape)
                    for q in _np.ndindex(*cur.shape):
                        tmp[q] = s_ite(_sb(cond), v, cur[q])
                    a.a[sub] = tmp
                else:
                    a.a[sub] = s_ite(_sb(cond), v, cur)
            return
    if masks:
        # fork on mask entries
        nk2 = []
        for k in nk:
            if isinstance(k, CArr) and k.dt.kind == "b":
                b = _np.empty(k.a.shape, dtype=bool)
                for i in _np.ndindex(*k.a.shape):
                    b[i] = bool(k.a[i])
                k = CArr(b.astype(object), B1)
            nk2.append(k)
        return _c_setitem(a, nk2, adv, value)
    # symbolic integer indices: all-scalar case
    if builtins.all(not isinstance(k, CArr) for k in nk):
        sym = [(p, k) for p, k in enumerate(nk) if isinstance(k, z3.ExprRef)]
        rng = [range(a.a.shape[p]) for p, _ in sym]
        for combo in _np.ndindex(*[len(r) for r in rng]):
            cond = b_and(*[k == combo[t] for t, (p, k) in enumerate(sym)])
            sub = list(nk)
            for t, (p, k) in enumerate(sym):
                sub[p] = combo[t]
            sub = tuple(sub)
            cur = a.a[sub]
            if isinstance(cur, _np.ndarray):
                val = _array(value, copy=False) if isinstance(value, ndarray) else None
                for q in _np.ndindex(*cur.shape):
                    vv = _np.broadcast_to(val.a, cur.shape)[q] if val is not None else value
                    cur[q] = s_ite(cond, cast_scalar(_item(vv), a.dt), cur[q])
            else:
                vv = value.item() if isinstance(value, ndarray) else value
                a.a[sub] = s_ite(cond, cast_scalar(_item(vv), a.dt), cur)
        return
    # arrays of symbolic integers (1 element at a time, in order)
    arrs = [k for k in nk if isinstance(k, CArr)]
    if builtins.all(isinstance(k, (CArr, int, z3.ExprRef)) for k in nk):
        sh = broadcast_shape(*[k.a.shape for k in arrs])
        for i in _np.ndindex(*sh):
            sub = tuple(
                SNum(zi(_np.broadcast_to(k.a, sh)[i])) if isinstance(k, CArr) else (SNum(k) if isinstance(k, z3.ExprRef) else k)
                for k in nk
            )
            v = _np.broadcast_to(value.a, sh)[i] if isinstance(value, CArr) else value
            setitem(a, sub, v)
        return
    raise Unsupported("assignment with symbolic index array")


def _concretize_array(k):
    if concrete(k.shape):
        return _force_c(k, k.shape)
    return None


def _force_c(a, shape):
    """CArr of an SArr whose dims are (provably) concrete."""
    if isinstance(a, CArr):
        return a
    sh = []
    for d, t in zip(a.shape, shape[len(shape) - len(a.shape):] if len(shape) >= len(a.shape) else a.shape):
        if isinstance(d, int):
            sh.append(d)
        elif isinstance(t, int) and dims_same(d, t):
            sh.append(t)
        elif bool(core.compare("==", d, 1)):
            sh.append(1)
        else:
            raise ValueError("could not broadcast input array")
    out = _obj(tuple(sh))
    for i in _np.ndindex(*sh):
        out[i] = a._get(i)
    return CArr(out, a.dt)


def _sb(x):
    return x.e if isinstance(x, SBool) else bool(x)


def _s_setitem(a, ks, adv, value):
    old = a.buf.reader()
    dt = a.dt
    if adv:
        return _s_adv_set(a, ks, adv, value)
    view = _basic_view(a, ks)
    vshape = view.shape
    vs, vr, vdt = operand(value)
    if not isinstance(value, ndarray):
        vs = ()
    # broadcast check
    vs2 = vs
    while len(vs2) > len(vshape) and isinstance(vs2[0], int) and vs2[0] == 1:
        vs2 = vs2[1:]
    drop = len(vs) - len(vs2)
    if len(vs2) > len(vshape):
        raise ValueError("could not broadcast input array")
    off = len(vshape) - len(vs2)
    for t, d in enumerate(vs2):
        if isinstance(d, int) and d == 1:
            continue
        if not dims_eq_syntactic(d, vshape[off + t]) and not dims_same(d, vshape[off + t]):
            if not isinstance(d, int) and bool(core.compare("==", d, 1)):
                continue
            raise ValueError("could not broadcast input array")

    full = builtins.all(
        ax[0] == "a" and isinstance(ax[2], int) and ax[2] == 0 and ax[3] == 1
        and dims_eq_syntactic(view.shape[ax[1]], a.buf.shape[d])
        for d, ax in enumerate(view.axes)
    )

    def fn(b):
        conds = []
        idx = [0] * len(vshape)
        for d, ax in enumerate(view.axes):
            if ax[0] == "c":
                x, y = b[d], ax[1]
                if isinstance(x, int) and isinstance(y, int):
                    conds.append(x == y)
                else:
                    conds.append(core._simpb(zi(x) == zi(y)))
            else:
                _, k, s, st = ax
                if isinstance(b[d], int) and isinstance(s, int):
                    df = b[d] - s
                    conds.append(df % st == 0)
                    i = df // st
                else:
                    df = zi(b[d]) - zi(s)
                    if st == 1:
                        i = tidx(df)
                    elif st == -1:
                        i = tidx(-df)
                    else:
                        conds.append(core._simpb(df % builtins.abs(st) == 0))
                        i = tidx(z3.simplify(df / st if st > 0 else (-df) / (-st)))
                idx[k] = i
                if not full:
                    n = vshape[k]
                    if isinstance(i, int) and isinstance(n, int):
                        conds.append(0 <= i < n)
                    else:
                        same_dim = (
                            isinstance(s, int) and s == 0 and st == 1
                            and dims_eq_syntactic(dim(n), a.buf.shape[d])
                        )
                        if not same_dim:
                            conds.append(core._simpb(z3.And(zi(i) >= 0, zi(i) < zi(n))))
        cond = b_and(*conds)
        if bval(cond) is False:
            return old(b)
        vi = tuple(
            0 if (isinstance(d, int) and d == 1) else _bi(idx[off + t], d, vshape[off + t])
            for t, d in enumerate(vs2)
        )
        new = cast_scalar(_item(vr((0,) * drop + vi)), dt)
        if bval(cond) is True:
            return new
        return s_ite(cond, new, old(b))

    a.buf.update(fn)


def _basic_view(a, ks):
    r = None
    newshape, mp, consts = [], {}, {}
    j = 0
    for k in ks:
        if k is None:
            newshape.append(1)
            continue
        n = a.shape[j]
        if isinstance(k, slice):
            s, st, L = _slice(k, n)
            mp[j] = (len(newshape), s, st)
            newshape.append(L)
        else:
            consts[j] = _chk_index(k, n)
        j += 1
    axes = []
    for ax in a.axes:
        if ax[0] == "c":
            axes.append(ax)
            continue
        _, k, st0, sp0 = ax
        if k in consts:
            axes.append(("c", _lin(st0, sp0, consts[k])))
        else:
            nk_, s, st = mp[k]
            axes.append(("a", nk_, _lin(st0, sp0, s), sp0 * st))
    return SArr(a.buf, tuple(newshape), axes, a.dt)


def _s_adv_set(a, ks, adv, value):
    """Assignment through masks or index arrays (functional update)."""
    identity = builtins.all(
        ax[0] == "a" and isinstance(ax[2], int) and ax[2] == 0 and ax[3] == 1 for ax in a.axes
    ) and len(a.axes) == len(a.shape)
    if not identity:
        # work on a copy of the view, then store it back
        tmp = a.copy()
        _s_adv_set(tmp, ks, adv, value)
        _s_setitem(a, [slice(None)] * a.ndim, [], tmp)
        return
    old = a.buf.reader()
    dt = a.dt
    masks = [k for k in adv if k.dt.kind == "b"]
    if len(adv) == 1 and masks:
        m = masks[0]
        p = [i for i, k in enumerate(ks) if k is m][0]
        if builtins.any(k is None for k in ks):
            raise Unsupported("newaxis in assignment")
        for t, d in enumerate(m.shape):
            if not dims_eq_syntactic(d, a.shape[p + t]) and not dims_same(d, a.shape[p + t]):
                raise IndexError("boolean index did not match indexed array")
        mrd = operand(m)[1]
        rest = []
        for q, k in enumerate(ks):
            if q == p:
                continue
            jx = q if q < p else q + m.ndim - 1
            if isinstance(k, slice):
                s, st, L = _slice(k, a.shape[jx])
                rest.append((jx, "s", s, st, L))
            else:
                rest.append((jx, "c", _chk_index(k, a.shape[jx])))
        isarr = isinstance(value, ndarray) and value.ndim > 0
        if isarr:
            if m.ndim == 2 and rest:
                raise Unsupported("array assigned through a partial 2-d mask")
            if isinstance(m, CArr):
                raise Unsupported("concrete mask on symbolic array with array value")
            sel = get_sel(m if m.ndim == 1 else m.ravel())
            vs, vr, _ = operand(value)
            # result dims: mask dim at position of mask among remaining slices
            vdims = []
            for q, k in enumerate(ks):
                if q == p:
                    vdims.append(("m", None))
                elif isinstance(k, slice):
                    jx = q if q < p else q + m.ndim - 1
                    vdims.append(("s", jx))
            off = len(vdims) - len(vs)
            if off < 0:
                raise ValueError("could not broadcast input array")
            mdim = dim(SNum(sel.m))
            for t, d in enumerate(vs):
                kind, jx = vdims[off + t]
                tgt = mdim if kind == "m" else [r[4] for r in rest if r[0] == jx][0]
                if isinstance(d, int) and d == 1:
                    continue
                if not dims_eq_syntactic(d, tgt) and not dims_same(d, tgt):
                    if not isinstance(d, int) and bool(core.compare("==", d, 1)):
                        continue
                    raise ValueError(
                        "NumPy boolean array indexing assignment cannot assign input values"
                    )

        def fn(b):
            cond = [_boole(mrd(tuple(b[p + t] for t in range(m.ndim))))]
            pos = {}
            for r in rest:
                jx = r[0]
                if r[1] == "c":
                    cond.append(_ieq(b[jx], r[2]))
                else:
                    _, _, s, st, L = r
                    i, cnd = _inv_slice(b[jx], s, st, L, a.shape[jx])
                    pos[jx] = i
                    cond.append(cnd)
            cnd = b_and(*cond)
            if bval(cnd) is False:
                return old(b)
            if isarr:
                vi = []
                for t, d in enumerate(vs):
                    kind, jx = vdims[off + t]
                    if isinstance(d, int) and d == 1:
                        vi.append(0)
                    elif kind == "m":
                        pos_b = b[p] if m.ndim == 1 else zi(b[p]) * zi(m.shape[1]) + zi(b[p + 1])
                        vi.append(_bi(sel.rank(pos_b), d, mdim))
                    else:
                        vi.append(pos[jx])
                new = vr(tuple(vi))
            else:
                new = value.item() if isinstance(value, ndarray) else value
            return s_ite(cnd, cast_scalar(_item(new), dt), old(b))

        a.buf.update(fn)
        return
    # integer index arrays of concrete shape: sequence of single writes
    if builtins.all(isinstance(k, CArr) and k.dt.kind in "iu" for k in adv):
        sh = broadcast_shape(*[k.shape for k in adv])
        lead = 0
        while lead < len(ks) and isinstance(ks[lead], CArr):
            lead += 1
        rest = ks[lead:]
        if len(sh) == 1 and lead == len(adv) and builtins.all(isinstance(k, slice) for k in rest):
            v = _array(value, copy=False) if isinstance(value, ndarray) else None
            if v is not None and v.ndim == 0:
                v, value = None, v.item()
            whole = a.ndim - lead + 1
            for i in range(sh[0]):
                sub = tuple(_np.broadcast_to(k.a, sh)[i] for k in ks[:lead]) + tuple(rest)
                if v is None or v.ndim < whole:
                    x = value
                    if v is not None and whole == 1:
                        raise Unsupported("broadcast assignment")
                else:
                    if v.ndim != whole or not dims_same(v.shape[0], sh[0]) and v.shape[0] != 1:
                        raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
                    x = v[i if v.shape[0] != 1 else 0] if whole > 1 else v._get((i if v.shape[0] != 1 else 0,))
                setitem(a, sub, x)
            return
        if len(sh) == 1 and builtins.all(isinstance(k, CArr) or not isinstance(k, slice) for k in ks):
            for i in range(sh[0]):
                sub = tuple(
                    _np.broadcast_to(k.a, sh)[i] if isinstance(k, CArr) else k for k in ks
                )
                v = _array(value, copy=False) if isinstance(value, ndarray) else None
                setitem(a, sub, v._get((i if v.shape[0] != 1 else 0,)) if v is not None else value)
            return
    # injective index arrays (selections)
    if len(adv) == 1 and isinstance(adv[0], SArr) and getattr(adv[0], "sel", None) is not None:
        sel = adv[0].sel
        m = SArr.from_fn(lambda idx: mkbool(sel.pred(zi(idx[0]))), (SNum(sel.n),), B1)
        ks2 = [m if k is adv[0] else k for k in ks]
        return _s_adv_set(a, ks2, [m], value)
    raise Unsupported("assignment through a symbolic index array")


def _ieq(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    return core._simpb(zi(x) == zi(y))


def _inv_slice(b, s, st, L, n):
    if isinstance(b, int) and isinstance(s, int):
        df = b - s
        i = df // st
        c0 = df % st == 0
    else:
        df = zi(b) - zi(s)
        if st == 1:
            i, c0 = tidx(df), True
        elif st == -1:
            i, c0 = tidx(-df), True
        else:
            raise Unsupported("strided assignment")
    if isinstance(s, int) and s == 0 and st == 1 and dims_eq_syntactic(dim(L), dim(n)):
        return i, True
    if isinstance(i, int) and isinstance(L, int):
        return i, c0 and 0 <= i < L
    return i, b_and(c0, core._simpb(z3.And(zi(i) >= 0, zi(i) < zi(L))))


from .symnp2 import *  # noqa: E402,F401,F403
from . import symnp2 as _s2  # noqa: E402

for _n in _s2.PUBLIC:
    globals()[_n] = getattr(_s2, _n)
linalg = _s2.linalg
random = _s2.random
math = _s2.math
ma = None

"""Symbolic datetimes: integer microseconds since an epoch."""
import datetime as _dt
from datetime import *  # noqa: F401,F403

from . import core
from .core import SBool, SNum, Sym, Unsupported, lift, mkbool, s_ite, z3

EPOCH = _dt.datetime(2000, 1, 1)
MIN, MAX, UTC = _dt.MINYEAR, _dt.MAXYEAR, getattr(_dt, "UTC", None)
timezone, tzinfo, time, date = _dt.timezone, _dt.tzinfo, _dt.time, _dt.date


def _us(x):
    """Microseconds of a (real or symbolic) timedelta as z3 Int."""
    if isinstance(x, SDelta):
        return x.us
    if isinstance(x, _dt.timedelta):
        return z3.IntVal(round(x / _dt.timedelta(microseconds=1)))
    return None


def _at(x):
    if isinstance(x, SDate):
        return x.us
    if isinstance(x, _dt.datetime):
        d = x - EPOCH
        return z3.IntVal(d.days * 86400000000 + d.seconds * 1000000 + d.microseconds)
    return None


def _cmp(op, a, b):
    return core.compare(op, SNum(a), SNum(b))


class _Ord:
    __slots__ = ()

    def __lt__(self, o):
        b = self._conv(o)
        return NotImplemented if b is None else _cmp("<", self.us, b)

    def __le__(self, o):
        b = self._conv(o)
        return NotImplemented if b is None else _cmp("<=", self.us, b)

    def __gt__(self, o):
        b = self._conv(o)
        return NotImplemented if b is None else _cmp("<", b, self.us)

    def __ge__(self, o):
        b = self._conv(o)
        return NotImplemented if b is None else _cmp("<=", b, self.us)

    def __eq__(self, o):
        b = self._conv(o)
        return False if b is None else _cmp("==", self.us, b)

    def __ne__(self, o):
        b = self._conv(o)
        return True if b is None else _cmp("!=", self.us, b)

    def __hash__(self):
        return hash(self.us.get_id())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SDelta(_Ord):
    __slots__ = ("us",)
    __array_ufunc__ = None

    def __init__(self, us):
        self.us = us

    _conv = staticmethod(_us)

    def total_seconds(self):
        return SNum(core.t_div(core.to_real(self.us), z3.RealVal(10**6)))

    def __add__(self, o):
        b = _us(o)
        if b is not None:
            return SDelta(core.t_add(self.us, b))
        b = _at(o)
        if b is not None:
            return SDate(core.t_add(self.us, b))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        b = _us(o)
        return NotImplemented if b is None else SDelta(core.t_sub(self.us, b))

    def __rsub__(self, o):
        b = _us(o)
        if b is not None:
            return SDelta(core.t_sub(b, self.us))
        b = _at(o)
        return NotImplemented if b is None else SDate(core.t_sub(b, self.us))

    def __neg__(self):
        return SDelta(core.t_neg(self.us))

    def __abs__(self):
        return SDelta(core.s_abs(SNum(self.us)).e)

    _sym_abs = __abs__

    def __bool__(self):
        return bool(_cmp("!=", self.us, z3.IntVal(0)))

    def __truediv__(self, o):
        b = _us(o)
        if b is not None:
            if bool(_cmp("==", b, z3.IntVal(0))):
                raise ZeroDivisionError
            return core.arith("/", SNum(core.to_real(self.us)), SNum(core.to_real(b)))
        if isinstance(o, (int, float, SNum)):
            if bool(core.compare("==", lift(o), 0)):
                raise ZeroDivisionError
            return _round_us(core.arith("/", SNum(core.to_real(self.us)), o))
        return NotImplemented

    def __rtruediv__(self, o):
        b = _us(o)
        if b is None:
            return NotImplemented
        if not self:
            raise ZeroDivisionError
        return core.arith("/", SNum(core.to_real(b)), SNum(core.to_real(self.us)))

    def __floordiv__(self, o):
        b = _us(o)
        if b is not None:
            if bool(_cmp("==", b, z3.IntVal(0))):
                raise ZeroDivisionError
            return SNum(core.int_floordiv(self.us, b))
        return NotImplemented

    def __mod__(self, o):
        b = _us(o)
        if b is None:
            return NotImplemented
        if bool(_cmp("==", b, z3.IntVal(0))):
            raise ZeroDivisionError
        return SDelta(self.us - b * core.int_floordiv(self.us, b))

    def __mul__(self, o):
        if isinstance(o, (int, SNum)) and not isinstance(o, bool):
            x = lift(o)
            if x.kind == "i":
                return SDelta(core.t_mul(self.us, x.e))
            return _round_us(core.arith("*", SNum(core.to_real(self.us)), o))
        if isinstance(o, float):
            return _round_us(core.arith("*", SNum(core.to_real(self.us)), o))
        return NotImplemented

    __rmul__ = __mul__

    def _sym_ite(self, c, o, swap):
        b = _us(o)
        if b is None:
            raise Unsupported("ite of mixed kinds")
        x, y = (b, self.us) if swap else (self.us, b)
        return SDelta(core.r_ite(c, x, y))

    def __repr__(self):
        return f"SDelta({self.us})"


def _round_us(x):
    """timedelta arithmetic rounds half to even microseconds."""
    r = core.lift(core.s_round(x))
    return SDelta(core.floor_int(core.to_real(r.e)))


class SDate(_Ord):
    __slots__ = ("us",)
    __array_ufunc__ = None

    def __init__(self, us):
        self.us = us

    _conv = staticmethod(_at)
    tzinfo = None

    def __add__(self, o):
        b = _us(o)
        return NotImplemented if b is None else SDate(core.t_add(self.us, b))

    __radd__ = __add__

    def __sub__(self, o):
        b = _us(o)
        if b is not None:
            return SDate(core.t_sub(self.us, b))
        b = _at(o)
        return NotImplemented if b is None else SDelta(core.t_sub(self.us, b))

    def __rsub__(self, o):
        b = _at(o)
        return NotImplemented if b is None else SDelta(core.t_sub(b, self.us))

    def __getattr__(self, n):
        raise Unsupported(f"datetime.{n}") if not n.startswith("__") else AttributeError(n)

    def _sym_ite(self, c, o, swap):
        b = _at(o)
        if b is None:
            raise Unsupported("ite of mixed kinds")
        x, y = (b, self.us) if swap else (self.us, b)
        return SDate(core.r_ite(c, x, y))

    def __repr__(self):
        return f"SDate({self.us})"


class _DateMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_dt.datetime, SDate))

    def __call__(cls, *a, **k):
        return _dt.datetime(*a, **k)

    def __getattr__(cls, n):
        return getattr(_dt.datetime, n)


class datetime(metaclass=_DateMeta):  # noqa: F811
    pass


_FACT = {
    "days": 86400 * 10**6,
    "seconds": 10**6,
    "microseconds": 1,
    "milliseconds": 1000,
    "minutes": 60 * 10**6,
    "hours": 3600 * 10**6,
    "weeks": 7 * 86400 * 10**6,
}
_ORDER = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]


class _DeltaMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_dt.timedelta, SDelta))

    def __call__(cls, *a, **k):
        d = dict(zip(_ORDER, a))
        d.update(k)
        d = {n: core.unlift(v) if isinstance(v, SNum) else v for n, v in d.items()}
        if not any(isinstance(v, Sym) for v in d.values()):
            return _dt.timedelta(**d)
        tot = SNum(z3.IntVal(0))
        for n, v in d.items():
            tot = core.arith("+", tot, core.arith("*", lift(v), _FACT[n]))
        tot = lift(tot)
        if tot.kind == "i":
            return SDelta(tot.e)
        return _round_us(tot)

    def __getattr__(cls, n):
        return getattr(_dt.timedelta, n)


class timedelta(metaclass=_DeltaMeta):  # noqa: F811
    pass

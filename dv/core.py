"""Core of the deductive verifier: symbolic scalars, path conditions, facts.

The verifier executes the *real* glimpse source (loaded from /repo on every run)
with symbolic scalars in place of numbers.  A symbolic scalar wraps a z3 term of
sort Real, Int or Bool.  Machine floats are treated as real numbers extended
with NaN and +/-infinity flags, machine integers as mathematical integers.

Branching on a symbolic condition forks the execution: the harness is executed
again for every feasible combination of branch decisions, so the obligations
collected over all paths cover every input.
"""
import math
import sys
from fractions import Fraction

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)

import z3  # noqa: E402

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    """Construct outside the verifier's reach (never a violation by itself)."""


class PathAbort(BaseException):
    """The current path is infeasible or was closed by an assumption."""


class Budget(BaseException):
    """Time or path budget exhausted (the obligation stays undecided)."""


# ---------------------------------------------------------------------------
# Terms
# ---------------------------------------------------------------------------

PI = z3.Real("pi!")


def _frac(x):
    """Exact rational of a float, preferring a short decimal/rational reading."""
    f = Fraction(x).limit_denominator(10 ** 6)
    if float(f) == x:
        return f
    return Fraction(repr(x))


def realval(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    f = _frac(float(x))
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def is_num(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def numval(e):
    """Fraction of a numeric z3 literal."""
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return Fraction(e.numerator_as_long(), e.denominator_as_long())


def bval(e):
    """Python bool of a z3 Bool literal, or None."""
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def zb(e):
    if e is True or e is False:
        return z3.BoolVal(e)
    return e


def b_and(*xs):
    out = []
    for x in xs:
        v = bval(x)
        if v is False:
            return False
        if v is None:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        v = bval(x)
        if v is True:
            return True
        if v is None:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_not(x):
    v = bval(x)
    if v is not None:
        return not v
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def b_ite(c, a, b):
    v = bval(c)
    if v is not None:
        return a if v else b
    va, vb = bval(a), bval(b)
    if va is not None and vb is not None:
        if va == vb:
            return va
        return c if va else b_not(c)
    if va is None and vb is None and a.eq(b):
        return a
    return z3.If(c, zb(a), zb(b))


def b_eq(a, b):
    va, vb = bval(a), bval(b)
    if va is not None:
        return b if va else b_not(b)
    if vb is not None:
        return a if vb else b_not(a)
    if a.eq(b):
        return True
    return a == b


def r_ite(c, a, b):
    v = bval(c)
    if v is not None:
        return a if v else b
    if a.eq(b):
        return a
    if CTX is not None and CTX.known and dag_size(c, 60) <= 60:
        v = CTX.lookup(z3.simplify(c))
        if v is not None:
            return a if v else b
    return z3.If(c, a, b)


def to_real(e):
    if e.sort() == z3.RealSort():
        return e
    if z3.is_int_value(e):
        return z3.RealVal(e.as_long())
    return z3.ToReal(e)


def t_add(a, b):
    if is_num(a):
        if is_num(b):
            return _mk(numval(a) + numval(b), a, b)
        if numval(a) == 0 and a.sort() == b.sort():
            return b
    elif is_num(b) and numval(b) == 0 and a.sort() == b.sort():
        return a
    return a + b


def t_neg(a):
    if is_num(a):
        return _mk(-numval(a), a, a)
    return -a


def t_sub(a, b):
    if is_num(a) and is_num(b):
        return _mk(numval(a) - numval(b), a, b)
    if is_num(b) and numval(b) == 0 and a.sort() == b.sort():
        return a
    if a.eq(b):
        return _mk(Fraction(0), a, b)
    return a - b


def t_mul(a, b):
    if is_num(a):
        if is_num(b):
            return _mk(numval(a) * numval(b), a, b)
        if numval(a) == 1 and a.sort() == b.sort():
            return b
        if numval(a) == 0 and a.sort() == b.sort():
            return a
    elif is_num(b):
        if numval(b) == 1 and a.sort() == b.sort():
            return a
        if numval(b) == 0 and a.sort() == b.sort():
            return b
    return a * b


def _mk(fr, a, b):
    if a.sort() == z3.IntSort() and b.sort() == z3.IntSort() and fr.denominator == 1:
        return z3.IntVal(int(fr))
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


# ---------------------------------------------------------------------------
# Context
# ---------------------------------------------------------------------------


class Obligation:
    __slots__ = ("name", "goal", "pc", "facts", "path", "kind", "detail")

    def __init__(self, name, goal, pc, facts, path, kind="ensure", detail=""):
        self.name, self.goal, self.pc, self.facts = name, goal, pc, facts
        self.path, self.kind, self.detail = path, kind, detail


class Ctx:
    """State of one symbolic path."""

    def __init__(self, prefix, shared):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.shared = shared
        self.pc = []  # path condition and assumptions
        self.facts = []  # definitional facts about fresh terms
        self.fact_ids = set()
        self.counter = {}
        self.obligations = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 400)
        self.timeout = 400
        self.lin = z3.Solver()  # linear integer part, for index reasoning
        self.lin.set("timeout", 400)
        self.known = {}  # conditions decided for good on this path
        self.inputs = []
        self.foralls = []  # (n_key, arity, fn)
        self.indices = {}  # n_key -> list of int terms
        self.memo = {}
        self.nonzero_cache = {}
        self.keep = []
        self.notes = set()
        self.add_fact(z3.And(PI > realval("3.14159265"), PI < realval("3.14159266")))

    # fresh names are deterministic along a path prefix
    def name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return f"{base}!{k}" if k else base

    def add_fact(self, e):
        v = bval(e)
        if v is True:
            return
        e = zb(e)
        i = e.get_id()
        if i in self.fact_ids:
            return
        self.fact_ids.add(i)
        self.facts.append(e)
        self.keep.append(e)
        self.solver.add(e)
        if int_linear(e):
            self.lin.add(e)

    def assume(self, e):
        v = bval(e)
        if v is True:
            return
        if v is False:
            raise PathAbort()
        e2 = z3.simplify(e)
        if z3.is_true(e2):
            return
        if z3.is_false(e2):
            raise PathAbort()
        self.pc.append(e)
        self.solver.add(e)
        if int_linear(e):
            self.lin.add(e)

    def check(self, *extra):
        self.shared.tick()
        from . import prover

        if any(prover.hard(e) for e in extra):
            return prover.checked(self.solver, self.timeout, *extra)
        return self.solver.check(*extra)

    def entails(self, e, timeout=300):
        """Whether the current facts and path condition entail e (sound, incomplete)."""
        v = bval(e)
        if v is not None:
            return v
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.known.get(e.get_id()):
            return True
        key = (e.get_id(), len(self.pc), len(self.facts))
        if key in self.memo:
            return self.memo[key]
        self.keep.append(e)
        if int_linear(e) and self.lin.check(z3.Not(e)) == z3.unsat:
            self.memo[key] = True
            return True
        self.solver.set("timeout", timeout)
        self.timeout = timeout
        r = self.check(z3.Not(e)) == z3.unsat
        self.solver.set("timeout", 400)
        self.timeout = 400
        self.memo[key] = r
        return r

    def decide(self, e):
        v = bval(e)
        if v is not None:
            return v
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        kn = self.lookup(s)
        if kn is not None:
            return kn
        self.shared.tick()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = self._decide(e, s)
            self.prefix.append(d)
        self.pos += 1
        self.decisions.append(d)
        self.record(s, d[0])
        self.assume_branch(e if d[0] else z3.Not(e))
        return d[0]

    def lookup(self, s):
        """Truth value of a simplified condition already decided on this path."""
        neg = False
        while z3.is_not(s):
            s, neg = s.arg(0), not neg
        kn = self.known.get(s.get_id())
        return None if kn is None else kn != neg

    def record(self, s, val):
        while z3.is_not(s):
            s, val = s.arg(0), not val
        self.keep.append(s)
        self.known[s.get_id()] = val
        if z3.is_le(s) or z3.is_ge(s):
            a, b = (s.arg(0), s.arg(1)) if z3.is_le(s) else (s.arg(1), s.arg(0))
            if not val:
                # b < a
                for t, v in ((b <= a, True), (a == b, False)):
                    t = z3.simplify(t)
                    while z3.is_not(t):
                        t, v = t.arg(0), not v
                    if not (z3.is_true(t) or z3.is_false(t)):
                        self.keep.append(t)
                        self.known.setdefault(t.get_id(), v)

    def known_value(self, e):
        return self.lookup(z3.simplify(e)) if self.known else None

    def _decide(self, e, s):
        """(value, alternative still to explore, is a fork)"""
        if int_linear(s):
            if self.lin.check(s) == z3.unsat:
                return (False, False, False)
            if self.lin.check(z3.Not(s)) == z3.unsat:
                return (True, False, False)
        if self.check(e) == z3.unsat:
            return (False, False, False)
        f = self.check(z3.Not(e)) != z3.unsat
        return (True, f, f)

    def assume_branch(self, e):
        self.pc.append(e)
        self.solver.add(e)
        if int_linear(e):
            self.lin.add(e)

    # -- bounded quantification -------------------------------------------
    def reg_index(self, n, i):
        """Register index term i of a domain of size n (for instantiation).

        Indices named while instantiating at another index are one generation
        later; instantiation stops at a fixed generation (fewer facts, still sound).
        """
        gen = self.memo.get("generation", 0)
        if gen > self.memo.get("generations", GENERATIONS):
            return
        key = nkey(n)
        lst = self.indices.setdefault(key, [])
        if any(j.eq(i) for j, _ in lst):
            return
        lst.append((i, gen))
        for k2, fn in list(self.foralls):
            if k2 == key:
                self.instantiate(n, i, gen, fn)

    def instantiate(self, n, i, gen, fn):
        old = self.memo.get("generation", 0)
        self.memo["generation"] = gen + 1
        try:
            self.add_fact(z3.Implies(z3.And(i >= 0, i < n), zb(fn(i))))
        finally:
            self.memo["generation"] = old

    def reg_forall(self, n, fn):
        key = nkey(n)
        self.foralls.append((key, fn))
        for i, gen in list(self.indices.get(key, [])):
            self.instantiate(n, i, gen, fn)


GENERATIONS = 4
_LIN = {}
_LIN_OPS = {
    z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR,
    z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_IFF, z3.Z3_OP_XOR, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
    z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_ANUM, z3.Z3_OP_UNINTERPRETED,
}


def int_linear(e):
    """Whether e is a small formula of linear integer arithmetic."""
    k = e.get_id()
    hit = _LIN.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    r, n, st = True, 0, [e]
    while st:
        x = st.pop()
        n += 1
        if n > 200 or not z3.is_app(x):
            r = False
            break
        kd = x.decl().kind()
        so = x.sort_kind()
        if kd not in _LIN_OPS or so not in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT):
            r = False
            break
        if kd == z3.Z3_OP_UNINTERPRETED and x.num_args():
            r = False
            break
        if kd == z3.Z3_OP_MUL and sum(not z3.is_int_value(y) for y in x.children()) > 1:
            r = False
            break
        st.extend(x.children())
    _LIN[k] = (e, r)
    return r


def nkey(n):
    if isinstance(n, int):
        return n
    return z3.simplify(n).sexpr()


class Shared:
    """Budgets and state shared between the paths of one harness."""

    def __init__(self, deadline):
        self.deadline = deadline

    def tick(self):
        import time

        if time.time() > self.deadline:
            raise Budget("time")


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("no symbolic context")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def fresh_real(base):
    return z3.Real(ctx().name(base))


def fresh_int(base):
    return z3.Int(ctx().name(base))


def fresh_bool(base):
    return z3.Bool(ctx().name(base))


# ---------------------------------------------------------------------------
# Symbolic scalars
# ---------------------------------------------------------------------------

BUILTIN_NUM = (int, float, bool)


class Sym:
    """Base class of symbolic scalars."""

    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self

    def tolist(self):
        return self


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = zb(e)

    def __bool__(self):
        return ctx().decide(self.e)

    def __hash__(self):
        return hash(self.e.get_id())

    def __invert__(self):
        return mkbool(b_not(self.e))

    def _op(self, o, f):
        if isinstance(o, bool):
            return mkbool(f(self.e, o))
        if isinstance(o, SBool):
            return mkbool(f(self.e, o.e))
        if isinstance(o, int) and o in (0, 1):
            return mkbool(f(self.e, bool(o)))
        return NotImplemented

    def __and__(self, o):
        return self._op(o, b_and)

    __rand__ = __and__

    def __or__(self, o):
        return self._op(o, b_or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._op(o, lambda a, b: b_not(b_eq(a, b)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return self._op(o, b_eq)
        return self.num() == o

    def __ne__(self, o):
        if isinstance(o, (bool, SBool)):
            return self._op(o, lambda a, b: b_not(b_eq(a, b)))
        return self.num() != o

    def num(self):
        return SNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self.num() + o

    def __radd__(self, o):
        return o + self.num()

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __lt__(self, o):
        return self.num() < o

    def __gt__(self, o):
        return self.num() > o

    def __le__(self, o):
        return self.num() <= o

    def __ge__(self, o):
        return self.num() >= o

    def any(self, **k):
        return self

    all = any

    def astype(self, t, **k):
        import importlib

        return importlib.import_module(__package__ + ".symnp").cast_scalar(self, t)

    def __repr__(self):
        return f"SBool({self.e})"


def mkbool(e):
    v = bval(e)
    if v is not None:
        return v
    return SBool(e)


class SNum(Sym):
    """Extended real (or integer) with NaN flag and infinity sign.

    e   : z3 Int or Real term (meaningful when not nan and inf == 0)
    nan : z3 Bool or False
    inf : 0 or z3 Int term in {-1, 0, 1}
    """

    __slots__ = ("e", "nan", "inf")

    def __init__(self, e, nan=False, inf=0):
        # type(x)(0): a number of the same type
        self.e = lift(e).e if type(e) in (int, float) else e
        self.nan = nan
        self.inf = inf

    @property
    def kind(self):
        return "i" if self.e.sort() == z3.IntSort() else "f"

    @property
    def dtype(self):
        from . import symnp

        return symnp.dtype("int64" if self.kind == "i" else "float64")

    def plain(self):
        return self.nan is False and type(self.inf) is int

    def __hash__(self):
        return hash(self.e.get_id())

    # -- arithmetic
    def __add__(self, o):
        return arith("+", self, o)

    def __radd__(self, o):
        return arith("+", o, self)

    def __sub__(self, o):
        return arith("-", self, o)

    def __rsub__(self, o):
        return arith("-", o, self)

    def __mul__(self, o):
        return arith("*", self, o)

    def __rmul__(self, o):
        return arith("*", o, self)

    def __truediv__(self, o):
        return arith("/", self, o)

    def __rtruediv__(self, o):
        return arith("/", o, self)

    def __floordiv__(self, o):
        return arith("//", self, o)

    def __rfloordiv__(self, o):
        return arith("//", o, self)

    def __mod__(self, o):
        return arith("%", self, o)

    def __rmod__(self, o):
        return arith("%", o, self)

    def __pow__(self, o, mod=None):
        return arith("**", self, o)

    def __rpow__(self, o):
        return arith("**", o, self)

    def __neg__(self):
        inf = self.inf if type(self.inf) is int else -self.inf
        return SNum(t_neg(self.e), self.nan, inf)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    # -- comparisons
    def __lt__(self, o):
        return compare("<", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __gt__(self, o):
        return compare("<", o, self) if isnumlike(o) else NotImplemented

    def __ge__(self, o):
        return compare("<=", o, self) if isnumlike(o) else NotImplemented

    def __eq__(self, o):
        if not isnumlike(o):
            return False if o is None or isinstance(o, (str, bytes)) else NotImplemented
        return compare("==", self, o)

    def __ne__(self, o):
        if not isnumlike(o):
            return True if o is None or isinstance(o, (str, bytes)) else NotImplemented
        return compare("!=", self, o)

    def __bool__(self):
        r = compare("!=", self, 0)
        return bool(r)

    # concrete conversions needed by CPython protocols
    def __index__(self):
        if self.kind == "i" and is_num(z3.simplify(self.e)):
            return z3.simplify(self.e).as_long()
        if self.kind == "i" and ctx().entails(z3.And(self.e >= 0, self.e < 4)):
            # (few cases)
            for k in range(4):
                if bool(compare("==", self, k)):
                    return k
        raise Unsupported("symbolic value used as a concrete index")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("symbolic value converted with float()")

    def __trunc__(self):
        raise Unsupported("symbolic value truncated by the interpreter")

    def __round__(self, nd=None):
        if nd in (None, 0):
            r = s_round(self)
            return s_trunc(r) if nd is None else r
        raise Unsupported("round to digits")

    def __floor__(self):
        return s_trunc(s_floor(self))

    def __ceil__(self):
        return s_trunc(s_ceil(self))

    # numpy scalar look-alikes
    def any(self, **k):
        return compare("!=", self, 0)

    all = any

    def mean(self, **k):
        return self

    def sum(self, **k):
        return self

    def min(self, **k):
        return self

    max = min

    def copy(self):
        return self

    def astype(self, t, **k):
        from . import symnp

        return symnp.cast_scalar(self, t)

    def squeeze(self):
        return self

    def __getitem__(self, key):
        from . import symnp

        return symnp.asarray(self)[key]

    def reshape(self, *s):
        from . import symnp

        return symnp.asarray(self).reshape(*s)

    def __repr__(self):
        return f"SNum({self.e}, nan={self.nan}, inf={self.inf})"

    # set by contracts on code that writes numbers as text: value -> text
    WRITER = ()

    def __str__(self):
        return self.WRITER[0](self) if self.WRITER else repr(self)

    def __format__(self, spec):
        if self.WRITER and not spec:
            return self.WRITER[0](self)
        return f"<sym:{self.e}>"


def isnumlike(x):
    if isinstance(x, (SNum, SBool, int, float, bool)):
        return True
    t = type(x)
    return t.__module__ == "numpy" and hasattr(x, "item") and getattr(x, "ndim", 1) == 0


def lift(x):
    """Python or symbolic scalar -> SNum."""
    if isinstance(x, SNum):
        return x
    if isinstance(x, SBool):
        return x.num()
    if isinstance(x, bool):
        return SNum(z3.IntVal(int(x)))
    if isinstance(x, int):
        return SNum(z3.IntVal(x))
    if isinstance(x, float):
        if math.isnan(x):
            return SNum(z3.RealVal(0), True, 0)
        if math.isinf(x):
            return SNum(z3.RealVal(0), False, z3.IntVal(1 if x > 0 else -1))
        return SNum(realval(x))
    if isinstance(x, Fraction):
        return SNum(realval(x))
    if hasattr(x, "item") and getattr(x, "ndim", 1) == 0:
        return lift(x.item())
    raise Unsupported(f"cannot lift {type(x).__name__}")


def unlift(s):
    """SNum -> Python number when it is a literal."""
    if isinstance(s, SNum) and s.plain() and is_num(s.e):
        f = numval(s.e)
        if s.kind == "i":
            return int(f)
        fl = float(f)
        if _frac(fl) == f:
            return fl
    return s


def zinf(s):
    return z3.IntVal(0) if type(s.inf) is int else s.inf


def isfin(s):
    return True if type(s.inf) is int else (s.inf == 0)


def coerce2(a, b):
    ea, eb = a.e, b.e
    if ea.sort() != eb.sort():
        ea, eb = to_real(ea), to_real(eb)
    return ea, eb


def nonzero(e):
    """Whether e != 0 is entailed."""
    if is_num(e):
        return numval(e) != 0
    c = ctx()
    k = (e.get_id(), len(c.pc))
    c.keep.append(e)
    if k in c.nonzero_cache:
        return c.nonzero_cache[k]
    # monotone: entailed earlier -> still entailed
    base = ("nz", e.get_id())
    if base in c.nonzero_cache:
        return True
    r = c.entails(e != 0)
    c.nonzero_cache[k] = r
    if r:
        c.nonzero_cache[base] = e
    return r


SIZES = {}


def dag_size(e, limit=600):
    """Number of different terms in e (at least limit + 1 if there are more)."""
    if limit <= 100:
        hit = SIZES.get(e.get_id())
        if hit is None:
            if len(SIZES) > 100000:
                SIZES.clear()
            hit = SIZES[e.get_id()] = (e, _dag_size(e, 101))
        return hit[1]
    return _dag_size(e, limit)


def _dag_size(e, limit):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if len(seen) > limit:
            return len(seen)
        st.extend(x.children())
    return len(seen)


SIMP_HARD = {}


def simp(e):
    """An equal, much smaller Real term when the ring normal form gives one."""
    from . import poly

    c = ctx()
    if is_num(e) or not poly.RULES.sq:
        return e
    key = ("simp", e.get_id())
    hit = c.memo.get(key)
    if hit is not None:
        return hit
    c.keep.append(e)
    r = e
    n = dag_size(e, 400)
    hard = SIMP_HARD.get(e.get_id())
    if 14 <= n <= 400 and not (hard is not None and hard.eq(e)):
        cap, poly.CAP = poly.CAP, 3000
        try:
            p = poly.canon(e)
            if len(p.num) <= 4 and (p.den is None or len(p.den) <= 2):
                t = poly.from_poly(p.num)
                if p.den is not None:
                    t = t_div(t, poly.from_poly(p.den))
                if dag_size(t) * 2 < n and all(nonzero(d) for d in poly.divisors(e)):
                    r = to_real(t)
        except (Unsupported, RecursionError):
            SIMP_HARD[e.get_id()] = e
        finally:
            poly.CAP = cap
    c.memo[key] = r
    c.keep.append(r)
    return r


DIV_FN = z3.Function("div0!", z3.RealSort(), z3.RealSort())


def t_div(a, b):
    """Real quotient a/b (value irrelevant when b = 0)."""
    a, b = to_real(a), to_real(b)
    if is_num(b) and numval(b) != 0:
        if is_num(a):
            return realval(numval(a) / numval(b))
        return t_mul(realval(1 / numval(b)), a)
    if a.eq(b):
        return z3.RealVal(1)
    if is_num(a) and numval(a) == 0:
        return a
    return a / b


def arith(op, a, b):
    from . import symnp

    if isinstance(a, symnp.ndarray) or isinstance(b, symnp.ndarray):
        return NotImplemented
    if not isnumlike(a) or not isnumlike(b):
        if hasattr(a, "_sym_arith"):
            return a._sym_arith(op, b, False)
        if hasattr(b, "_sym_arith"):
            return b._sym_arith(op, a, True)
        return NotImplemented
    a, b = lift(a), lift(b)
    if op == "-" and False:
        pass
    if op in ("+", "-"):
        if op == "-":
            b = -b
        ea, eb = coerce2(a, b)
        nan = b_or(a.nan, b.nan)
        if type(a.inf) is int and type(b.inf) is int:
            return SNum(t_add(ea, eb), nan, 0)
        ia, ib = zinf(a), zinf(b)
        nan = b_or(nan, z3.simplify(ia * ib) == -1)
        inf = z3.simplify(z3.If(ia != 0, ia, ib))
        return _norm(SNum(to_real(t_add(ea, eb)), _simpb(nan), inf))
    if op == "*":
        ea, eb = coerce2(a, b)
        nan = b_or(a.nan, b.nan)
        if type(a.inf) is int and type(b.inf) is int:
            return SNum(t_mul(ea, eb), nan, 0)
        ia, ib = zinf(a), zinf(b)
        sa = z3.If(ia != 0, ia, sgn(ea))
        sb = z3.If(ib != 0, ib, sgn(eb))
        anyinf = z3.Or(ia != 0, ib != 0)
        za = z3.And(ia == 0, ea == 0)
        zb_ = z3.And(ib == 0, eb == 0)
        nan = b_or(nan, z3.And(anyinf, z3.Or(za, zb_)))
        inf = z3.simplify(z3.If(anyinf, sa * sb, z3.IntVal(0)))
        return _norm(SNum(to_real(t_mul(ea, eb)), _simpb(nan), inf))
    if op == "/":
        ea, eb = simp(to_real(a.e)), simp(to_real(b.e))
        nan = b_or(a.nan, b.nan)
        if type(a.inf) is int and type(b.inf) is int and nonzero(eb):
            return SNum(t_div(ea, eb), nan, 0)
        if type(b.inf) is int and nonzero(eb):
            ia = zinf(a)
            inf = z3.simplify(ia * sgn(eb))
            return _norm(SNum(t_div(ea, eb), _simpb(nan), inf))
        ia, ib = zinf(a), zinf(b)
        bz = z3.And(ib == 0, eb == 0)
        az = z3.And(ia == 0, ea == 0)
        nan = b_or(nan, z3.And(bz, az), z3.And(ia != 0, ib != 0))
        sa = z3.If(ia != 0, ia, sgn(ea))
        # zeros are taken as +0 (signed zeros are not modelled)
        inf = z3.If(bz, sa, z3.If(ia != 0, ia * z3.If(ib != 0, ib, sgn(eb)), 0))
        inf = z3.simplify(z3.If(ib != 0, z3.IntVal(0), inf))
        if is_num(eb) and numval(eb) == 0:
            val = z3.RealVal(0)
        else:
            val = r_ite(ib != 0, z3.RealVal(0), t_div(ea, eb)) if type(b.inf) is not int else t_div(ea, eb)
        ctx().notes.add("division whose divisor may be zero (signed zero taken as +0)")
        return _norm(SNum(val, _simpb(nan), inf))
    if type(a.inf) is not int or type(b.inf) is not int:
        if op == "**" and b.plain() and is_num(b.e) and numval(b.e) == 2:
            return a * a
        if op == "**" and b.plain() and is_num(b.e) and numval(b.e) == 1:
            return a
        raise Unsupported(f"infinite operand of {op}")
    nan = b_or(a.nan, b.nan)
    if op in ("//", "%"):
        if a.kind == "i" and b.kind == "i":
            if not nonzero(b.e):
                raise Unsupported("integer division by possible zero")
            q = int_floordiv(a.e, b.e)
            if op == "//":
                return SNum(q)
            return SNum(t_sub(a.e, t_mul(b.e, q)))
        ea, eb = to_real(a.e), to_real(b.e)
        if not nonzero(eb):
            raise Unsupported("real modulo by possible zero")
        q = floor_int(t_div(ea, eb))
        if op == "//":
            return SNum(to_real(q), nan)
        r = t_sub(ea, t_mul(eb, to_real(q)))
        if not is_num(eb) and not is_num(ea):
            # as divisor times fraction, so that a test for zero sees the fraction
            r = t_mul(eb, t_sub(t_div(ea, eb), to_real(q)))
        if is_num(eb) or ctx().entails(eb > 0):
            c = ctx()
            c.add_fact(z3.And(r >= 0, r < eb) if not (is_num(eb) and numval(eb) < 0) else z3.And(r <= 0, r > eb))
        return SNum(r, nan)
    if op == "**":
        return s_pow(a, b)
    raise Unsupported(op)


def _simpb(x):
    v = bval(x)
    if v is not None:
        return v
    s = z3.simplify(x)
    v = bval(s)
    return v if v is not None else s


def _norm(s):
    if type(s.inf) is not int and is_num(s.inf) and numval(s.inf) == 0:
        s.inf = 0
    return s


def sgn(e):
    if is_num(e):
        v = numval(e)
        return z3.IntVal((v > 0) - (v < 0))
    return z3.If(e > 0, z3.IntVal(1), z3.If(e < 0, z3.IntVal(-1), z3.IntVal(0)))


def int_floordiv(a, b):
    """Mathematical floor division of Int terms (b != 0)."""
    if is_num(a) and is_num(b):
        return z3.IntVal(int(numval(a)) // int(numval(b)))
    if is_num(b) and numval(b) == 1:
        return a
    if is_num(b) and numval(b) > 0:
        return a / b  # z3 Int division floors for positive divisors
    c = ctx()
    key = ("idiv", a.get_id(), b.get_id())
    c.keep += [a, b]
    if key in c.memo:
        return c.memo[key]
    q = fresh_int("q")
    r = a - b * q
    c.add_fact(z3.If(b > 0, z3.And(r >= 0, r < b), z3.And(r <= 0, r > b)))
    c.memo[key] = q
    return q


def floor_int(e):
    """Int term floor(e) of a Real term."""
    if e.sort() == z3.IntSort():
        return e
    if is_num(e):
        return z3.IntVal(math.floor(numval(e)))
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return e.arg(0)
    c = ctx()
    key = ("floor", e.get_id())
    c.keep.append(e)
    if key in c.memo:
        return c.memo[key]
    r = _floor_ite(e)
    if r is not None:
        c.memo[key] = r
        return r
    # split off integer-valued summands so that floor(x + n) = floor(x) + n
    ints, rest = split_int(e)
    if ints is not None and rest is not None:
        r = t_add(floor_int(rest), ints)
        c.memo[key] = r
        return r
    if ints is not None:
        c.memo[key] = ints
        return ints
    from .poly import canon_key

    ck = ("floor-canon", canon_key(e))
    if ck in c.memo:
        k = c.memo[ck]
    else:
        k = c.memo[ck] = fresh_int("fl")
    c.add_fact(z3.And(z3.ToReal(k) <= e, e < z3.ToReal(k) + 1))
    c.memo[key] = k
    return k


def _floor_ite(e, limit=3):
    """floor of a term over a conditional: the conditional of the floors."""
    from .poly import Poly, canon

    if limit <= 0:
        return None
    try:
        p = canon(e)
    except Unsupported:
        return None
    if p.den is None and (not p.num or set(p.num) == {()}):
        return z3.IntVal(math.floor(Fraction(p.num.get((), 0))))
    for mono in p.num:
        for a, _ in mono:
            ex = Poly.atom_expr(a)
            if z3.is_app_of(ex, z3.Z3_OP_TO_REAL):
                ex = ex.arg(0)
            if not z3.is_app_of(ex, z3.Z3_OP_ITE) or _int_ite(ex):
                continue
            yes, no = z3.substitute(e, (ex, ex.arg(1))), z3.substitute(e, (ex, ex.arg(2)))
            if yes.eq(e) or no.eq(e):
                continue
            return z3.If(ex.arg(0), floor_int(yes), floor_int(no))
    return None


def _int_ite(ex):
    return ex.sort() == z3.IntSort()


def split_int(e):
    """Split a Real sum into (integer-valued Int term or None, rest or None)."""
    from .poly import poly, from_poly, Poly

    try:
        p = poly(e)
    except Unsupported:
        return None, e
    if p.den is not None:
        # syntactic sums only: x / y + 1
        if z3.is_app_of(e, z3.Z3_OP_ADD):
            whole = [y for y in e.children() if _is_intterm(y)]
            rest = [y for y in e.children() if not _is_intterm(y)]
            if whole and rest:
                ints = None
                for y in whole:
                    t = z3.IntVal(int(numval(y))) if is_num(y) else y.arg(0)
                    ints = t if ints is None else t_add(ints, t)
                r = rest[0]
                for y in rest[1:]:
                    r = r + y
                return ints, r
        return split_ratio(e, p)
    ip, rp = {}, {}
    for mono, co in p.num.items():
        ok = all(_is_intatom(a) for a, _ in mono)
        if ok and co.denominator == 1:
            ip[mono] = co
        elif ok and not mono:
            fl = co.numerator // co.denominator
            if fl:
                ip[mono] = Fraction(fl)
            rp[mono] = co - fl
        else:
            rp[mono] = co
    if not ip:
        return None, e
    ints = None
    for mono, co in ip.items():
        t = z3.IntVal(int(co))
        for a, k in mono:
            ex = Poly.atom_expr(a)
            ex = ex.arg(0) if z3.is_app_of(ex, z3.Z3_OP_TO_REAL) else ex
            for _ in range(k):
                t = t_mul(t, ex)
        ints = t if ints is None else t_add(ints, t)
    if not rp:
        return ints, None
    return ints, from_poly(rp)


def split_ratio(e, p):
    """Split a quotient by polynomial division: (integer part or None, rest or None)."""
    from .poly import canon, divide_q, from_poly

    try:
        p = canon(e)
    except Unsupported:
        return None, e
    if p.den is None:
        return split_int(from_poly(p.num))
    q, r = divide_q(p.num, p.den)
    if not q:
        return None, e
    if not r:
        return split_int(from_poly(q))
    ints, rest = split_int(from_poly(q))
    if ints is None:
        return None, e
    frac = t_div(from_poly(r), from_poly(p.den))
    return ints, frac if rest is None else t_add(rest, frac)


def _is_intterm(y):
    return z3.is_app_of(y, z3.Z3_OP_TO_REAL) or (is_num(y) and numval(y) == int(numval(y)))


def _is_intatom(a):
    from .poly import Poly

    ex = Poly.atom_expr(a)
    return z3.is_app_of(ex, z3.Z3_OP_TO_REAL) or ex.sort() == z3.IntSort()


def simp_pair(a, b):
    if a.sort() == z3.RealSort():
        return simp(a), simp(b)
    return a, b


def compare(op, a, b):
    from . import symnp

    if isinstance(a, symnp.ndarray) or isinstance(b, symnp.ndarray):
        return NotImplemented
    if not isnumlike(a) or not isnumlike(b):
        return NotImplemented
    a, b = lift(a), lift(b)
    ok = b_not(b_or(a.nan, b.nan))
    ea, eb = coerce2(a, b)
    if type(a.inf) is int and type(b.inf) is int:
        if is_num(ea) and is_num(eb):
            va, vb = numval(ea), numval(eb)
            e = {"<": va < vb, "<=": va <= vb, "==": va == vb, "!=": va != vb}[op]
        elif ea.eq(eb):
            e = op in ("<=", "==")
        elif op == "<":
            ea, eb = simp_pair(ea, eb)
            e = ea < eb
        elif op == "<=":
            ea, eb = simp_pair(ea, eb)
            e = ea <= eb
        else:
            e = ea == eb
            for x, y in ((ea, eb), (eb, ea)):
                if is_num(y) and numval(y) == 0 and z3.is_app_of(x, z3.Z3_OP_MUL) and x.sort() == z3.RealSort():
                    # a product with factors known not to be zero
                    known = ctx().nonzero_cache
                    fs = x.children()
                    nz = [f for f in fs if not (("nz", f.get_id()) in known or is_num(f) and numval(f) != 0)]
                    if nz and len(nz) < len(fs):
                        e = z3.Or(*[f == 0 for f in nz]) if len(nz) > 1 else nz[0] == 0
                    break
            if op == "!=":
                e = z3.Not(e)
    else:
        ia, ib = zinf(a), zinf(b)
        fin = z3.And(ia == 0, ib == 0)
        if op == "<":
            e = z3.Or(ia < ib, z3.And(fin, ea < eb))
        elif op == "<=":
            e = z3.Or(ia < ib, z3.And(ia == ib, ia != 0), z3.And(fin, ea <= eb))
        else:
            e = z3.And(ia == ib, z3.Or(ia != 0, ea == eb))
            if op == "!=":
                e = z3.Not(e)
        e = _simpb(e)
    if op == "!=":
        return mkbool(b_or(e, b_not(ok)))
    return mkbool(b_and(ok, e))


# ---------------------------------------------------------------------------
# Functions on scalars
# ---------------------------------------------------------------------------


def s_ite(c, a, b):
    """Scalar if-then-else; c is Python bool, SBool or z3 Bool."""
    if isinstance(c, SBool):
        c = c.e
    v = bval(c) if not isinstance(c, (int, float)) or isinstance(c, bool) else bool(c)
    if v is None:
        v = ctx().known_value(c)
    if v is not None:
        return a if v else b
    if a is b:
        return a
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return mkbool(
            b_ite(c, a.e if isinstance(a, SBool) else a, b.e if isinstance(b, SBool) else b)
        )
    if hasattr(a, "_sym_ite"):
        return a._sym_ite(c, b, False)
    if hasattr(b, "_sym_ite"):
        return b._sym_ite(c, a, True)
    if not (isnumlike(a) and isnumlike(b)):
        if a is b or (type(a) is type(b) and not isinstance(a, Sym) and a == b):
            return a
        # non-numeric alternatives: fork
        return a if ctx().decide(c) else b
    a, b = lift(a), lift(b)
    ea, eb = coerce2(a, b)
    nan = b_ite(c, a.nan, b.nan)
    if type(a.inf) is int and type(b.inf) is int:
        inf = 0
    else:
        inf = z3.simplify(r_ite(c, zinf(a), zinf(b)))
    # values under a NaN flag are irrelevant: keep the other branch's term
    for x, y, g in ((a, b, c), (b, a, z3.Not(c))):
        if bval(x.nan) is True:
            # the flags of the other branch only matter outside the guard
            if type(y.inf) is not int and ctx().entails(z3.Or(g, zinf(y) == 0)):
                inf = 0
            if bval(y.nan) is None and ctx().entails(z3.Or(g, z3.Not(y.nan))):
                nan = g
            return _norm(SNum(to_real(y.e), nan, inf))
    return _norm(SNum(r_ite(c, ea, eb), nan, inf))


def s_abs(a):
    if isinstance(a, (int, float)) and not isinstance(a, bool):
        return abs(a)
    if hasattr(a, "_sym_abs"):
        return a._sym_abs()
    a = lift(a)
    if is_num(a.e) and a.plain():
        return unlift(SNum(_mk(abs(numval(a.e)), a.e, a.e)))
    inf = a.inf
    if type(inf) is not int:
        inf = z3.simplify(z3.If(a.inf < 0, -a.inf, a.inf))
    c = ctx()
    if type(inf) is int:
        if c.entails(a.e >= 0, 100):
            return a
    return _norm(SNum(r_ite(a.e >= 0, a.e, -a.e), a.nan, inf))


def s_min(a, b):
    return s_ite(compare("<=", a, b), a, b)


def s_max(a, b):
    return s_ite(compare("<=", b, a), a, b)


def np_min(a, b):
    """numpy minimum: propagates NaN."""
    a, b = lift(a), lift(b)
    r = lift(s_ite(compare("<=", a, b), a, b))
    return SNum(r.e, b_or(a.nan, b.nan), r.inf)


def np_max(a, b):
    a, b = lift(a), lift(b)
    r = lift(s_ite(compare("<=", b, a), a, b))
    return SNum(r.e, b_or(a.nan, b.nan), r.inf)


def s_floor(a):
    if isinstance(a, (int, float)):
        return float(math.floor(a)) if math.isfinite(a) else a
    a = lift(a)
    return SNum(to_real(floor_int(a.e)), a.nan, a.inf)


def s_ceil(a):
    if isinstance(a, (int, float)):
        return float(math.ceil(a)) if math.isfinite(a) else a
    a = lift(a)
    return SNum(to_real(t_neg(floor_int(t_neg(a.e)))), a.nan, a.inf)


def s_round(a):
    """Round half to even, as numpy."""
    if isinstance(a, (int, float)):
        return float(round(a)) if math.isfinite(a) else a
    a = lift(a)
    if a.kind == "i":
        return a
    if is_num(a.e):
        return SNum(realval(Fraction(round(numval(a.e)))), a.nan, a.inf)
    c = ctx()
    ints, rest = split_int(a.e)
    if ints is not None and rest is None:
        return SNum(to_real(ints), a.nan, a.inf)
    key = ("round", a.e.get_id())
    c.keep.append(a.e)
    if key not in c.memo:
        k = fresh_int("rnd")
        d = a.e - z3.ToReal(k)
        h = realval(Fraction(1, 2))
        c.add_fact(z3.And(d <= h, d >= -h, z3.Implies(z3.Or(d == h, d == -h), k % 2 == 0)))
        for t in c.memo.get("no-half", ()):  # assumed contract: never exactly halfway
            if mentions(a.e, t):
                c.add_fact(z3.And(d < h, d > -h))
        c.memo[key] = k
    return SNum(to_real(c.memo[key]), a.nan, a.inf)


def mentions(e, t):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(t):
            return True
        st.extend(x.children())
    return False


def s_trunc(a):
    """Conversion to int (truncation toward zero)."""
    if isinstance(a, (bool, int)):
        return int(a)
    if isinstance(a, float):
        return int(a)
    if isinstance(a, SBool):
        return a.num()
    a = lift(a)
    if a.kind == "i":
        return a
    if type(a.inf) is not int:
        if not ctx().entails(a.inf == 0):
            raise Unsupported("infinite value converted to integer")
    nan = _simpb(a.nan)
    if nan is not False and not ctx().entails(b_not(nan)):
        # numpy gives an arbitrary integer for NaN
        ctx().notes.add("NaN converted to integer is an arbitrary integer")
        k = fresh_int("nanint")
        return SNum(r_ite(nan, k, _trunc_term(a.e)))
    return SNum(_trunc_term(a.e))


def _trunc_term(e):
    fl = floor_int(e)
    if e.sort() == z3.IntSort() or z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return fl
    if is_num(e):
        return z3.IntVal(int(numval(e)))
    if ctx().entails(e >= 0, 150):
        return fl
    return z3.If(e >= 0, fl, t_neg(floor_int(t_neg(e))))


def s_sign(a):
    if isinstance(a, (int, float)):
        return (a > 0) - (a < 0) if a == a else a
    a = lift(a)
    s = sgn(a.e)
    if type(a.inf) is not int:
        s = z3.If(a.inf != 0, a.inf, s)
    return SNum(s if a.kind == "i" else to_real(s), a.nan, 0)


SQRT = {}


def t_sqrt(e):
    """Real term sqrt(e) for e >= 0 (arbitrary otherwise)."""
    c = ctx()
    if is_num(e):
        v = numval(e)
        if v >= 0:
            rn, rd = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if rn * rn == v.numerator and rd * rd == v.denominator:
                return realval(Fraction(rn, rd))
    from .poly import canon_key

    key = ("sqrt", canon_key(e))
    if key not in c.memo:
        r = fresh_real("sqrt")
        c.add_fact(z3.Implies(e >= 0, z3.And(r >= 0, r * r == e)))
        c.memo[key] = r
        from .poly import RULES

        RULES.add_square(r, e)
    return c.memo[key]


def s_sqrt(a):
    if isinstance(a, (int, float)) and not isinstance(a, bool):
        if a < 0:
            return float("nan")
        r = math.isqrt(int(a)) if a == int(a) else None
        if r is not None and r * r == a:
            return float(r)
        a = lift(a)
        return SNum(t_sqrt(to_real(a.e)))
    a = lift(a)
    e = to_real(a.e)
    neg = _simpb(e < 0) if not is_num(e) else numval(e) < 0
    if type(a.inf) is not int:
        neg = b_or(b_and(a.inf == 0, neg), a.inf < 0)
    if neg is not False and ctx().entails(b_not(neg)):
        neg = False
    return SNum(t_sqrt(e), b_or(a.nan, neg), a.inf)


def s_pow(a, b):
    b2 = unlift(b)
    if isinstance(b2, (int, float)):
        f = _frac(float(b2))
        if f.denominator == 1:
            n = int(f)
            if n == 0:
                return lift(1 if a.kind == "i" else 1.0)
            r = a
            for _ in range(abs(n) - 1):
                r = r * a
            if n < 0:
                r = arith("/", 1, r)
            return lift(r)
        if f == Fraction(1, 2):
            return lift(s_sqrt(a))
        if f == Fraction(-1, 2):
            return lift(arith("/", 1, s_sqrt(a)))
        if f.denominator == 2:
            s = s_sqrt(a)
            return lift(arith("**", s, f.numerator))
        if f == Fraction(1, 3):
            e = to_real(a.e)
            c = ctx()
            key = ("cbrt", e.get_id())
            c.keep.append(e)
            if key not in c.memo:
                r = fresh_real("cbrt")
                c.add_fact(
                    z3.Implies(
                        e >= 0, z3.And(r >= 0, r * r * r == e, (r == 0) == (e == 0))
                    )
                )
                c.memo[key] = r
            neg = _simpb(e < 0)
            if neg is not False and c.entails(b_not(neg)):
                neg = False
            return SNum(c.memo[key], b_or(a.nan, neg), 0)
    a2 = unlift(a)
    if isinstance(a2, (int, float)) and not isinstance(b2, (int, float)):
        raise Unsupported("symbolic exponent")
    raise Unsupported(f"power {b2}")


# -- transcendental functions ------------------------------------------------


def s_trig(fn, a):
    from . import trig

    a = lift(a)
    if type(a.inf) is not int:
        raise Unsupported("trigonometric function of infinity")
    s, c = trig.sincos(to_real(a.e))
    return SNum(s if fn == "sin" else c, a.nan, 0)


def uf(name, a, axioms=None):
    """Uninterpreted real function of one argument, memoised by normal form."""
    from .poly import canon_key

    c = ctx()
    key = (name, canon_key(a))
    if key not in c.memo:
        r = fresh_real(name)
        c.memo[key] = r
        lst = c.memo.setdefault(("uf-all", name), [])
        if axioms:
            axioms(c, a, r, list(lst))
        lst.append((a, r))
    return c.memo[key]


def s_exp(a):
    if isinstance(a, (int, float)) and a == 0:
        return 1.0
    a = lift(a)
    if type(a.inf) is not int:
        # exp(-inf) = 0, exp(inf) = inf
        r = lift(s_exp(SNum(a.e, a.nan, 0)))
        return _norm(
            SNum(r_ite(a.inf == 0, r.e, z3.RealVal(0)), a.nan, z3.simplify(z3.If(a.inf > 0, 1, 0)))
        )

    def ax(c, x, r, others):
        c.add_fact(z3.And(r > 0, z3.Implies(x == 0, r == 1), z3.Implies(x <= 0, r <= 1), z3.Implies(x >= 0, r >= 1)))
        for x2, r2 in others:
            c.add_fact(z3.And((x < x2) == (r < r2), (x == x2) == (r == r2)))

    return SNum(uf("exp", to_real(a.e), ax), a.nan, 0)


def s_log(a):
    if isinstance(a, (int, float)) and a == 1:
        return 0.0
    a = lift(a)
    e = to_real(a.e)

    def ax(c, x, r, others):
        c.add_fact(z3.Implies(x == 1, r == 0))
        for x2, r2 in others:
            c.add_fact(z3.Implies(z3.And(x > 0, x2 > 0), (x < x2) == (r < r2)))

    neg = _simpb(e <= 0)
    if neg is not False and ctx().entails(b_not(neg)):
        neg = False
    if neg is not False:
        raise Unsupported("log of a value that may not be positive")
    return SNum(uf("log", e, ax), b_or(a.nan, neg), 0)

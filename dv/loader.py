"""Load the real glimpse source for symbolic execution.

Every module text is read from /repo on every run and executed unchanged, except
that (1) annotations are not evaluated, and (2) the names it imports and the
builtin numeric functions are bound to symbolic-aware versions:

  numpy                 -> dv.symnp
  datetime              -> dv.symdt
  math                  -> exact on concrete arguments, otherwise unsupported
  scipy, cv2, osgeo, lmfit, matplotlib, sharedmem, progress, piexif, PIL
                        -> stubs; calling one without an assumed contract raises
                           Unsupported
  int float bool len range abs min max round sum isinstance any all sorted
                        -> versions that accept symbolic scalars

Nothing else is dropped or rewritten.
"""
import __future__
import builtins
import importlib
import os
import types

from . import core, symnp
from .core import SBool, SNum, Sym, Unsupported, mkbool, s_ite

REPO = os.environ.get("GLIMPSE_SRC", "/repo/src/glimpse")


# ---------------------------------------------------------------------------
# Stubs for dependencies
# ---------------------------------------------------------------------------


class _StubMeta(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return stub(f"{cls._path}.{name}")

    def __call__(cls, *a, **k):
        if cls._path in CONTRACTS:
            return CONTRACTS[cls._path](*a, **k)
        if cls._native:
            return type.__call__(cls, *a, **k)
        raise Unsupported(f"call of {cls._path}")

    def __instancecheck__(cls, o):
        f = INSTANCE.get(cls._path)
        return f(o) if f else False


_STUBS = {}
CONTRACTS = {}
INSTANCE = {}


def stub(path):
    if path in _ATTRS:
        return _ATTRS[path]
    if path not in _STUBS:
        _STUBS[path] = _StubMeta(path.split(".")[-1], (), {"_path": path, "_native": False})
    return _STUBS[path]


_ATTRS = {}


class StubModule(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__dict__["_path"] = name

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        full = f"{self._path}.{name}"
        if full in _MODS:
            return _MODS[full]
        return stub(full)


_MODS = {}


def stub_module(name):
    if name not in _MODS:
        _MODS[name] = StubModule(name)
        if "." in name:
            stub_module(name.rsplit(".", 1)[0])
    return _MODS[name]


STUBBED = (
    "scipy cv2 osgeo lmfit matplotlib sharedmem progress piexif PIL shapely osr gdal tqdm"
).split()


# ---------------------------------------------------------------------------
# Builtins
# ---------------------------------------------------------------------------


class _IntMeta(type):
    def __call__(cls, *a, **k):
        return sym_int(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int) or (isinstance(o, SNum) and o.kind == "i")

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class Int(metaclass=_IntMeta):
    _dtype_alias = builtins.int


class _FloatMeta(type):
    def __call__(cls, *a, **k):
        return sym_float(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float) or (isinstance(o, SNum) and o.kind == "f")

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class Float(metaclass=_FloatMeta):
    _dtype_alias = builtins.float


class _BoolMeta(type):
    def __call__(cls, *a):
        return builtins.bool(*a)

    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.bool, SBool))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.bool)


class Bool(metaclass=_BoolMeta):
    _dtype_alias = builtins.bool


def sym_int(*a, **k):
    if a and isinstance(a[0], symnp.ndarray):
        a = (a[0].item(),) + a[1:]
    if a and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(x, SNum) and core.bval(x.nan) is not False:
            if builtins.bool(mkbool(x.nan)):
                raise ValueError("cannot convert float NaN to integer")
            x = SNum(x.e, False, x.inf)
        if isinstance(x, SNum) and type(x.inf) is not builtins.int:
            if builtins.bool(mkbool(x.inf != 0)):
                raise OverflowError("cannot convert float infinity to integer")
            x = SNum(x.e, x.nan)
        r = core.s_trunc(x)
        return core.unlift(r) if isinstance(r, SNum) else r
    return builtins.int(*a, **k)


def sym_float(*a, **k):
    if a and isinstance(a[0], symnp.ndarray):
        a = (a[0].item(),) + a[1:]
    if a and isinstance(a[0], Sym):
        return symnp.cast_scalar(a[0], builtins.float)
    return builtins.float(*a, **k)


def sym_len(x):
    if isinstance(x, symnp.ndarray):
        if not x.shape:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if hasattr(x, "_sym_len"):
        return x._sym_len()
    return builtins.len(x)


UNROLL = 40


def sym_range(*a):
    a = [x.item() if isinstance(x, symnp.ndarray) else x for x in a]
    if builtins.all(not isinstance(x, Sym) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    for x in (lo, hi, st):
        if isinstance(x, SNum) and x.kind != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
    if not isinstance(st, builtins.int):
        raise Unsupported("range with symbolic step")
    return SymRange(lo, hi, st)


class SymRange:
    """range with symbolic bounds: iteration forks on the bound (bounded unrolling)."""

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def _sym_len(self):
        if self.st != 1:
            raise Unsupported("length of strided symbolic range")
        n = self.hi - self.lo
        return s_ite(n < 0, 0, n)

    def _sym_array(self):
        return symnp.arange(self.lo, self.hi, self.st)

    def __len__(self):
        from . import loops

        return loops.concretize(self._sym_len())

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic range")
        return self.lo + self.st * i

    def __iter__(self):
        i = self.lo
        k = 0
        while builtins.bool(i < self.hi if self.st > 0 else i > self.hi):
            yield i
            i = i + self.st
            k += 1
            if k > UNROLL:
                raise Unsupported("loop bound")


def sym_min(*a, **k):
    return _mm("min", a, k)


def sym_max(*a, **k):
    return _mm("max", a, k)


def _mm(kind, a, k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k.get("key") is None and builtins.any(isinstance(x, SNum) for x in xs) and builtins.all(core.isnumlike(x) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            c = core.compare("<", x, r) if kind == "min" else core.compare("<", r, x)
            r = s_ite(c, x, r)
        return r
    xs = [x.item() if isinstance(x, symnp.ndarray) and x.ndim == 0 else x for x in xs]
    if not xs and "default" in k:
        return k["default"]
    k.pop("default", None)
    return getattr(builtins, kind)(xs, **k)


def sym_sum(xs, start=0):
    if isinstance(xs, symnp.ndarray) and not isinstance(xs.shape[0] if xs.shape else 0, builtins.int) and xs.ndim == 1:
        return symnp.sum(xs) + start
    for x in xs:
        start = start + (x.num() if isinstance(x, SBool) else x)
    return start


def _logic(xs, kind):
    r = kind == "all"
    op = core.b_and if kind == "all" else core.b_or
    for x in xs:
        if isinstance(x, symnp.ndarray):
            x = builtins.bool(x)
        if isinstance(x, SBool):
            r = op(r, x.e)
        elif isinstance(x, SNum):
            y = core.compare("!=", x, 0)
            r = op(r, y if isinstance(y, builtins.bool) else y.e)
        else:
            r = op(r, builtins.bool(x))
        if core.bval(r) is (kind != "all"):
            return kind != "all"
    return mkbool(r)


def sym_all(xs):
    if isinstance(xs, symnp.ndarray) and xs.ndim == 1:
        return symnp.all(xs)
    return _logic(xs, "all")


def sym_any(xs):
    if isinstance(xs, symnp.ndarray) and xs.ndim == 1:
        return symnp.any(xs)
    return _logic(xs, "any")


def sym_abs(x):
    return abs(x)


def sym_round(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def sym_isinstance(o, t):
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if isinstance(x, tuple):
            if sym_isinstance(o, x):
                return True
            continue
        try:
            import numbers

            if x in (numbers.Number, numbers.Real) and isinstance(o, (SNum,)):
                return True
            if x is numbers.Integral and isinstance(o, SNum) and o.kind == "i":
                return True
        except TypeError:
            pass
        if builtins.isinstance(o, x):
            return True
    return False


def sym_hasattr(o, n):
    return builtins.hasattr(o, n)


def sym_slice(*a):
    return slice(*a)


OVERRIDES = {
    "int": Int,
    "float": Float,
    "bool": Bool,
    "len": sym_len,
    "range": sym_range,
    "min": sym_min,
    "max": sym_max,
    "sum": sym_sum,
    "all": sym_all,
    "any": sym_any,
    "abs": sym_abs,
    "round": sym_round,
    "isinstance": sym_isinstance,
}


class Universe:
    """A set of glimpse modules loaded for symbolic execution."""

    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.sources = {}
        self.bi = dict(builtins.__dict__)
        self.bi.update(OVERRIDES)
        self.bi["__import__"] = self._import
        from . import symdt

        self.external = {"numpy": symnp, "datetime": symdt, "math": symnp.math}
        self._pkg("glimpse", run_init=False)
        for sub in ("track", "convert"):
            self._pkg(f"glimpse.{sub}", run_init=False)

    def _pkg(self, name, run_init):
        m = types.ModuleType("sym_" + name)
        m.__path__ = []
        m.__dict__["_symname"] = name
        self.mods[name] = m
        return m

    def _file(self, name):
        parts = name.split(".")[1:]
        p = os.path.join(self.root, *parts)
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def load(self, name):
        if name in self.mods and getattr(self.mods[name], "_loaded", False):
            return self.mods[name]
        if name == "glimpse":
            return self.mods[name]
        f = self._file(name)
        if name in self.mods:
            m = self.mods[name]
        else:
            m = types.ModuleType("sym_" + name)
            self.mods[name] = m
        m._loaded = True
        m.__dict__["_symname"] = name
        m.__dict__["__builtins__"] = self.bi
        m.__dict__["__file__"] = f
        with open(f) as fh:
            src = fh.read()
        self.sources[name] = src
        code = compile(src, f, "exec", flags=__future__.annotations.compiler_flag, dont_inherit=True)
        exec(code, m.__dict__)
        parent, _, leaf = name.rpartition(".")
        if parent in self.mods and not hasattr(self.mods[parent], leaf):
            setattr(self.mods[parent], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            cur = globals.get("_symname", "glimpse")
            ispkg = os.path.isdir(os.path.join(self.root, *cur.split(".")[1:]))
            parts = cur.split(".")
            up = level - 1 if ispkg else level
            base = ".".join(parts[: len(parts) - up])
            full = f"{base}.{name}" if name else base
            if not name:
                pkg = self.mods.get(base) or self.load(base)
                for n in fromlist or ():
                    if not hasattr(pkg, n):
                        setattr(pkg, n, self.load(f"{base}.{n}"))
                return pkg
            return self.load(full)
        top = name.split(".")[0]
        if name in self.external:
            return self.external[name]
        if top == "numpy":
            return symnp
        if top == "glimpse":
            return self.load(name)
        if top in STUBBED:
            m = stub_module(name)
            return m if fromlist else stub_module(top)
        return importlib.__import__(name, globals, locals, fromlist, 0)


_UNIVERSE = None


def universe():
    global _UNIVERSE
    if _UNIVERSE is None:
        from . import assumed  # noqa: F401 (registers the contracts)

        _UNIVERSE = Universe()
    return _UNIVERSE

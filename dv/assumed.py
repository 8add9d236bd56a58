"""Assumed contracts on dependencies (trusted, listed in every evidence file).

Each replaces the call of a compiled or third-party function by its documented
postcondition. Nothing here is proved.
"""
from . import core, loader, symnp
from .core import SNum, Unsupported, ctx, z3

TEXT = []


def assumed(path, text):
    def deco(fn):
        loader.CONTRACTS[path] = fn
        TEXT.append(f"{path}: {text}")
        return fn

    return deco


class Opaque:
    """Value of a dependency that the code only passes around."""

    def __init__(self, name):
        self._name = name

    def __repr__(self):
        return f"<{self._name}>"


for _n in ("FlannBasedMatcher", "SIFT_create", "BFMatcher", "SIFT"):
    loader.CONTRACTS["cv2." + _n] = lambda *a, _n=_n, **k: Opaque("cv2." + _n)


@assumed("scipy.optimize.differential_evolution", "returns x within the bounds and fun = func(x); products of x with whole numbers are never exact half-integers")
def differential_evolution(func, bounds, **k):
    c = ctx()
    xs = []
    for lo, hi in bounds:
        t = core.fresh_real("de_x")
        x = SNum(t)
        c.assume(core.zb((x >= lo).e if hasattr(x >= lo, "e") else x >= lo))
        c.assume(core.zb((x <= hi).e if hasattr(x <= hi, "e") else x <= hi))
        c.memo.setdefault("no-half", []).append(t)
        xs.append(x)
    x = xs[0] if len(xs) == 1 else symnp.array(xs)
    return {"x": symnp.array([x]) if len(xs) == 1 else x, "fun": func(x)}


class Parameter:
    def __init__(self, name, value, vary, min, max):
        # (lmfit moves values outside their bounds onto them)
        value = core.s_ite(value < min, min, value)
        value = core.s_ite(value > max, max, value)
        self.name, self.value, self.vary, self.min, self.max = name, value, vary, min, max


class Parameters(dict):
    """Named values with bounds, in the order they are added."""

    def add(self, name, value=None, vary=True, min=-symnp.inf, max=symnp.inf):
        self[name] = Parameter(name, value, vary, min, max)

    def valuesdict(self):
        return {k: p.value for k, p in self.items()}


loader._ATTRS["lmfit.Parameters"] = loader._ATTRS["lmfit.parameter.Parameters"] = Parameters
TEXT.append("lmfit.Parameters: keeps names, values (moved onto their bounds) and bounds in the order they are added")


def lil_matrix(shape, dtype=float):
    return symnp.zeros(shape, dtype=dtype)


loader._ATTRS["scipy.sparse.lil_matrix"] = lil_matrix
TEXT.append("scipy.sparse.lil_matrix: an array of zeros, assigned like a dense array")


class coo_matrix:
    def __init__(self, arg, shape):
        data, (row, col) = arg
        self.data, self.row, self.col, self.shape = data, row, col, shape
        if len(self.row) != len(self.col) or len(self.row) != len(self.data):
            raise ValueError("row, column, and data array must all be the same length")


loader._ATTRS["scipy.sparse.coo_matrix"] = coo_matrix
TEXT.append("scipy.sparse.coo_matrix: keeps the data, rows, columns and shape it is given")


@assumed("scipy.spatial.distance.cdist", "distances between all pairs of rows (euclidean, sqeuclidean, cityblock)")
def cdist(a, b, metric="euclidean", **k):
    if metric == "minkowski" and k in ({"p": 1}, {"p": 2}, {}):
        metric = "cityblock" if k.get("p") == 1 else "euclidean"
        k = {}
    if k or metric not in ("euclidean", "sqeuclidean", "cityblock"):
        raise Unsupported(f"cdist metric {metric}")
    d = a[:, None, :] - b[None, :, :]
    if metric == "cityblock":
        return symnp.abs(d).sum(axis=2)
    d = (d * d).sum(axis=2)
    return symnp.sqrt(d) if metric == "euclidean" else d


# -- scipy.interpolate: piecewise linear interpolation on small concrete grids ---


def _concrete(a, what):
    a = symnp.asarray(a)
    if not all(isinstance(n, int) for n in a.shape):
        raise Unsupported(f"{what} of symbolic length")
    return a


def _list(a, what):
    a = _concrete(a, what)
    return [a[i] for i in range(a.shape[0])]


def _ascending(x):
    """Forks on the order of the values; +1, -1 or 0 for neither."""
    if all(bool(a < b) for a, b in zip(x, x[1:])):
        return 1
    return -1 if all(bool(a > b) for a, b in zip(x, x[1:])) else 0


def _piece(x, at):
    """Index and weight of the piece that holds a position (end pieces extended)."""
    i = 0
    while i < len(x) - 2 and not bool(at < x[i + 1]):
        i += 1
    return i, (at - x[i]) / (x[i + 1] - x[i])


def _nearest(x, at):
    """The nearest of the values (the lower of two at equal distance)."""
    i = 0
    while i < len(x) - 1 and bool(at - x[i] > x[i + 1] - at):
        i += 1
    return i


def _bilinear(x, y, z, px, py):
    """z(i, j) at x[i], y[j]."""
    i, s = _piece(x, px)
    j, t = _piece(y, py)
    return (1 - s) * (1 - t) * z(i, j) + (1 - s) * t * z(i, j + 1) + s * (1 - t) * z(i + 1, j) + s * t * z(i + 1, j + 1)


class RegularGridInterpolator:
    def __init__(self, points, values, method="linear", bounds_error=True, fill_value=symnp.nan):
        if len(points) != 2:
            raise Unsupported("RegularGridInterpolator of other than two dimensions")
        self.grid = [_list(p, "interpolation nodes") for p in points]
        values = _concrete(values, "interpolated values")
        if values.shape != tuple(map(len, self.grid)):
            raise ValueError("There are points and values of different lengths")
        # (floating point values are shared, not copied)
        self.values = values if values.dtype.kind == "f" else symnp.array(values, dtype=float)
        for k, g in enumerate(self.grid):
            way = _ascending(g)
            if not way:
                raise ValueError("The points in a dimension must be strictly ascending or descending")
            if way < 0:
                self.grid[k] = g[::-1]
                self.values = self.values[::-1] if k == 0 else self.values[:, ::-1]
        self.method, self.bounds_error, self.fill_value = method, bounds_error, fill_value

    def __call__(self, xi, method=None):
        method = method or self.method
        xi = _concrete(xi, "points")
        if self.bounds_error or self.fill_value is not None or xi.ndim != 2:
            raise Unsupported("RegularGridInterpolator within bounds")
        if method not in ("linear", "nearest"):
            raise Unsupported(f"RegularGridInterpolator method {method}")
        out = []
        for k in range(xi.shape[0]):
            p = xi[k, 0], xi[k, 1]
            if bool(symnp.isnan(p[0]) | symnp.isnan(p[1])):
                out.append(symnp.nan)
            elif method == "linear":
                out.append(_bilinear(*self.grid, lambda i, j: self.values[i, j], *p))
            else:
                out.append(self.values[_nearest(self.grid[0], p[0]), _nearest(self.grid[1], p[1])])
        return symnp.array(out, dtype=float)


def interp1d(x, y, kind="linear", assume_sorted=False, fill_value=symnp.nan, **k):
    x, y = _list(x, "interpolation nodes"), _list(y, "interpolated values")
    if k or not isinstance(fill_value, str) or kind not in ("linear", "nearest"):
        raise Unsupported("interp1d")
    if len(x) < 2 or len(x) != len(y):
        raise ValueError("x and y arrays must be equal in length")
    way = _ascending(x)
    if assume_sorted and way <= 0 or not way:
        raise Unsupported("interp1d of unsorted nodes")
    if way < 0:
        x, y = x[::-1], y[::-1]

    def one(p):
        if bool(symnp.isnan(p)):
            return symnp.nan
        if kind == "nearest":
            return y[_nearest(x, p)]
        i, s = _piece(x, p)
        return (1 - s) * y[i] + s * y[i + 1]

    return lambda at: symnp.array([one(p) for p in _list(at, "points")], dtype=float)


class RectBivariateSpline:
    def __init__(self, x, y, z, bbox=(None,) * 4, kx=3, ky=3, s=0):
        self.x, self.y = _list(x, "interpolation nodes"), _list(y, "interpolation nodes")
        if _ascending(self.x) <= 0 or _ascending(self.y) <= 0:
            raise ValueError("x and y must be strictly increasing")
        z = _concrete(z, "interpolated values")
        if z.shape != (len(self.x), len(self.y)):
            raise ValueError("dimension of z must have same number of elements as x and y")
        if (kx, ky) != (1, 1) or not (isinstance(s, (int, float)) and s == 0):
            raise Unsupported("RectBivariateSpline of other than first order")
        self.z = [[z[i, j] for j in range(z.shape[1])] for i in range(z.shape[0])]
        for v in sum(self.z, []):
            if not ctx().entails(core.zb(core.b_not(core.lift(v).nan))):
                raise Unsupported("RectBivariateSpline of missing values")
        self.box = [g[k] if b is None else b for b, (g, k) in zip(bbox, ((self.x, 0), (self.x, -1), (self.y, 0), (self.y, -1)))]
        if not bool((self.box[0] <= self.x[0]) & (self.box[1] >= self.x[-1]) & (self.box[2] <= self.y[0]) & (self.box[3] >= self.y[-1])):
            raise Unsupported("RectBivariateSpline with nodes beyond its box")

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        x, y = _list(x, "points"), _list(y, "points")
        if dx or dy or not grid:
            raise Unsupported("RectBivariateSpline at points")
        for p in (x, y):
            if not all(bool(a <= b) for a, b in zip(p, p[1:])):
                raise ValueError("x and y must be sorted in increasing order")
        clip = lambda v, lo, hi: symnp.minimum(symnp.maximum(v, lo), hi)
        x = [clip(v, *self.box[:2]) for v in x]
        y = [clip(v, *self.box[2:]) for v in y]
        return symnp.array([[_bilinear(self.x, self.y, lambda i, j: self.z[i][j], u, v) for v in y] for u in x], dtype=float)


for _c, _t in (
    (RegularGridInterpolator, "bilinear between nodes (end pieces extended) or nearest node, for nodes in either direction; floating point values are shared with the caller, others copied"),
    (interp1d, "linear between nodes (end pieces extended) or nearest node; nodes ascending if assumed sorted"),
    (RectBivariateSpline, "order 1 without smoothing: bilinear, end pieces extended to the box and constant beyond; nodes and positions ascending, no missing values"),
):
    loader._ATTRS["scipy.interpolate." + _c.__name__] = _c
    TEXT.append(f"scipy.interpolate.{_c.__name__}: {_t}")

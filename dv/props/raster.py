"""Contracts on glimpse.raster: grids, rasters, raster time series."""
import math

from ..harness import contract

RAS = "glimpse/raster.py:"
GRD = RAS + "Grid."


def limits(env, name):
    lim = [env.real(name + "0", scale=20), env.real(name + "1", scale=20)]
    if env.symbolic:
        env.assume(env.lor(lim[0] < lim[1], lim[0] > lim[1]))
    elif abs(lim[0] - lim[1]) < 0.5:
        lim[1] = lim[0] + (0.5 if lim[1] >= lim[0] else -0.5)
    return lim


def integer(env, x):
    """A whole number as an index."""
    if env.symbolic:
        from ..core import SNum, floor_int, lift

        x = lift(x)

        return SNum(floor_int(x.e))
    return int(round(float(x)))


def make_grid(env, n=None):
    nx, ny = n or (env.size("nx"), env.size("ny"))
    xl, yl = limits(env, "xl"), limits(env, "yl")
    return env.g.raster.Grid((nx, ny), x=xl, y=yl), nx, ny, xl, yl


# -- R01 conversions -------------------------------------------------------------


@contract("R01", [GRD + "xyz_to_uv", GRD + "uv_to_xyz", GRD + "d"], budget=40)
def image_coordinates(env):
    grid, nx, ny, xl, yl = make_grid(env)
    k = env.size("k", ge=1)
    cols = env.choice("cols", [2, 3])
    xyz = env.array("xyz", (k, cols))
    uv = grid.xyz_to_uv(xyz)
    back = grid.uv_to_xyz(uv)
    env.ensure("shape", uv.shape[0] == k)
    env.ensure("shape", uv.shape[1] == 2)
    env.ensure("shape.back", back.shape[1] == 3)
    for i in env.each(k):
        env.eq("u", uv[i, 0] * (xl[1] - xl[0]), (xyz[i, 0] - xl[0]) * nx)
        env.eq("v", uv[i, 1] * (yl[1] - yl[0]), (xyz[i, 1] - yl[0]) * ny)
        env.eq("inverse", back[i, 0], xyz[i, 0])
        env.eq("inverse", back[i, 1], xyz[i, 1])
        env.ensure("no-elevation", env.isnan(back[i, 2]))
    ends = grid.uv_to_xyz(env.np.array([[0, 0], [nx, ny]]))
    env.eq("corner", ends[0, 0], xl[0])
    env.eq("corner", ends[0, 1], yl[0])
    env.eq("corner", ends[1, 0], xl[1])
    env.eq("corner", ends[1, 1], yl[1])


@contract("R01", [GRD + "rowcol_to_xy", GRD + "xy_to_rowcol"], budget=40)
def array_indices(env):
    grid, nx, ny, xl, yl = make_grid(env)
    k = env.size("k", ge=1)
    xy = env.array("xy", (k, 2))
    rc = grid.xy_to_rowcol(xy)
    back = grid.rowcol_to_xy(rc)
    uv = grid.xyz_to_uv(xy)
    for i in env.each(k):
        env.eq("row", rc[i, 0], uv[i, 1] - 0.5)
        env.eq("col", rc[i, 1], uv[i, 0] - 0.5)
        env.eq("inverse", back[i, 0], xy[i, 0])
        env.eq("inverse", back[i, 1], xy[i, 1])


@contract("R01", [GRD + "xy_to_rowcol", GRD + "snap_xy"], budget=90)
def snapped_indices(env):
    grid, nx, ny, xl, yl = make_grid(env)
    k = env.size("k", ge=1)
    xy = env.array("xy", (k, 2), scale=20)
    edge = None
    if not env.symbolic:
        # in-bounds points, some on cell edges and outer bounds
        t = [[env.choice(f"t{i}{j}", [0, 0.25, 0.5, 1, None]) for j in range(2)] for i in range(k)]
        for i in range(k):
            for j, lim in enumerate((xl, yl)):
                m = (nx, ny)[j]
                f = t[i][j] if t[i][j] is not None else env.real(f"f{i}{j}", ge=0, le=1)
                xy[i, j] = lim[0] + f * (lim[1] - lim[0]) if f != 1 else lim[1]
    rc = grid.xy_to_rowcol(xy, snap=True)
    uv = grid.xyz_to_uv(xy)
    for i in env.each(k):
        for j, (lim, m, r) in enumerate(((xl, nx, rc[i, 1]), (yl, ny, rc[i, 0]))):
            if env.symbolic:
                env.assume(uv[i, j] >= 0)
                env.assume(uv[i, j] <= m)
            tol = 0 if env.symbolic else 1e-9
            env.ensure("inbounds", env.land(r >= 0, r < m))
            env.ensure("holds-point", env.land(r <= uv[i, j] + tol, uv[i, j] <= r + 1 + tol))
            if env.symbolic:
                # an inner edge belongs to the cell of higher index
                env.ensure("upper-of-edge", env.implies(xy[i, j] != lim[1], uv[i, j] < r + 1))


@contract("R01", [GRD + "snap_xy"], budget=90)
def snapping(env):
    grid, nx, ny, xl, yl = make_grid(env)
    k = env.size("k", ge=1)
    xy = env.array("xy", (k, 2), scale=20)
    kind = env.choice("kind", ["centers", "edges", "both", "none"])
    inb = env.choice("inbounds", [True, False])
    kw = dict(centers=kind in ("centers", "both"), edges=kind in ("edges", "both"), inbounds=inb)
    exc, out = env.raises(lambda: grid.snap_xy(xy, **kw), ValueError)
    env.ensure("rejected", (exc is not None) == (kind == "none"))
    if exc is not None:
        return
    fl = env.np.floor
    for i in env.each(k):
        for j, (lim, m) in enumerate(((xl, nx), (yl, ny))):
            d = (lim[1] - lim[0]) / m
            u = (xy[i, j] - lim[0]) / d
            if not env.symbolic:
                w = (out[i, j] - lim[0]) / d
                f = 2 if kind == "both" else 1
                w2 = w * f - (0.5 if kind == "centers" else 0)
                env.ensure("lattice", abs(w2 - round(w2)) < 1e-6)
                env.ensure("nearest", abs(w - u) <= 0.5 / f + 1e-6)
                continue
            # nearest lattice position, ties upward in index
            if kind == "edges":
                w = fl(u + 0.5)
            elif kind == "both":
                w = fl(2 * u + 0.5) / 2
            else:
                outer = env.land(xy[i, j] == lim[1], inb)
                w = env.ite(outer, m - 0.5, fl(u) + 0.5)
            env.eq("nearest", out[i, j], lim[0] + w * d)


@contract("R01", [GRD + "snap_box", GRD + "inbounds_xy"], budget=60)
def snap_boxes(env):
    grid, nx, ny, xl, yl = make_grid(env)
    c = [env.real("cx", scale=20), env.real("cy", scale=20)]
    size = [env.real("sx", ge=0, scale=10), env.real("sy", ge=0, scale=10)]
    if not env.symbolic:
        c = [lim[0] + env.real(f"f{j}", ge=0, le=1) * (lim[1] - lim[0]) for j, lim in enumerate((xl, yl))]
    lo = [env.np.minimum(a[0], a[1]) for a in (xl, yl)]
    hi = [env.np.maximum(a[0], a[1]) for a in (xl, yl)]
    inside = env.land(*[env.land(lo[j] <= c[j] - size[j] / 2, c[j] + size[j] / 2 <= hi[j]) for j in range(2)])
    exc, box = env.raises(lambda: grid.snap_box(env.np.array(c), size), IndexError)
    if exc is not None:
        env.ensure("rejected-outside", env.lnot(inside))
        return
    env.ensure("accepted-inside", inside)
    d = [(xl[1] - xl[0]) / nx, (yl[1] - yl[0]) / ny]
    for j, lim in enumerate((xl, yl)):
        for s, b in ((-1, box[j]), (1, box[2 + j])):
            u = (c[j] + s * size[j] / 2 - lim[0]) / d[j]
            if env.symbolic:
                env.eq("nearest-edge", b, lim[0] + d[j] * env.np.floor(u + 0.5))
            else:
                w = (b - lim[0]) / d[j]
                env.ensure("edge", abs(w - round(w)) < 1e-6)
                env.ensure("nearest", abs(w - u) <= 0.5 + 1e-6)


@contract("R01", [GRD + "rowcol_to_idx", GRD + "idx_to_rowcol"], budget=40)
def flat_indices(env):
    grid, nx, ny, xl, yl = make_grid(env)
    k = env.size("k", ge=1)
    r = env.array("r", (k,), dtype="i", ge=0, **(dict(lt=ny) if env.symbolic else {}))
    c = env.array("c", (k,), dtype="i", ge=0, **(dict(lt=nx) if env.symbolic else {}))
    if not env.symbolic:
        r, c = r % ny, c % nx
    rc = env.np.column_stack((r, c))
    idx = grid.rowcol_to_idx(rc)
    back = grid.idx_to_rowcol(idx)
    for i in env.each(k):
        env.ensure("row-major", idx[i] == r[i] * nx + c[i])
        env.ensure("inverse.row", back[i, 0] == r[i])
        env.ensure("inverse.col", back[i, 1] == c[i])


@contract("R01", [GRD + "inbounds", GRD + "inbounds_xy"], budget=40)
def bounds_tests(env):
    grid, nx, ny, xl, yl = make_grid(env)
    k = env.size("k", ge=1)
    xy = env.array("xy", (k, 2), scale=20, nan=True)
    got = grid.inbounds_xy(xy)
    cols, rows = grid.inbounds_xy((xy[:, 0], xy[:, 1]), grid=True)
    uv = env.array("uv", (k, 2), scale=8, nan=True)
    uin = grid.inbounds(uv)
    for i in env.each(k):
        ins = [env.lor(env.land(a[0] <= xy[i, j], xy[i, j] <= a[1]), env.land(a[1] <= xy[i, j], xy[i, j] <= a[0])) for j, a in enumerate((xl, yl))]
        env.ensure("points", env.iff(got[i], env.land(*ins)))
        env.ensure("columns", env.iff(cols[i], ins[0]))
        env.ensure("rows", env.iff(rows[i], ins[1]))
        env.ensure("image", env.iff(uin[i], env.land(0 <= uv[i, 0], uv[i, 0] <= nx, 0 <= uv[i, 1], uv[i, 1] <= ny)))


# -- R02 georeference ------------------------------------------------------------


def check_grid(env, grid, nx, ny, xl, yl, tag="", light=False):
    """The documented relations between size, limits, cell size and coordinates."""
    env.eq(tag + "size", grid.size[0], nx)
    env.eq(tag + "size", grid.size[1], ny)
    env.eq(tag + "shape", grid.shape[0], ny)
    env.eq(tag + "shape", grid.shape[1], nx)
    for j, (lim, n, got, axis, mat) in enumerate(((xl, nx, grid.xlim, grid.x, grid.X), (yl, ny, grid.ylim, grid.y, grid.Y))):
        env.eq(tag + "limits", got[0], lim[0])
        env.eq(tag + "limits", got[1], lim[1])
        env.eq(tag + "cell-size", grid.d[j] * n, lim[1] - lim[0])
        for i in env.each(n):
            env.eq(tag + "cell-centre", (axis[i] - lim[0]) * n, (i + 0.5) * (lim[1] - lim[0]))
        if light:
            continue
        lo, hi = env.ite(lim[0] < lim[1], lim[0], lim[1]), env.ite(lim[0] < lim[1], lim[1], lim[0])
        env.eq(tag + "min", grid.min[j], lo)
        env.eq(tag + "max", grid.max[j], hi)
        env.eq(tag + "box", grid.box2d[j], lo)
        env.eq(tag + "box", grid.box2d[2 + j], hi)
        env.ensure(tag + "coordinates.length", axis.shape[0] == n)
        env.ensure(tag + "matrix.shape", env.land(mat.shape[0] == ny, mat.shape[1] == nx))
    for r in env.each(ny):
        for c in env.each(nx):
            env.eq(tag + "matrix.x", grid.X[r, c], grid.x[c])
            env.eq(tag + "matrix.y", grid.Y[r, c], grid.y[r])


def cached(env, grid):
    """Coordinates are computed on demand and may have been asked for before."""
    for a in env.choice("cached", ["", "xyXY", "yX"] if env.symbolic else ["", "xyXY", "x", "y", "X", "Y", "xY", "yX"]):
        getattr(grid, a)


@contract("R02", [GRD + a for a in ("__init__", "size", "xlim", "ylim", "d", "min", "max", "box2d", "x", "y", "X", "Y", "shape")], budget=120)
def grid_attributes(env):
    grid, nx, ny, xl, yl = make_grid(env)
    check_grid(env, grid, nx, ny, xl, yl)


@contract("R02", [GRD + a for a in ("xlim", "ylim", "size", "_clear_cache", "_parse_limits")], budget=200, shards=4)
def grid_reassigned(env):
    grid, nx, ny, xl, yl = make_grid(env)
    cached(env, grid)
    what = env.choice("what", ["xlim", "ylim", "size", "scalar", "xlim-bad"])
    if what == "xlim":
        grid.xlim = xl = limits(env, "xn")
    elif what == "ylim":
        grid.ylim = yl = limits(env, "yn")
    elif what == "size":
        nx, ny = env.size("mx"), env.size("my")
        grid.size = (nx, ny)
    elif what == "scalar":
        nx = ny = env.size("m")
        grid.size = nx
    else:
        v = env.real("v")
        exc, _ = env.raises(lambda: setattr(grid, "xlim", (v, v)), ValueError)
        env.ensure("equal-limits-rejected", exc is not None)
        exc, _ = env.raises(lambda: setattr(grid, "ylim", (v, v + 1, v + 2)), ValueError)
        env.ensure("three-limits-rejected", exc is not None)
        exc, _ = env.raises(lambda: setattr(grid, "size", (0, 2)), ValueError)
        env.ensure("empty-size-rejected", exc is not None)
        exc, _ = env.raises(lambda: setattr(grid, "size", (1.5, 2.5)), ValueError)
        env.ensure("fractional-size-rejected", exc is not None)
    check_grid(env, grid, nx, ny, xl, yl, light=True)


@contract("R02", [GRD + "copy", GRD + "shift", GRD + "_shift_xy", GRD + "resize", GRD + "__eq__"], budget=200, shards=8)
def grid_changes(env):
    grid, nx, ny, xl, yl = make_grid(env)
    other = grid.copy()
    env.ensure("copy.equal", grid == other)
    cached(env, other)
    what = env.choice("what", ["shift", "x", "y", "resize"])
    x2, y2, n2 = xl, yl, (nx, ny)
    if what == "resize":
        s = env.real("s", gt=0, scale=4)
        env.assume(env.land(nx * s >= 0.5, ny * s >= 0.5))
        other.resize(s)
        n2 = tuple(env.np.floor(n * s + 0.5) for n in n2)
    else:
        dx = env.real("dx") if what in ("shift", "x") else None
        dy = env.real("dy") if what in ("shift", "y") else None
        other.shift(dx, dy)
        if dx is not None:
            x2 = [v + dx for v in xl]
        if dy is not None:
            y2 = [v + dy for v in yl]
    env.ensure("resized", env.land(other.size[0] == n2[0], other.size[1] == n2[1]))
    check_grid(env, other, other.size[0], other.size[1], x2, y2, "changed.", light=True)
    check_grid(env, grid, nx, ny, xl, yl, "original.", light=True)


@contract("R02", [RAS + "Raster.__init__", GRD + "_parse_xy"], budget=120)
def raster_from_coordinates(env):
    nx, ny = env.choice("nx", [3, 4, 6]), env.choice("ny", [3, 5])
    Z = env.array("Z", (ny, nx))
    x0, dx = env.real("x0"), env.real("dx")
    y0, dy = env.real("y0"), env.real("dy")
    env.assume(env.land(dx != 0, dy != 0))
    if not env.symbolic:
        dx = dx if abs(dx) > 0.1 else 1.0
        dy = dy if abs(dy) > 0.1 else -1.0
    x = env.np.array([x0 + i * dx for i in range(nx)])
    y = env.np.array([y0 + i * dy for i in range(ny)])
    form = env.choice("form", ["vectors", "matrices", "limits"])
    if form == "matrices":
        x, y = env.np.tile(x, (ny, 1)), env.np.tile(y, (nx, 1)).T
    xl = [x0 - dx / 2, x0 + (nx - 0.5) * dx]
    yl = [y0 - dy / 2, y0 + (ny - 0.5) * dy]
    if form == "limits":
        x, y = xl, yl
    r = env.g.raster.Raster(Z, x=x, y=y)
    check_grid(env, r, nx, ny, xl, yl)
    check_grid(env, r.grid, nx, ny, xl, yl, "grid.")
    dflt = env.g.raster.Raster(Z)
    check_grid(env, dflt, nx, ny, [0, nx], [0, ny], "default.")


def make_raster(env, shape=None, nan=False):
    ny, nx = shape or (env.size("ny"), env.size("nx"))
    Z = env.array("Z", (ny, nx), nan=nan)
    xl, yl = limits(env, "xl"), limits(env, "yl")
    return env.g.raster.Raster(Z, x=xl, y=yl), Z, nx, ny, xl, yl


@contract("R02", [RAS + "Raster.shift", RAS + "Raster.copy", RAS + "Raster.__eq__", GRD + "_shift_xy"], budget=200, shards=4)
def raster_shift(env):
    r, Z, nx, ny, xl, yl = make_raster(env)
    keep = env.np.copy(Z)
    other = r.copy()
    env.ensure("copy.equal", r == other)
    cached(env, other)
    what = env.choice("what", ["xyz", "x", "y", "z"])
    dx = env.real("dx") if "x" in what else None
    dy = env.real("dy") if "y" in what else None
    dz = env.real("dz") if "z" in what else None
    other.shift(dx, dy, dz)
    x2 = [v + dx for v in xl] if dx is not None else xl
    y2 = [v + dy for v in yl] if dy is not None else yl
    check_grid(env, other, nx, ny, x2, y2, "shifted.", light=True)
    check_grid(env, r, nx, ny, xl, yl, "original.", light=True)
    for i in env.each(ny):
        for j in env.each(nx):
            env.eq("shifted.value", other.array[i, j], Z[i, j] + (dz if dz is not None else 0))
            env.eq("original.value", r.array[i, j], keep[i, j])


# -- R03 crops, subsets and tiles ------------------------------------------------


@contract("R03", [RAS + "Raster.__getitem__"], budget=240, shards=8, paths=6000, bounded="rasters of listed shapes and slices (all values and limits)")
def raster_subset(env):
    ny, nx = env.choice("ny", [1, 4] if env.symbolic else [1, 2, 3, 5]), env.choice("nx", [5] if env.symbolic else [1, 3, 6])
    r, Z, nx, ny, xl, yl = make_raster(env, (ny, nx))
    kinds = [0, -1, slice(None), slice(0, 1), slice(-2, None), slice(None, None, 2), slice(None, None, -1), slice(None, None, -3), slice(1, 4)]
    i, j = env.choice("i", kinds), env.choice("j", kinds)
    whole = env.choice("rows_only", [False, True])
    if env.symbolic:
        # all row forms with two column forms, and the reverse
        env.assume(env.lor(i is kinds[1], i is kinds[-1], j is kinds[1], j is kinds[-1]))
    rows, cols = list(range(ny)), list(range(nx))
    R = [rows[i]] if isinstance(i, int) else rows[i]
    C = cols if whole else [cols[j]] if isinstance(j, int) else cols[j]
    env.assume(len(R) > 0 and len(C) > 0)
    sub = r[i] if whole else r[i, j]
    dx, dy = (xl[1] - xl[0]) / nx, (yl[1] - yl[0]) / ny
    sx = C[1] - C[0] if len(C) > 1 else getattr(j, "step", None) or 1 if not whole else 1
    sy = R[1] - R[0] if len(R) > 1 else getattr(i, "step", None) or 1
    env.ensure("shape", sub.array.shape == (len(R), len(C)))
    env.eq("cell-size", sub.d[0], dx * sx)
    env.eq("cell-size", sub.d[1], dy * sy)
    for a, row in enumerate(R):
        env.eq("y", sub.y[a], yl[0] + (row + 0.5) * dy)
        for b, col in enumerate(C):
            env.eq("x", sub.x[b], xl[0] + (col + 0.5) * dx)
            env.eq("value", sub.array[a, b], Z[row, col])


@contract("R03", [RAS + "Raster.crop", GRD + "crop_extent"], sym=False, samples=400, bounded="limits at, between and beyond the cell edges of grids without rounding error")
def raster_crop(env):
    if env.symbolic:
        # any limits are an origin and a multiple of the cell size
        ny, nx = env.size("ny"), env.size("nx")
        Z = env.array("Z", (ny, nx))
        d = [env.real("d" + a) for a in "xy"]
        o = [env.real("o" + a) for a in "xy"]
        env.assume(env.land(env.lor(d[0] < 0, d[0] > 0), env.lor(d[1] < 0, d[1] > 0)))
        xl, yl = ([o[j], o[j] + d[j] * n] for j, n in ((0, nx), (1, ny)))
        r = env.g.raster.Raster(Z, x=xl, y=yl)
        tx, ty = limits(env, "tx"), limits(env, "ty")
    else:
        # cell edges and bounds without rounding error
        ny, nx = env.size("ny"), env.size("nx")
        Z = env.array("Z", (ny, nx))
        d = [env.choice("d" + a, [1, -1, 0.5, -0.5, 2, -4]) for a in "xy"]
        o = [env.int("o" + a, ge=-20, le=20) for a in "xy"]
        xl, yl = ([o[j], o[j] + d[j] * n] for j, n in ((0, nx), (1, ny)))
        r = env.g.raster.Raster(Z, x=xl, y=yl)
        tx, ty = ([o[j] + d[j] * env.choice(f"t{j}{k}", [-1, 0, 0.5, 1, 2, 2.25, n - 1, n - 0.75, n, n + 1]) for k in range(2)] for j, n in ((0, nx), (1, ny)))
        env.assume(tx[0] != tx[1] and ty[0] != ty[1])
    keep = env.np.copy(Z)
    dx, dy = d
    # (crops in both dimensions at once: run-time checks)
    which = env.choice("which", ["x", "y"] if env.symbolic else ["x", "y", "xy"])
    # overlap of target and grid, in image coordinates
    want, kw, empty = [], {}, []
    for name, lim, n, t, d in (("x", xl, nx, tx, dx), ("y", yl, ny, ty, dy)):
        if name not in which:
            want.append((0, n - 1))
            continue
        kw[name + "lim"] = t
        asc = bool(lim[0] < lim[1])
        low, high = (lim[0], lim[1]) if asc else (lim[1], lim[0])
        a, b = (t[0], t[1]) if bool(t[0] < t[1]) else (t[1], t[0])
        if bool(a < low):
            a = low
        if bool(b > high):
            b = high
        empty.append(a >= b)
        first, last = (a, b) if asc else (b, a)
        want.append((integer(env, env.np.floor((first - lim[0]) / d)), integer(env, env.np.ceil((last - lim[0]) / d)) - 1))
    exc, _ = env.raises(lambda: r.crop(**kw), ValueError)
    env.ensure("rejected-iff-outside", env.iff(exc is not None, env.lor(*empty)))
    if exc is not None:
        return
    (c0, c1), (r0, r1) = want
    env.ensure("columns", r.size[0] == c1 - c0 + 1)
    env.ensure("rows", r.size[1] == r1 - r0 + 1)
    for j, (lim, d, k0, k1, got) in enumerate(((xl, dx, c0, c1, r.xlim), (yl, dy, r0, r1, r.ylim))):
        env.eq("limits", got[0], lim[0] + d * k0)
        env.eq("limits", got[1], lim[0] + d * (k1 + 1))
    for a in env.each(r.size[1]):
        for b in env.each(r.size[0]):
            env.eq("value", r.array[a, b], keep[a + r0, b + c0])
    for b in env.each(r.size[0]):
        env.eq("coordinate", r.x[b], xl[0] + (c0 + b + 0.5) * dx)


@contract("R03", [RAS + "Raster.crop", GRD + "crop_extent", GRD + "xy_to_rowcol", GRD + "snap_xy"], budget=200, paths=4000, shards=8, samples=150, bounded="grids of one or three cells along the axis cropped (any position, cell size, direction, limits and values)")
def raster_crop_cells(env):
    """Crops along one axis, for any limits."""
    np = env.np
    axis, n = env.choice("axis", [0, 1]), env.choice("n", [1, 3] if env.symbolic else [1, 2, 3, 4])
    up = env.choice("up", [True, False])
    o, size = env.real("o", scale=20), env.real("d", gt=0, scale=5)
    d = size if up else -size
    t = [env.real(f"t{k}", scale=5) for k in range(2)]
    env.assume(t[0] < t[1])
    if not env.symbolic:
        # (positions without rounding error)
        o, size = round(o), max(round(size), 0.5)
        d = size if up else -size
        t = [round(4 * v) / 4 for v in t]
        env.assume(t[0] < t[1])
    shape = (2, n) if axis == 0 else (n, 2)
    Z = env.array("Z", shape)
    other = (10.0, 4.0)
    lim = [o, o + d * n]
    r = env.g.raster.Raster(np.copy(Z), x=lim if axis == 0 else other, y=lim if axis == 1 else other)
    want = [o + d * v for v in t]
    if env.choice("reverse", [False, True]):
        want = want[::-1]
    exc, _ = env.raises(lambda: r.crop(**{"xlim" if axis == 0 else "ylim": want}), ValueError)
    inside = env.land(t[0] < n, t[1] > 0)
    env.ensure("rejected-iff-outside", env.iff(exc is not None, env.lnot(inside)))
    if exc is not None:
        return
    first = next(k for k in range(n) if bool(t[0] < k + 1))
    last = next(k for k in reversed(range(n)) if bool(t[1] > k))
    env.ensure("shape", tuple(r.array.shape) == ((2, last - first + 1) if axis == 0 else (last - first + 1, 2)), f"{r.array.shape} {first} {last}")
    got, rest = (r.xlim, r.ylim) if axis == 0 else (r.ylim, r.xlim)
    env.eq("limits", got[0], o + d * first)
    env.eq("limits", got[1], o + d * (last + 1))
    for k in range(2):
        env.eq("other-limits", rest[k], other[k])
    for k in range(first, last + 1):
        for i in range(2):
            a, b = ((i, k - first), (i, k)) if axis == 0 else ((k - first, i), (k, i))
            env.eq("value", r.array[a], Z[b])
        env.eq("coordinate", (r.x if axis == 0 else r.y)[k - first], o + d * (k + 0.5))


@contract("R03", [RAS + "Raster.crop"], budget=60)
def raster_crop_values(env):
    r, Z, nx, ny, xl, yl = make_raster(env, nan=True)
    keep = env.np.copy(Z)
    z = limits(env, "z")
    lo, hi = env.ite(z[0] < z[1], z[0], z[1]), env.ite(z[0] < z[1], z[1], z[0])
    r.crop(zlim=z)
    for a in env.each(ny):
        for b in env.each(nx):
            inside = env.land(lo <= keep[a, b], keep[a, b] <= hi)
            env.ensure("missing", env.iff(env.isnan(r.array[a, b]), env.lnot(inside)))
            env.ensure("kept", env.implies(inside, r.array[a, b] == keep[a, b]))
    check_grid(env, r, nx, ny, xl, yl, light=True)


@contract("R03", [RAS + "Raster.data_extent", RAS + "Raster.crop_to_data"], budget=120, shards=4, bounded="rasters up to 2 x 3 cells (all data masks and values)")
def raster_data_extent(env):
    ny, nx = env.choice("ny", [1, 2] if env.symbolic else [1, 2, 3]), env.choice("nx", [1, 3] if env.symbolic else [1, 3, 4])
    r, Z, nx, ny, xl, yl = make_raster(env, (ny, nx), nan=True)
    if not env.symbolic:
        for i in range(ny):
            for j in range(nx):
                if env.choice(f"gap{i}{j}", [0, 0, 1]):
                    Z[i, j] = env.np.nan
        r.array = Z
    keep = env.np.copy(Z)
    here = [[env.lnot(env.isnan(keep[i, j])) for j in range(nx)] for i in range(ny)]
    some = env.lor(*[h for row in here for h in row])
    exc, ext = env.raises(lambda: r.data_extent(), ValueError)
    env.ensure("rejected-iff-no-data", env.iff(exc is not None, env.lnot(some)))
    if exc is not None:
        return
    rows, cols = ext
    for i in range(ny):
        rowdata = env.lor(*here[i])
        env.ensure("covers", env.implies(rowdata, env.land(rows.start <= i, i < rows.stop)))
        env.ensure("tight", env.implies(env.lor(rows.start == i, rows.stop == i + 1), rowdata))
    for j in range(nx):
        coldata = env.lor(*[here[i][j] for i in range(ny)])
        env.ensure("covers", env.implies(coldata, env.land(cols.start <= j, j < cols.stop)))
        env.ensure("tight", env.implies(env.lor(cols.start == j, cols.stop == j + 1), coldata))
    r.crop_to_data()
    dx, dy = (xl[1] - xl[0]) / nx, (yl[1] - yl[0]) / ny
    env.ensure("shape", env.land(r.size[0] == cols.stop - cols.start, r.size[1] == rows.stop - rows.start))
    env.eq("limits", r.xlim[0], xl[0] + cols.start * dx)
    env.eq("limits", r.xlim[1], xl[0] + cols.stop * dx)
    env.eq("limits", r.ylim[0], yl[0] + rows.start * dy)
    env.eq("limits", r.ylim[1], yl[0] + rows.stop * dy)
    for b in env.each(r.size[0]):
        env.eq("coordinate", r.x[b], xl[0] + (cols.start + b + 0.5) * dx)
    for a in env.each(r.size[1]):
        for b in env.each(r.size[0]):
            env.ensure("value", env.same(r.array[a, b], keep[a + rows.start, b + cols.start]))


@contract("R03", [GRD + "tile_indices"], sym=False, samples=600, bounded="grids of 1 to 60 cells, tiles of 1 to 70, overlaps of 0 to 12")
def tiles(env):
    np = env.np
    nx, ny = env.int("nx", ge=1, le=60), env.int("ny", ge=1, le=60)
    size = [env.int("sx", ge=1, le=70), env.int("sy", ge=1, le=70)]
    over = [env.choice("ox", [0, 0, 1, 2, 5, 12]), env.choice("oy", [0, 0, 1, 3, 12])]
    grid = env.g.raster.Grid((nx, ny))
    kw = {} if not any(over) and env.choice("default", [True, False]) else {"overlap": tuple(over)}
    tiles = grid.tile_indices(size=tuple(size), **kw)
    rows, cols = [], []
    for r, c in tiles:
        for axis, s in ((rows, r), (cols, c)):
            env.ensure("step", s.step is None or s.step == 1)
            if (s.start, s.stop) not in axis:
                axis.append((int(s.start), int(s.stop)))
    # every row interval with every column interval, once, row by row
    env.ensure("product", [(int(r.start), int(r.stop), int(c.start), int(c.stop)) for r, c in tiles] == [r + c for r in rows for c in cols])
    for axis, n, t, o in ((cols, nx, size[0], over[0]), (rows, ny, size[1], over[1])):
        env.ensure("first", axis[0][0] == 0)
        env.ensure("last", axis[-1][1] == n)
        for a, b in axis:
            env.ensure("inside", 0 <= a < b <= n)
        for (_, e), (s, e2) in zip(axis, axis[1:]):
            env.ensure("overlap", s == max(e - o, 0))
            env.ensure("advance", e2 > e)
        ends = [0] + [b for _, b in axis]
        lens = [b - a for a, b in zip(ends, ends[1:])]
        env.ensure("even", all(k == lens[0] for k in lens[:-1]) and lens[-1] <= lens[0])
        # the number of tiles closest to the requested size (ties: either)
        k = n / t
        env.ensure("size", lens[0] in {math.ceil(n / max(1, j)) for j in (math.ceil(k - 0.5), math.floor(k + 0.5))})
    count = np.zeros((ny, nx), dtype=int)
    for s in tiles:
        count[s] += 1
    env.ensure("cover", bool((count >= 1).all()))
    if not any(over):
        env.ensure("partition", bool((count == 1).all()))


# -- R04 sampling ------------------------------------------------------------------


def concrete_raster(env, nx=None, ny=None, nan=0.0, scale=10):
    """A raster on a dyadic grid (ascending or descending), with missing cells."""
    np = env.np
    nx = nx or env.int("nx", ge=1, le=6)
    ny = ny or env.int("ny", ge=1, le=6)
    Z = env.array("Z", (ny, nx), scale=scale)
    d = [env.choice("d" + a, [1, -1, 0.5, -0.5, 2, -4]) for a in "xy"]
    o = [env.int("o" + a, ge=-20, le=20) for a in "xy"]
    xl, yl = ([o[j], o[j] + d[j] * n] for j, n in ((0, nx), (1, ny)))
    if nan:
        gaps = env.choice("gaps", [0, 1, 2])
        for k in range(gaps):
            Z[env.int(f"gr{k}", ge=0, le=ny - 1), env.int(f"gc{k}", ge=0, le=nx - 1)] = np.nan
    return env.g.raster.Raster(Z.copy(), x=xl, y=yl), Z, nx, ny, d, o


def sample_points(env, k, nx, ny, d, o, beyond=True):
    """Points inside (at centres, edges, bounds, anywhere) and outside."""
    xy = env.np.zeros((k, 2))
    for i in range(k):
        for j, n in ((0, nx), (1, ny)):
            kind = env.choice(f"p{i}{j}", ["any", "any", "centre", "edge", "out"] if beyond else ["any", "any", "centre", "edge"])
            u = {
                "any": lambda: env.real(f"u{i}{j}", ge=0, le=n),
                "centre": lambda: env.int(f"u{i}{j}", ge=0, le=n - 1) + 0.5,
                "edge": lambda: env.int(f"u{i}{j}", ge=0, le=n),
                "out": lambda: env.choice(f"u{i}{j}", [-0.5, -2, n + 0.25, n + 3]),
            }[kind]()
            xy[i, j] = o[j] + d[j] * u
    return xy


def bilinear(Z, u, v):
    """Bilinear interpolation (linear extension) at image coordinates."""
    ny, nx = Z.shape
    out = 0.0
    for w, i in weights(v - 0.5, ny):
        for t, j in weights(u - 0.5, nx):
            out += w * t * Z[i, j]
    return out


def weights(x, n):
    if n == 1:
        return [(1.0, 0)]
    i = min(max(int(math.floor(x)), 0), n - 2)
    return [(1 - (x - i), i), (x - i, i + 1)]


def interpolated(env, got, Z, u, v):
    """A sample is the bilinear value, missing if a missing cell has weight in it."""
    near = [(w * t, Z[i, j]) for w, i in weights(v - 0.5, Z.shape[0]) for t, j in weights(u - 0.5, Z.shape[1])]
    gaps = [abs(w) for w, z in near if z != z]
    # (a sample at a cell centre may use the neighbours on either side)
    reach = [{i for _, i in weights(x, n)} | {i for i in range(n) if abs(i - x) <= 1 + 1e-9} for x, n in ((v - 0.5, Z.shape[0]), (u - 0.5, Z.shape[1]))]
    beside = [Z[i, j] for i in reach[0] for j in reach[1]]
    if not gaps and any(z != z for z in beside):
        env.ensure("bilinear-or-missing", bool(got != got) or env.same(got, sum(w * z for w, z in near), scale=10))
    elif not gaps:
        env.eq("bilinear", got, sum(w * z for w, z in near), tol=1e-6, scale=10)
    elif max(gaps) > 1e-6 and abs(sum(w for w, z in near if z != z)) > 1e-6:
        env.ensure("missing", bool(got != got))
    elif max(gaps) < 1e-12:
        # at a cell centre or between two: the neighbours on one side may count
        env.ensure("bilinear-or-missing", bool(got != got) or env.same(got, sum(w * z for w, z in near if z == z), scale=10))


SMP = [RAS + "Raster.sample", RAS + "Raster._sample_1d", RAS + "Raster.Zf"]


@contract("R04", SMP, sym=False, samples=500, bounded="rasters up to 6 x 6 cells")
def sample_at_points(env):
    np = env.np
    r, Z, nx, ny, d, o = concrete_raster(env, nan=1)
    k = env.int("k", ge=1, le=5)
    xy = sample_points(env, k, nx, ny, d, o)
    keep = xy.copy()
    order = env.choice("order", [1, 1, 0])
    fill = env.choice("fill", [np.nan, None, -99.5])
    strict = env.choice("bounds_error", [False, False, True])
    uv = (xy - o) / d
    inside = ((uv >= 0) & (uv <= (nx, ny))).all(axis=1)
    if order == 0:
        env.assume(fill is not None and nx > 1 and ny > 1)
    exc, got = env.raises(lambda: r.sample(xy, order=order, bounds_error=strict, fill_value=fill), ValueError)
    env.ensure("error-iff-outside", (exc is not None) == (strict and not inside.all()))
    env.eq("frame.points", xy, keep)
    env.eq("frame.values", r.array, Z)
    if exc is not None:
        return
    env.ensure("shape", got.shape == (k,))
    for i in range(k):
        u, v = uv[i]
        if not inside[i] and fill is not None:
            env.eq("fill", got[i], fill)
        elif order == 1:
            interpolated(env, got[i], Z, u, v)
        else:
            near = [Z[a, b] for a in range(ny) for b in range(nx) if abs(a + 0.5 - v) <= 0.5 + 1e-9 and abs(b + 0.5 - u) <= 0.5 + 1e-9]
            env.ensure("nearest", any(env.same(got[i], z) for z in near))


def small_raster(env, most=3, nan=False):
    """A raster of few cells, with any limits and values."""
    nx = env.choice("nx", list(range(1, most + 1)))
    ny = env.choice("ny", list(range(1, most + 1)))
    r, Z, _, _, xl, yl = make_raster(env, shape=(ny, nx), nan=nan)
    # (settles the directions)
    bool(xl[0] < xl[1]), bool(yl[0] < yl[1])
    return r, env.np.copy(Z), nx, ny, xl, yl


def axis_weights(u, n):
    """Weights of the cell centres in linear interpolation along one axis (u in cells)."""
    out = [0] * n
    if n == 1:
        return [1]
    i = 0
    while i < n - 2 and not bool(u - 0.5 < i + 1):
        i += 1
    out[i], out[i + 1] = i + 1.5 - u, u - 0.5 - i
    return out


@contract("R04", SMP, budget=250, paths=4000, shards=8, samples=100, bounded="rasters of at most 3 x 3 cells (any limits and values), at most 2 points (1 beyond 2 x 2)")
def sampled_points(env):
    """Bilinear values at any points, for any limits, values and treatment of outside points."""
    np = env.np
    r, Z, nx, ny, xl, yl = small_raster(env)
    k = env.choice("k", [1, 2] if nx < 3 and ny < 3 or not env.symbolic else [1])
    # (every point is somewhere along the limits)
    t = env.array("t", (k, 2), scale=2)
    xy = np.column_stack([lim[0] + t[:, j] * (lim[1] - lim[0]) for j, lim in enumerate((xl, yl))])
    kxy = np.copy(xy)
    mode = env.choice("mode", ["strict", "extrapolate", "fill"])
    fill = {"strict": np.nan, "extrapolate": None, "fill": env.real("fill")}[mode]
    inside = [env.land(*[env.land(0 <= t[i, j], t[i, j] <= 1) for j in range(2)]) for i in range(k)]
    exc, got = env.raises(lambda: r.sample(xy, bounds_error=mode == "strict", fill_value=fill), ValueError)
    if mode == "strict":
        env.ensure("error-iff-outside", env.iff(exc is not None, env.lnot(env.land(*inside))))
    else:
        env.ensure("no-error", exc is None)
    for i in env.each(ny):
        for j in env.each(nx):
            env.eq("frame.values", r.array[i, j], Z[i, j])
    for i in range(k):
        for j in range(2):
            env.eq("frame.points", xy[i, j], kxy[i, j])
    if exc is not None:
        return
    env.ensure("length", len(got) == k)
    for i in range(k):
        if mode == "fill" and not bool(inside[i]):
            env.eq("fill", got[i], fill)
            continue
        wx, wy = axis_weights(t[i, 0] * nx, nx), axis_weights(t[i, 1] * ny, ny)
        want = sum(wy[a] * wx[b] * Z[a, b] for a in range(ny) for b in range(nx))
        env.eq("value", got[i], want, scale=100, tol=1e-6)


@contract("R04", SMP + [RAS + "Raster._sample_grid"], sym=False, samples=500, bounded="rasters up to 6 x 6 cells")
def sample_on_grid(env):
    np = env.np
    r, Z, nx, ny, d, o = concrete_raster(env, nan=1)
    m, n = env.int("m", ge=1, le=5), env.int("n", ge=1, le=5)
    out = env.choice("outside", [False, False, True])
    axes = []
    for j, (c, k) in enumerate(((m, nx), (n, ny))):
        u = sorted({env.choice(f"k{j}{i}", [env.int(f"c{j}{i}", ge=0, le=k - 1) + 0.5, env.real(f"u{j}{i}", ge=0, le=k)]) for i in range(c)})
        if out:
            u = [-0.75] + u + [k + 0.5]
        if env.choice(f"reverse{j}", [False, True]):
            u = u[::-1]
        axes.append(np.array(u))
    x, y = o[0] + d[0] * axes[0], o[1] + d[1] * axes[1]
    kx, ky = x.copy(), y.copy()
    fill = env.choice("fill", [np.nan, -99.5])
    strict = env.choice("bounds_error", [False, True])
    exc, got = env.raises(lambda: r.sample((x, y), grid=True, bounds_error=strict, fill_value=fill), ValueError)
    env.ensure("error-iff-outside", (exc is not None) == (strict and out))
    env.eq("frame.x", x, kx)
    env.eq("frame.y", y, ky)
    env.eq("frame.values", r.array, Z)
    if exc is not None:
        return
    env.ensure("shape", got.shape == (len(y), len(x)))
    for i, v in enumerate(axes[1]):
        for j, u in enumerate(axes[0]):
            if not (0 <= u <= nx and 0 <= v <= ny):
                env.eq("fill", got[i, j], fill)
                continue
            interpolated(env, got[i, j], Z, u, v)


@contract("R04", SMP + [RAS + "Raster._sample_grid"], budget=250, paths=4000, shards=8, samples=100, bounded="rasters of at most 3 x 3 cells (any limits and values), one or two coordinates per axis in either order")
def sampled_grid(env):
    """Bilinear values at any grid of coordinates, whatever the direction of its axes."""
    np = env.np
    r, Z, nx, ny, xl, yl = small_raster(env)
    small = nx < 3 and ny < 3 or not env.symbolic
    mode = env.choice("mode", ["strict", "fill"])
    m = env.choice("m", ([(1, 1), (2, 1), (1, 2)] + ([(2, 2)] if nx * ny < 4 or not env.symbolic else [])) if small else [(1, 1)])
    t = [env.array(f"t{j}", (m[j],), scale=2) for j in range(2)]
    if env.symbolic:
        for j in range(2):
            if m[j] == 2:
                env.assume(env.lor(t[j][0] < t[j][1], t[j][1] < t[j][0]))
    else:
        for j in range(2):
            env.assume(m[j] == 1 or abs(t[j][0] - t[j][1]) > 1e-3)
    xy = [lim[0] + t[j] * (lim[1] - lim[0]) for j, lim in enumerate((xl, yl))]
    keep = [np.copy(v) for v in xy]
    fill = env.real("fill") if mode == "fill" else np.nan
    exc, got = env.raises(lambda: r.sample(tuple(xy), grid=True, bounds_error=mode == "strict", fill_value=fill), ValueError)
    inside = [[env.land(0 <= t[j][i], t[j][i] <= 1) for i in range(m[j])] for j in range(2)]
    if mode == "strict":
        env.ensure("error-iff-outside", env.iff(exc is not None, env.lnot(env.land(*sum(inside, [])))))
    else:
        env.ensure("no-error", exc is None)
    for j in range(2):
        for i in range(m[j]):
            env.eq("frame.coordinates", xy[j][i], keep[j][i])
    for i in env.each(ny):
        for j in env.each(nx):
            env.eq("frame.values", r.array[i, j], Z[i, j])
    if exc is not None:
        return
    env.ensure("shape", got.shape == (m[1], m[0]))
    for j in range(m[1]):
        for i in range(m[0]):
            if mode == "fill" and not bool(env.land(inside[0][i], inside[1][j])):
                env.eq("fill", got[j, i], fill)
                continue
            wx, wy = axis_weights(t[0][i] * nx, nx), axis_weights(t[1][j] * ny, ny)
            want = sum(wy[a] * wx[b] * Z[a, b] for a in range(ny) for b in range(nx))
            env.eq("value", got[j, i], want, scale=100, tol=1e-6)


@contract("R04", SMP, budget=200, paths=4000, shards=4, samples=100, bounded="rasters of 2 or 3 cells a side (any limits and values), one point")
def sampled_nearest(env):
    """Order 0: the value of a nearest cell centre."""
    np = env.np
    nx, ny = env.choice("nx", [2, 3]), env.choice("ny", [2, 3])
    r, Z, _, _, xl, yl = make_raster(env, shape=(ny, nx))
    t = env.array("t", (1, 2), ge=0, le=1)
    xy = np.column_stack([lim[0] + t[:, j] * (lim[1] - lim[0]) for j, lim in enumerate((xl, yl))])
    got = r.sample(xy, order=0, bounds_error=False, fill_value=env.choice("fill", [-1.5, np.nan]))
    env.ensure("length", len(got) == 1)
    tol = 0 if env.symbolic else 1e-9
    near = lambda u, a: env.land(u <= a + 1 + tol, a <= u + tol)
    hit = [env.land(near(t[0, 0] * nx, b), near(t[0, 1] * ny, a), env.same(got[0], Z[a, b])) for a in range(ny) for b in range(nx)]
    # (rounding may put points next to a bound outside it)
    if env.symbolic or bool(env.land(*[env.land(t[0, j] > 1e-6, t[0, j] < 1 - 1e-6) for j in range(2)])):
        env.ensure("nearest", env.lor(*hit))


@contract("R04", SMP + [RAS + "Raster._sample_grid"], sym=False, samples=150, bounded="rasters of 6 to 9 cells per side")
def sample_higher_orders(env):
    """Splines of any order pass through the cell centres and reproduce linear surfaces."""
    np = env.np
    r, Z, nx, ny, d, o = concrete_raster(env, nx=env.int("nx", ge=6, le=9), ny=env.int("ny", ge=6, le=9))
    order = env.choice("order", [1, 2, 3, 4, 5])
    got = r.sample((r.x, r.y), grid=True, order=order)
    env.eq("centres", got, Z, tol=1e-5, scale=10)
    a, b, c = env.real("a", scale=2), env.real("b", scale=2), env.real("c")
    X, Y = np.meshgrid(r.x, r.y)
    r.array = a * X + b * Y + c
    u = np.sort([env.real(f"u{i}", ge=0, le=nx) for i in range(3)])
    v = np.sort([env.real(f"v{i}", ge=0, le=ny) for i in range(2)])
    env.assume(len(set(u)) == 3 and len(set(v)) == 2)
    x, y = o[0] + d[0] * u, o[1] + d[1] * v
    got = r.sample((x, y), grid=True, order=order)
    env.eq("linear", got, a * x + (b * y)[:, None] + c, tol=1e-5, scale=50)


@contract("R04", [RAS + "Raster.resample"], sym=False, samples=200, bounded="rasters up to 6 x 6 cells")
def resampling(env):
    np = env.np
    r, Z, nx, ny, d, o = concrete_raster(env, nx=env.int("nx", ge=2, le=6), ny=env.int("ny", ge=2, le=6))
    keep = r.copy()
    mx, my = env.int("mx", ge=1, le=5), env.int("my", ge=1, le=5)
    lim = []
    for j, k in ((0, nx), (1, ny)):
        u = [env.real(f"lo{j}", ge=0, le=k - 1), 0]
        u[1] = u[0] + env.real(f"w{j}", ge=0.25, le=k - u[0])
        if env.choice(f"rev{j}", [False, True]):
            u = u[::-1]
        lim.append([o[j] + d[j] * t for t in u])
    g = env.g.raster.Grid((mx, my), x=lim[0], y=lim[1])
    if env.choice("cached", [True, False]):
        r.x, r.X, r.y, r.Y, r.Zf
    r.resample(g)
    check_grid(env, r, mx, my, lim[0], lim[1])
    check_grid(env, g, mx, my, lim[0], lim[1], "frame.")
    for i in range(my):
        for j in range(mx):
            env.eq("value", r.array[i, j], bilinear(Z, (g.x[j] - o[0]) / d[0], (g.y[i] - o[1]) / d[1]), tol=1e-6, scale=10)
    env.eq("original", keep.array, Z)


# -- R05 histories -----------------------------------------------------------------


def same_raster(env, r, tag):
    """A raster behaves as one made afresh from its values and limits."""
    np = env.np
    f = env.g.raster.Raster(r.array.copy(), x=[float(v) for v in r.xlim], y=[float(v) for v in r.ylim])
    for a in ("size", "shape", "d", "min", "max", "box2d", "x", "y", "X", "Y"):
        env.eq(f"{tag}.{a}", np.asarray(getattr(r, a), dtype=float), np.asarray(getattr(f, a), dtype=float), tol=1e-9, scale=10)
    if not np.isnan(r.array).all():
        env.eq(f"{tag}.zlim", r.zlim, f.zlim)
        env.eq(f"{tag}.box3d", r.box3d, f.box3d)
    pts = np.column_stack([f.xlim[0] + np.array([0.1, 0.4, 0.5, 0.75]) * np.diff(f.xlim), f.ylim[0] + np.array([0.3, 0.2, 0.9, 0.5]) * np.diff(f.ylim)])
    env.eq(f"{tag}.sample", r.sample(pts), f.sample(pts), tol=1e-6, scale=10)
    env.eq(f"{tag}.indices", r.xy_to_rowcol(pts), f.xy_to_rowcol(pts), tol=1e-9, scale=10)
    env.ensure(f"{tag}.equal", r == f or bool(np.isnan(r.array).any()))


@contract(
    "R05",
    [RAS + "Raster." + m for m in ("array", "Zf", "shift", "resize", "crop", "resample", "fill_circle", "crop_to_data", "copy")] + [GRD + m for m in ("xlim", "ylim", "x", "X", "y", "Y", "_clear_cache")],
    sym=False, samples=500, bounded="sequences of up to 5 operations on rasters up to 7 x 7 cells",
)
def raster_histories(env):
    np = env.np
    r, Z, nx, ny, d, o = concrete_raster(env, nx=env.int("nx", ge=2, le=7), ny=env.int("ny", ge=2, le=7))
    others = []
    for step in range(env.int("steps", ge=1, le=5)):
        for a in ("x", "X", "y", "Y", "Zf"):
            if env.choice(f"{step}.{a}", [False, True]):
                getattr(r, a)
        op = env.choice(f"{step}.op", ["shift", "resize", "crop", "zcrop", "array", "shape", "xlim", "ylim", "circle", "resample", "data", "copy", "subset", "sample"])
        lx, ly = [float(v) for v in r.xlim], [float(v) for v in r.ylim]
        w, h = (int(v) for v in r.size)
        if op == "shift":
            r.shift(env.choice(f"{step}.dx", [None, 1, 0.5, -3]), env.choice(f"{step}.dy", [None, 2, -0.25]), env.choice(f"{step}.dz", [None, 1.5]))
        elif op == "resize":
            r.resize(env.choice(f"{step}.s", [0.5, 1, 2]))
        elif op == "crop":
            q = env.choice(f"{step}.q", [(0.1, 0.6), (0.5, 1), (0, 0.8), (0.3, 0.9)])
            r.crop(xlim=[lx[0] + t * (lx[1] - lx[0]) for t in q])
        elif op == "zcrop":
            r.crop(zlim=(-8, 8))
        elif op == "array":
            r.array = np.asarray(r.array) * 2 + 1
        elif op == "shape":
            r.array = env.array(f"{step}.Z", (env.int(f"{step}.h", ge=2, le=5), env.int(f"{step}.w", ge=2, le=5)))
        elif op == "xlim":
            r.xlim = env.choice(f"{step}.l", [(0, 10), (lx[1], lx[0]), (-5, 5.5)])
        elif op == "ylim":
            r.ylim = env.choice(f"{step}.l", [(0, 10), (ly[1], ly[0]), (-5, 5.5)])
        elif op == "circle":
            r.fill_circle((sum(lx) / 2, sum(ly) / 2), env.choice(f"{step}.r", [0, 1, 2.5]) * abs(float(r.d[0])), env.choice(f"{step}.v", [7, -3]))
        elif op == "resample":
            r.resample(env.g.raster.Grid((3, 4), x=lx, y=ly)) if min(w, h) > 1 and not np.isnan(r.array).any() else None
        elif op == "data":
            r.crop_to_data() if not np.isnan(r.array).all() else None
        elif op == "copy":
            others.append((r, np.array(r.array), lx, ly))
            r = r.copy()
        elif op == "subset":
            s = env.choice(f"{step}.s", [(slice(0, None, 1), slice(0, 1)), (slice(None, None, -1), slice(0, None)), (-1, slice(None))])
            others.append((r, np.array(r.array), lx, ly))
            r = r[s].copy()
        elif op == "sample":
            r.sample(np.array([[sum(lx) / 2, sum(ly) / 2]]), order=env.choice(f"{step}.o", [0, 1]) if min(w, h) > 1 else 1)
        env.assume(min(r.size) >= 1)
        same_raster(env, r, op)
    for q, A, lx, ly in others:
        env.eq("original.values", q.array, A)
        env.eq("original.xlim", q.xlim, lx)
        env.eq("original.ylim", q.ylim, ly)


@contract(
    "R05",
    [RAS + "Raster." + m for m in ("array", "Zf", "shift", "crop", "resample", "copy", "__getitem__", "sample")] + [GRD + m for m in ("xlim", "ylim", "x", "X", "y", "Y", "_clear_cache", "_shift_xy")],
    budget=200, paths=6000, shards=8, samples=200, bounded="two operations (any limits, shifts and values) on rasters of 2 x 2 and 2 x 3 cells",
)
def raster_changes(env):
    """Every pair of operations, read before and between them."""
    np = env.np
    shape = env.choice("shape", [(2, 2), (2, 3)])
    r, Z, nx, ny, xl, yl = make_raster(env, shape=shape)
    rise = [bool(xl[0] < xl[1]), bool(yl[0] < yl[1])]
    if env.symbolic:
        # (one of the directions: axes in all directions in the run-time checks)
        env.assume(env.land(rise[0], env.lnot(rise[1])))
    ops = ["shift", "shiftz", "array", "grow", "xlim", "ylim", "zcrop", "resample", "copy", "subset"]
    others = []
    for step in range(2):
        read = env.choice(f"read{step}", [False, True])
        if read:
            r.X, r.Y, r.Zf
        op = env.choice(f"op{step}", ops)
        if op == "shift":
            r.shift(env.real(f"dx{step}", scale=20), env.real(f"dy{step}", scale=20))
        elif op == "shiftz":
            r.shift(dz=env.real(f"dz{step}"))
        elif op == "array":
            r.array = env.array(f"Z{step}", r.array.shape)
        elif op == "grow":
            r.array = env.array(f"Z{step}", (3, 2))
        elif op == "xlim":
            a, w = env.real(f"a{step}", scale=20), env.real(f"w{step}", scale=20)
            env.assume(w > 0.1)
            r.xlim = (a, a + w) if env.choice(f"way{step}", [True, False]) else (a + w, a)
        elif op == "ylim":
            a, w = env.real(f"a{step}", scale=20), env.real(f"w{step}", scale=20)
            env.assume(w > 0.1)
            r.ylim = (a, a + w)
        elif op == "zcrop":
            r.crop(zlim=(env.real(f"lo{step}"), 100))
        elif op == "resample":
            if step == 0:
                lx, ly = list(r.xlim), list(r.ylim)
                r.resample(env.g.raster.Grid((2, 2), x=lx[::-1], y=ly))
        elif op == "copy":
            others.append((r, np.copy(r.array), list(r.xlim), list(r.ylim)))
            r = r.copy()
        elif op == "subset":
            others.append((r, np.copy(r.array), list(r.xlim), list(r.ylim)))
            r = r[env.choice(f"part{step}", [(slice(None), slice(None)), (slice(None, None, -1), slice(0, 2))])].copy()
    A, lx, ly = np.copy(r.array), list(r.xlim), list(r.ylim)
    f = env.g.raster.Raster(np.copy(A), x=np.array(lx), y=np.array(ly))
    env.ensure("shape", tuple(r.shape) == tuple(f.shape))
    for name in "xyXY":
        a, b = getattr(r, name), getattr(f, name)
        env.ensure(f"{name}.shape", a.shape == b.shape)
        for i in np.ndindex(*b.shape) if not env.symbolic else [(i,) for i in range(b.shape[0])] if b.ndim == 1 else [(i, j) for i in range(b.shape[0]) for j in range(b.shape[1])]:
            env.eq(name, a[i], b[i], tol=1e-9, scale=20)
    t = env.array("t", (1, 2), ge=0, le=1)
    if env.symbolic:
        # (within the first cells)
        env.assume(env.land(t[0, 0] < 0.25, t[0, 1] < 0.25))
    xy = np.array([[lx[0] + t[0, 0] * (lx[1] - lx[0]), ly[0] + t[0, 1] * (ly[1] - ly[0])]])
    env.eq("sample", r.sample(xy, bounds_error=False, fill_value=None)[0], f.sample(xy, bounds_error=False, fill_value=None)[0], tol=1e-6, scale=20)
    for q, B, bx, by in others:
        for i in range(B.shape[0]):
            for j in range(B.shape[1]):
                env.eq("original.value", q.array[i, j], B[i, j])
        for k in range(2):
            env.eq("original.xlim", q.xlim[k], bx[k])
            env.eq("original.ylim", q.ylim[k], by[k])


# -- R06 rasterization and visibility ------------------------------------------------


@contract("R06", [RAS + "Raster.rasterize"], sym=False, samples=300, bounded="rasters up to 6 x 6 cells, up to 8 points")
def rasterize(env):
    np = env.np
    r, Z, nx, ny, d, o = concrete_raster(env)
    k = env.int("k", ge=0, le=8)
    xy = sample_points(env, k, nx, ny, d, o)
    values = env.array("values", (k,))
    kx, kv = xy.copy(), values.copy()
    got = r.rasterize(xy, values)
    env.eq("frame.points", xy, kx)
    env.eq("frame.values", values, kv)
    env.eq("frame.raster", r.array, Z)
    uv = (xy - o) / d
    cells = {}
    for (u, v), z in zip(uv, values):
        if 0 <= u <= nx and 0 <= v <= ny:
            cells.setdefault((min(int(v), ny - 1), min(int(u), nx - 1)), []).append(z)
    env.ensure("shape", got.shape == (ny, nx))
    for i in np.ndindex(ny, nx):
        if i in cells:
            env.eq("mean", got[i], np.mean(cells[i]))
        else:
            env.ensure("empty", bool(np.isnan(got[i])))


@contract("R06", [RAS + "Raster.rasterize", GRD + "inbounds_xy", GRD + "xy_to_rowcol", "glimpse/helpers.py:rasterize_points"], budget=200, paths=2000, shards=8, samples=100, bounded="at most 2 points (any positions and values, rasters of any size and direction)")
def rasterize_cells(env):
    """An arbitrary cell of a raster of any size against the points in it."""
    np = env.np
    r, Z, nx, ny, xl, yl = make_raster(env)
    n = env.choice("n", [1, 2])
    xy = env.array("xy", (n, 2), scale=20, nan=True)
    vals = env.array("v", (n,))
    keep, bxy, bv = np.copy(Z), np.copy(xy), np.copy(vals)
    a = r.rasterize(xy, vals)
    env.ensure("shape", env.land(a.shape[0] == ny, a.shape[1] == nx))

    def inside(x, lim, m, j):
        t = (x - lim[0]) / (lim[1] - lim[0]) * m
        return env.land(j <= t, env.lor(t < j + 1, env.land(t == m, j == m - 1)))

    if not env.symbolic:
        # (points on edges between cells are met symbolically)
        for q in range(n):
            for x, lim, m in ((bxy[q, 0], xl, nx), (bxy[q, 1], yl, ny)):
                t = (x - lim[0]) / (lim[1] - lim[0]) * m
                env.assume(np.isnan(t) or abs(t - round(t)) > 1e-9)
    for i in env.each(ny):
        for j in env.each(nx):
            here = [env.land(inside(bxy[q, 0], xl, nx, j), inside(bxy[q, 1], yl, ny, i)) for q in range(n)]
            count = sum(env.ite(p, 1, 0) for p in here)
            total = sum(env.ite(p, bv[q], 0) for q, p in enumerate(here))
            env.ensure("empty", env.iff(count == 0, np.isnan(a[i, j])))
            env.eq("mean", env.ite(count > 0, a[i, j] * count, 0), total)
            env.eq("frame.raster", r.array[i, j], keep[i, j])
    for q in range(n):
        env.eq("frame.values", vals[q], bv[q])
        for b in range(2):
            env.ensure("frame.points", env.lor(xy[q, b] == bxy[q, b], np.isnan(xy[q, b]) & np.isnan(bxy[q, b])))


def in_polygon(p, poly):
    """Even-odd rule; None near an edge."""
    x, y = p
    odd = False
    for (x0, y0), (x1, y1) in zip(poly, poly[1:] + poly[:1]):
        L = math.hypot(x1 - x0, y1 - y0)
        if L:
            t = min(max(((x - x0) * (x1 - x0) + (y - y0) * (y1 - y0)) / L**2, 0), 1)
            if math.hypot(x0 + t * (x1 - x0) - x, y0 + t * (y1 - y0) - y) < 1e-6:
                return None
        if (y0 > y) != (y1 > y) and x < x0 + (y - y0) * (x1 - x0) / (y1 - y0):
            odd = not odd
    return odd


@contract("R06", [RAS + "Raster.rasterize_polygons"], sym=False, samples=200, bounded="rasters up to 9 x 9 cells, triangles and boxes")
def rasterize_polygons(env):
    np = env.np
    r, Z, nx, ny, d, o = concrete_raster(env, nx=env.int("nx", ge=1, le=9), ny=env.int("ny", ge=1, le=9))

    def polygon(name):
        q = env.choice(name + "kind", [3, 4])
        pts = [(env.real(f"{name}x{i}", ge=-1, le=nx + 1), env.real(f"{name}y{i}", ge=-1, le=ny + 1)) for i in range(q if q == 3 else 2)]
        if q == 4:
            (a, b), (c, e) = pts
            pts = [(a, b), (c, b), (c, e), (a, e)]
        return pts

    polys = [polygon(f"p{i}") for i in range(env.int("n", ge=1, le=2))]
    holes = [polygon("h")] if env.choice("hole", [False, True]) else None
    world = lambda ps: None if ps is None else [np.array([(o[0] + d[0] * u, o[1] + d[1] * v) for u, v in p]) for p in ps]
    before = Z.copy()
    got = r.rasterize_polygons(world(polys), holes=world(holes))
    env.eq("frame", r.array, before)
    env.ensure("shape", got.shape == (ny, nx))
    for i, j in np.ndindex(ny, nx):
        c = (j + 0.5, i + 0.5)
        ins = [in_polygon(c, p) for p in polys]
        out = [in_polygon(c, p) for p in holes or []]
        if None in ins + out:
            continue
        env.ensure("inside", bool(got[i, j]) == (any(ins) and not any(out)))


@contract("R06", [RAS + "Raster.fill_circle"], sym=False, samples=200, bounded="rasters up to 12 x 12 cells")
def fill_circle(env):
    np = env.np
    nx, ny = env.int("nx", ge=1, le=12), env.int("ny", ge=1, le=12)
    s = env.choice("s", [1, 0.5, 2])
    sx, sy = env.choice("sx", [1, -1]), env.choice("sy", [1, -1])
    Z = env.array("Z", (ny, nx))
    r = env.g.raster.Raster(Z.copy(), x=(0, nx * s * sx), y=(0, ny * s * sy))
    c = [env.int("c", ge=-3, le=nx + 3), env.int("rw", ge=-3, le=ny + 3)]
    radius = env.int("radius", ge=0, le=7)
    center = [(c[0] + 0.5) * s * sx, (c[1] + 0.5) * s * sy] + env.choice("z", [[], [5.0]])
    value = env.choice("value", [np.nan, 99.0])
    kw = {} if np.isnan(value) else {"value": value}
    r.fill_circle(tuple(center), radius * s, **kw)
    for i, j in np.ndindex(ny, nx):
        dist = math.hypot(i - c[1], j - c[0])
        if dist <= radius - 0.5:
            env.eq("filled", r.array[i, j], value)
        elif dist > radius + 0.75:
            env.eq("kept", r.array[i, j], Z[i, j])
        else:
            env.ensure("either", env.same(r.array[i, j], value) or r.array[i, j] == Z[i, j])


def terrain(env):
    """A raster with square cells and a viewing position at a cell centre or corner."""
    np = env.np
    nx, ny = env.int("nx", ge=2, le=11), env.int("ny", ge=2, le=11)
    s = env.choice("s", [1, 0.5, 100])
    sx, sy = env.choice("sx", [1, -1]), env.choice("sy", [1, -1])
    o = (env.int("ox", ge=-9, le=9), env.int("oy", ge=-9, le=9))
    Z = env.array("Z", (ny, nx), scale=2) * s
    r = env.g.raster.Raster(Z.copy(), x=(o[0], o[0] + nx * s * sx), y=(o[1], o[1] + ny * s * sy))
    ci, cj = env.int("ci", ge=0, le=ny - 1), env.int("cj", ge=0, le=nx - 1)
    return r, Z, nx, ny, s, ci, cj


def sight(env, r, Z, s, oz, corr):
    """Elevation of a cell above the viewing position, with the documented correction."""

    def ratio(i, j, x, y):
        d2 = (r.x[j] - x) ** 2 + (r.y[i] - y) ** 2
        dz = Z[i, j] - oz
        if corr:
            dz -= (1 - corr["refraction"]) * d2 / (2 * corr["radius"])
        return dz / math.sqrt(d2)

    return ratio


@contract("R06", [RAS + "Raster.viewshed"], sym=False, samples=250, bounded="rasters up to 11 x 11 cells")
def viewshed(env):
    np = env.np
    r, Z, nx, ny, s, ci, cj = terrain(env)
    gaps = env.choice("gaps", [0, 0, 1])
    for k in range(gaps):
        Z[env.int(f"gr{k}", ge=0, le=ny - 1), env.int(f"gc{k}", ge=0, le=nx - 1)] = np.nan
        r.array = Z.copy()
    corr = env.choice("correction", [None, False, {"radius": 40.0 * s, "refraction": 0.25}])
    kw = {} if corr is None else {"correction": corr}
    x, y = r.x[cj], r.y[ci]
    oz = env.real("oz", ge=-1, le=4) * s
    keep = Z.copy()
    vis = r.viewshed((x, y, oz), **kw)
    env.ensure("shape", vis.shape == (ny, nx) and vis.dtype == bool)
    env.eq("frame", r.array, keep)
    env.ensure("missing-hidden", not vis[np.isnan(Z)].any())
    ratio = sight(env, r, Z, s, oz, corr)
    # along the axes sightlines pass through cell centres only
    if not gaps:
        for di, dj in ((0, 1), (0, -1), (1, 0), (-1, 0)):
            i, j, top = ci + di, cj + dj, -math.inf
            while 0 <= i < ny and 0 <= j < nx:
                e = ratio(i, j, x, y)
                if abs(e - top) > 1e-9:
                    env.ensure("sightline", bool(vis[i, j]) == (e > top))
                top = max(e, top)
                i, j = i + di, j + dj
        # nearest cells are always visible
        for i, j in np.ndindex(ny, nx):
            if 0 < math.hypot(i - ci, j - cj) < 1.5:
                env.ensure("adjacent", bool(vis[i, j]))
    # the same terrain turned, mirrored, scaled or raised
    how = env.choice("how", ["transpose", "flipx", "flipy", "raise", "scale", "stored"])
    R = env.g.raster.Raster
    q = 2.0
    other = {
        "transpose": lambda: (R(Z.T.copy(), x=r.ylim, y=r.xlim), (y, x, oz), lambda v: v.T),
        "flipx": lambda: (R(Z.copy(), x=-r.xlim, y=r.ylim), (-x, y, oz), lambda v: v),
        "flipy": lambda: (R(Z.copy(), x=r.xlim, y=-r.ylim), (x, -y, oz), lambda v: v),
        "raise": lambda: (R(Z + q, x=r.xlim, y=r.ylim), (x, y, oz + q), lambda v: v),
        "scale": lambda: (R(Z * q, x=r.xlim * q, y=r.ylim * q), (x * q, y * q, oz * q), lambda v: v),
        "stored": lambda: (R(Z[::-1].copy(), x=r.xlim, y=r.ylim[::-1]), (x, y, oz), lambda v: v[::-1]),
    }[how]
    if how == "scale" and corr:
        kw = {"correction": {"radius": corr["radius"] * q, "refraction": corr["refraction"]}}
    r2, o2, back = other()
    env.ensure("invariant." + how, (back(r2.viewshed(o2, **kw)) == vis).mean() >= 1 - (1.0 if gaps else 2.0) / vis.size)


@contract("R06", [RAS + "Raster.viewshed"], sym=False, samples=100, bounded="rasters up to 15 x 15 cells")
def viewshed_plain(env):
    """Flat ground is seen from above up to the curvature limit; walls hide lower ground."""
    np = env.np
    nx, ny = env.int("nx", ge=3, le=15), env.int("ny", ge=3, le=15)
    s = env.choice("s", [1, 30])
    z = env.real("z")
    r = env.g.raster.Raster(np.full((ny, nx), z), x=(0, nx * s), y=(ny * s, 0))
    x, y = env.real("x", ge=0, le=nx) * s, env.real("y", ge=0, le=ny) * s
    h = env.real("h", ge=0.25, le=3) * s
    kind = env.choice("kind", ["flat", "curved", "wall"])
    D = np.hypot(*np.meshgrid(r.x - x, r.y - y))
    far = D > 1.01 * s
    if kind == "flat":
        env.ensure("all-visible", bool(r.viewshed((x, y, z + h))[far].all()))
    elif kind == "curved":
        radius, k = env.choice("radius", [2.0, 10.0, 60.0]) * s, 0.25
        limit = math.sqrt(2 * radius * h / (1 - k))
        vis = r.viewshed((x, y, z + h), correction={"radius": radius, "refraction": k})
        env.ensure("near-visible", bool(vis[far & (D < limit - 2 * s)].all()))
        env.ensure("far-hidden", not vis[D > limit + 2 * s].any())
    else:
        ring = env.int("ring", ge=2, le=5)
        wall = (D > (ring - 0.9) * s) & (D < (ring + 0.9) * s)
        A = np.where(wall, z + 4 * h, z)
        r.array = A
        vis = r.viewshed((x, y, z + h))
        env.ensure("hidden-behind-wall", not vis[D > (ring + 1.5) * s].any())
        env.ensure("visible-before-wall", bool(vis[far & (D < (ring - 1.5) * s)].all()))


@contract("R06", [RAS + "Raster.horizon"], sym=False, samples=300, bounded="rasters up to 11 x 11 cells, sightlines along the axes and diagonals")
def horizon(env):
    np = env.np
    r, Z, nx, ny, s, ci, cj = terrain(env)
    for k in range(env.choice("gaps", [0, 0, 1, 3])):
        Z[env.int(f"gr{k}", ge=0, le=ny - 1), env.int(f"gc{k}", ge=0, le=nx - 1)] = np.nan
    r.array = Z.copy()
    corr = env.choice("correction", [None, False, {"radius": 40.0 * s, "refraction": 0.25}])
    kw = {} if corr is None else {"correction": corr}
    oz = env.real("oz", ge=-1, le=4) * s
    dx, dy = r.d
    away = env.choice("away", [0, 0, 0, 1, 3])
    side = env.choice("side", [0, 1, 2, 3])
    if away:
        # outside, in line with a row or column
        cj = {0: -away, 1: nx - 1 + away}.get(side, cj)
        ci = {2: -away, 3: ny - 1 + away}.get(side, ci)
    x, y = r.xlim[0] + (cj + 0.5) * dx, r.ylim[0] + (ci + 0.5) * dy
    heads = [h for h in (0, 90, 180, 270)]
    start = env.choice("start", [0, 1, 2, 3])
    heads = heads[start:] + heads[:start]
    step = {0: (0, 1), 90: (1, 0), 180: (0, -1), 270: (-1, 0)}  # dx, dy signs
    want = []
    for h in heads:
        di, dj = (int(step[h][1] * np.sign(dy)), int(step[h][0] * np.sign(dx)))
        cells = []
        for t in range(1, 60):
            i, j = ci + t * di, cj + t * dj
            if 0 <= i < ny and 0 <= j < nx and not np.isnan(Z[i, j]):
                cells.append((i, j))
        ratio = sight(env, r, Z, s, oz, corr)
        e = [ratio(i, j, x, y) for i, j in cells]
        if len(set(np.round(np.array(e) / 1e-9))) < len(e):
            env.assume(False)
        m = int(np.argmax(e)) if e else 0
        want.append((r.x[cells[m][1]], r.y[cells[m][0]], Z[cells[m]]) if m < len(e) - 1 else None)
    got = r.horizon((x, y, oz), headings=heads, **kw)
    env.eq("frame", r.array, Z)
    runs = [[]]
    for p in want:
        if p is None:
            runs.append([])
        else:
            runs[-1].append(p)
    if None in want and len(runs) > 1:
        runs[0] = runs.pop() + runs[0]
    runs = [q for q in runs if q]
    env.ensure("segments", len(got) == len(runs))
    key = lambda a: tuple(np.round(np.asarray(a, dtype=float).ravel(), 6))
    env.ensure("points", sorted(map(key, got)) == sorted(map(key, runs)))
    # any heading: points are cells in that direction
    hs = [env.real(f"h{i}", ge=0, le=360) for i in range(3)]
    for seg in r.horizon((x, y, oz), headings=hs, **kw):
        for p in seg:
            i, j = int(np.argmin(abs(r.y - p[1]))), int(np.argmin(abs(r.x - p[0])))
            env.eq("cell", p, [r.x[j], r.y[i], Z[i, j]])
            off = min(
                abs(math.cos(math.radians(h)) * (p[0] - x) - math.sin(math.radians(h)) * (p[1] - y))
                for h in hs if math.sin(math.radians(h)) * (p[0] - x) + math.cos(math.radians(h)) * (p[1] - y) > 0
            )
            env.ensure("direction", off <= 1.01 * s)


# -- R07 raster time series ----------------------------------------------------------


@contract("R07", [RAS + "RasterInterpolant._interpolate"], budget=150, shards=4)
def interpolated_values(env):
    np = env.np
    ny, nx = env.size("ny"), env.size("nx")
    xl, yl = limits(env, "xl"), limits(env, "yl")
    Z = [env.array(f"Z{i}", (ny, nx), nan=True) for i in range(2)]
    S = [env.array(f"S{i}", (ny, nx), ge=0) for i in range(2)]
    R = env.g.raster.Raster
    means = [R(z, x=xl, y=yl) for z in Z]
    sigmas = [R(z, x=xl, y=yl) for z in S]
    t = [env.real("t0"), env.real("t1")]
    env.assume(t[0] < t[1])
    if not env.symbolic:
        env.assume(t[1] - t[0] > 0.01)
    same = env.choice("single", [False, True])
    if same:
        t, Z, S, means, sigmas = [t[0]] * 2, [Z[0]] * 2, [S[0]] * 2, [means[0]] * 2, [sigmas[0]] * 2
    ti = t[0] if same else env.real("ti")
    ip = env.g.raster.RasterInterpolant(means, sigmas=sigmas, x=t)
    with_sigma = env.choice("sigma", [False, True])
    out = ip._interpolate(means=means, x=t, xi=ti, sigmas=sigmas if with_sigma else None)
    z = out[0] if with_sigma else out
    check_grid(env, z, nx, ny, xl, yl, light=True)
    dt = t[1] - t[0]
    near = env.ite(abs(ti - t[0]) < abs(ti - t[1]), abs(ti - t[0]), abs(ti - t[1]))
    for i in env.each(ny):
        for j in env.each(nx):
            a, b = Z[0][i, j], Z[1][i, j]
            if same:
                env.ensure("exact", env.same(z.array[i, j], a))
            else:
                env.ensure("missing", env.iff(env.isnan(z.array[i, j]), env.lor(env.isnan(a), env.isnan(b))))
                ok = env.lnot(env.lor(env.isnan(a), env.isnan(b)))
                if bool(ok):
                    env.eq("linear", z.array[i, j] * dt, a * (t[1] - ti) + b * (ti - t[0]), scale=100)
            env.ensure("frame", env.same(means[0].array[i, j], Z[0][i, j]))
            if with_sigma and not same:
                if bool(env.lnot(env.lor(env.isnan(a), env.isnan(b)))):
                    f = (ti - t[0]) / dt
                    var = S[0][i, j] ** 2 + f**2 * (S[0][i, j] ** 2 + S[1][i, j] ** 2) + ((b - a) * near / dt / 3) ** 2
                    s = out[1].array[i, j]
                    env.eq("variance", s * s, var, scale=100)
                    env.ensure("sigma-not-negative", s >= 0)
            elif with_sigma:
                if bool(env.lnot(env.isnan(a))):
                    env.eq("own-sigma", out[1].array[i, j], S[0][i, j])


@contract("R07", [RAS + "RasterInterpolant.nearest"], budget=90, bounded="up to 4 rasters (all coordinates)")
def bracketing_rasters(env):
    np = env.np
    n = env.choice("n", [2, 3, 4])
    # (dates: run-time checks)
    kind = env.choice("kind", ["number"] if env.symbolic else ["number", "date"])
    if kind == "number":
        x = [env.real(f"x{i}") for i in range(n)]
        xi = env.real("xi")
        if not env.symbolic and env.choice("own", [False, True]):
            xi = x[0]
    else:
        x = [env.date(f"x{i}") for i in range(n)]
        xi = x[1] if env.choice("own", [False, True]) else env.date("xi")
    for i in range(n):
        for j in range(i):
            env.assume(env.lnot(x[i] == x[j]))
    ip = env.g.raster.RasterInterpolant([0] * n, x=x)
    extra = env.choice("extrapolate", [False, True])
    some_before = env.lor(*[v <= xi for v in x])
    some_after = env.lor(*[v >= xi for v in x])
    exc, ij = env.raises(lambda: ip.nearest(xi, extrapolate=extra), ValueError)
    env.ensure("rejected-iff-unbounded", env.iff(exc is not None, env.land(not extra, env.lnot(env.land(some_before, some_after)))))
    if exc is not None:
        return
    i, j = (int(k) for k in ij) if not env.symbolic else ij
    def at(k):
        if not env.symbolic:
            return x[k]
        out = x[-1]
        for m in range(n - 1):
            out = env.ite(k == m, x[m], out)
        return out
    a, b = at(i), at(j)
    if not extra:
        env.ensure("before", a <= xi)
        env.ensure("after", b >= xi)
        for v in x:
            env.ensure("closest-before", env.implies(v <= xi, v <= a))
            env.ensure("closest-after", env.implies(v >= xi, v >= b))
    else:
        env.ensure("ordered", a < b)
        for k, v in enumerate(x):
            other = env.land(env.lnot(i == k), env.lnot(j == k))
            env.ensure("two-nearest", env.implies(other, env.land(abs(v - xi) >= abs(a - xi), abs(v - xi) >= abs(b - xi))))


@contract("R07", [RAS + "RasterInterpolant." + m for m in ("__call__", "_parse_as_raster", "_read_mean", "_read_sigma", "_read_mean_grid")], sym=False, samples=300, bounded="two to four rasters up to 6 x 6 cells on aligned grids")
def interpolant_calls(env):
    np = env.np
    n = env.int("n", ge=2, le=4)
    dates = env.choice("dates", [False, True])
    t = [float(k) for k in np.cumsum([env.choice(f"t{i}", [1, 2, 5]) for i in range(n)])]
    order = list(range(n))
    if env.choice("shuffled", [False, True]):
        order = order[::-1]
    import datetime

    when = lambda v: datetime.datetime(2020, 1, 1) + datetime.timedelta(hours=v) if dates else v
    nx, ny = env.int("nx", ge=2, le=6), env.int("ny", ge=2, le=6)
    sx, sy = env.choice("sx", [1, -1]), env.choice("sy", [1, -1])
    R = env.g.raster.Raster
    scalar = env.choice("sigmas", ["rasters", "numbers", "none"])
    means, sig, off = [], [], []
    for i in range(n):
        # extents differ by whole cells
        a, b = env.choice(f"a{i}", [0, 0, 1]), env.choice(f"b{i}", [0, 0, 2])
        off.append((a, b))
        xl, yl = (a * sx, (a + nx + 1) * sx), (b * sy, (b + ny + 2) * sy)
        Z = env.array(f"Z{i}", (ny + 2, nx + 1))
        means.append(R(Z, x=xl, y=yl, datetime=when(t[i]) if dates else None))
        sig.append(R(np.abs(Z) / 4, x=xl, y=yl) if scalar == "rasters" else env.real(f"s{i}", ge=0, le=2))
    means, sig, tt = [means[k] for k in order], [sig[k] for k in order], [t[k] for k in order]
    kept = [(m.array.copy(), m.xlim.copy(), m.ylim.copy()) for m in means]
    kw = {"x": [when(v) for v in tt]} if not dates or env.choice("given", [True, False]) else {}
    ip = env.g.raster.RasterInterpolant(means, sigmas=None if scalar == "none" else sig, **kw)
    q = env.choice("q", [0.0, 0.25, 0.5, 1.0, 1.25, -0.5])
    k = env.int("k", ge=0, le=n - 2)
    ti = t[k] + q * (t[k + 1] - t[k])
    extra = env.choice("extrapolate", [False, True])
    lims = {}
    if env.choice("xlim", [False, True]):
        lims["xlim"] = (2 * sx, (nx) * sx)
        env.assume(nx > 2)
    zl = env.choice("zlim", [None, (-6, 6)])
    if zl:
        lims["zlim"] = zl
    calls = []
    if env.choice("fun", [False, True]):
        def add(raster, dz=0):
            calls.append(raster)
            raster.array = raster.array + dz
        lims["fun"], lims["dz"] = add, 3.0
    dz = 3.0 if calls is not None and "fun" in lims else 0.0
    with_sigma = env.choice("return_sigma", [False, True])
    inside = min(t) <= ti <= max(t)
    exc, out = env.raises(lambda: ip(when(ti), return_sigma=with_sigma, extrapolate=extra, **lims), ValueError)
    env.ensure("rejected-iff-unbounded", (exc is not None) == (not inside and not extra))
    for m, (A, xl, yl) in zip(means, kept):
        env.eq("frame.values", m.array, A)
        env.eq("frame.xlim", m.xlim, xl)
        env.eq("frame.ylim", m.ylim, yl)
    if exc is not None:
        return
    z = out[0] if with_sigma else out
    d = np.abs(np.array(tt) - ti)
    if extra:
        pair = sorted(np.argsort(d, kind="stable")[:2], key=lambda m: tt[m])
        third = np.sort(d)[1:3]
        env.assume(n == 2 or abs(third[0] - third[1]) > 1e-9)
    else:
        lo = max((v, m) for m, v in enumerate(tt) if v <= ti)[1]
        hi = min((v, m) for m, v in enumerate(tt) if v >= ti)[1]
        pair = [lo, hi]
    A, B = (means[m] for m in pair)
    x0, x1 = max(A.min[0], B.min[0]), min(A.max[0], B.max[0])
    y0, y1 = max(A.min[1], B.min[1]), min(A.max[1], B.max[1])
    if "xlim" in lims:
        x0, x1 = max(x0, min(lims["xlim"])), min(x1, max(lims["xlim"]))
    env.eq("extent", z.box2d, [x0, y0, x1, y1])
    env.ensure("cells", z.size[0] == round(x1 - x0) and z.size[1] == round(y1 - y0))
    env.ensure("date", z.datetime == (when(ti) if dates else None))
    f = 0.0 if pair[0] == pair[1] else (ti - tt[pair[0]]) / (tt[pair[1]] - tt[pair[0]])
    for i, yv in enumerate(z.y):
        for j, xv in enumerate(z.x):
            va, vb = (m.array[int(np.argmin(abs(m.y - yv))), int(np.argmin(abs(m.x - xv)))] for m in (A, B))
            if zl:
                va, vb = (v if zl[0] <= v <= zl[1] else np.nan for v in (va, vb))
            va, vb = va + dz, vb + dz
            env.eq("linear", z.array[i, j], va + f * (vb - va), scale=10)
            if with_sigma and scalar == "rasters":
                sa, sb = (sig[m].array[int(np.argmin(abs(means[m].y - yv))), int(np.argmin(abs(means[m].x - xv)))] for m in pair)
            elif with_sigma:
                sa, sb = (0.0, 0.0) if scalar == "none" else (sig[pair[0]], sig[pair[1]])
            if with_sigma:
                g = min(abs(f), abs(1 - f))
                env.eq("sigma", np.broadcast_to(out[1].array, z.array.shape)[i, j], math.sqrt(sa**2 + f**2 * (sa**2 + sb**2) + ((vb - va) * g / 3) ** 2) if vb == vb and va == va else np.nan, scale=10)


@contract("R07", [RAS + "RasterInterpolant." + m for m in ("__init__", "__call__", "nearest", "_interpolate", "_parse_as_raster", "_read_mean", "_read_sigma", "_read_mean_grid")], budget=250, paths=6000, shards=8, samples=150, bounded="two or three rasters of 2 x 2 or 2 x 3 cells, equal or one cell apart (any values, coordinates and limits of values)")
def interpolant_results(env):
    """Interpolation of whole rasters, for any values, coordinates and standard deviations."""
    np, R = env.np, env.g.raster.Raster
    n = env.choice("n", [2, 3])
    xs = [env.real(f"x{i}", scale=5) for i in range(n)]
    for i in range(n):
        for j in range(i):
            if env.symbolic:
                env.assume(env.lor(xs[i] < xs[j], xs[j] < xs[i]))
            else:
                env.assume(abs(xs[i] - xs[j]) > 1e-3)
    # (cells of the second raster lie one further along)
    off = env.choice("apart", [0, 1]) if n == 2 else 0
    origin = [0, off] + [0] * n
    w = 3 if off else 2
    Z = [env.array(f"Z{i}", (2, w)) for i in range(n)]
    S = [env.array(f"S{i}", (2, w), ge=0) for i in range(n)]
    kind = env.choice("sigmas", ["none", "rasters", "numbers", "unasked"] if n == 2 else ["unasked"])
    lim = [((o, o + w), (2, 0)) for o in origin]
    means = [R(np.copy(Z[i]), x=lim[i][0], y=lim[i][1]) for i in range(n)]
    sigmas = None if kind == "none" else [1.5 + i for i in range(n)] if kind == "numbers" else [R(np.copy(S[i]), x=lim[i][0], y=lim[i][1]) for i in range(n)]
    ip = env.g.raster.RasterInterpolant(means, sigmas=sigmas, x=xs)
    own = env.choice("at", [None, 0, n - 1])
    xi = env.real("xi", scale=8) if own is None else xs[own]
    extra = env.choice("extrapolate", [False, True])
    if own is None:
        for x in xs:
            env.assume(env.lor(xi < x, x < xi))
    kw = {}
    change = env.choice("change", ["", "zlim", "fun"] if kind == "unasked" else [""])
    if change == "zlim":
        kw["zlim"] = (env.real("low", lt=1000, scale=5), 1000)
    if change == "fun":
        def fun(raster, up):
            raster.array = raster.array + up

        kw["fun"], kw["up"] = fun, env.real("up")
    exc, out = env.raises(lambda: ip(xi, return_sigma=kind != "unasked", extrapolate=extra, **kw), ValueError)
    below, above = [env.lor(*[x <= xi for x in xs]), env.lor(*[xi <= x for x in xs])]
    env.ensure("rejected-iff-unbounded", env.iff(exc is not None, env.lnot(env.lor(extra, env.land(below, above)))))
    for i in range(n):
        for a in range(2):
            for b in range(w):
                env.eq("frame.values", means[i].array[a, b], Z[i][a, b])
        env.ensure("frame.limits", [float(v) for v in (*means[i].xlim, *means[i].ylim)] == [float(v) for v in (*lim[i][0], *lim[i][1])])
    if exc is not None:
        return
    z, sig = (out, None) if kind == "unasked" else out
    # the rasters between which it lies (either way where several apply)
    order = []
    for i in range(n):
        k = 0
        while k < len(order) and bool(xs[order[k]] < xs[i]):
            k += 1
        order.insert(k, i)
    k = 0
    while k < n - 2 and not bool(xi < xs[order[k + 1]]):
        k += 1
    i, j = order[k], order[k + 1]
    if n == 3 and extra:
        # (the two nearest)
        far = lambda x: env.ite(x < xi, xi - x, x - xi)
        d = [far(x) for x in xs]
        worst = next(a for a in range(3) if all(a == b or bool(d[b] <= d[a]) for b in range(3)))
        env.assume(env.land(*[env.lor(a == worst, d[a] < d[worst]) for a in range(3)]) if env.symbolic else sorted(d)[2] - sorted(d)[1] > 1e-3)
        i, j = [a for a in order if a != worst]
    if own is not None and not extra:
        i = j = own
    start, end = max(origin[i], origin[j]), w + min(origin[i], origin[j])
    env.ensure("shape", tuple(z.shape) == (2, end - start))
    env.ensure("limits", [float(v) for v in (*z.xlim, *z.ylim)] == [float(start), float(end), 2.0, 0.0])
    f = 0 if i == j else (xi - xs[i]) / (xs[j] - xs[i])
    for a in range(2):
        for b in range(end - start):
            p, q = (Z[m][a, b + start - origin[m]] for m in (i, j))
            if change == "fun":
                p, q = p + kw["up"], q + kw["up"]
            gone = env.lor(*[env.lor(v < kw["zlim"][0], v > 1000) for v in (p, q)]) if change == "zlim" else False
            if change == "zlim" and bool(gone):
                # (missing in one of them; a raster at its own coordinate is exact)
                if own is None:
                    env.ensure("missing", env.isnan(z.array[a, b]))
                continue
            env.eq("linear", z.array[a, b], p + f * (q - p), scale=10, tol=1e-6)
            if sig is None or a:
                continue
            s, t = (0, 0) if kind == "none" else (sigmas[i], sigmas[j]) if kind == "numbers" else (S[m][a, b + start - origin[m]] for m in (i, j))
            near = 0 if i == j else env.ite(env.lor(f < 0, 2 * f < 1), env.ite(f < 0, -f, f), env.ite(f < 1, 1 - f, f - 1))
            got = sig.array[0, 0] if kind != "rasters" and tuple(sig.shape) == (1, 1) else sig.array[a, b]
            if i != j:
                env.eq("sigma", got**2, s**2 + f**2 * (s**2 + t**2) + ((q - p) * near / 3) ** 2, scale=10, tol=1e-6)
            env.ensure("sigma-sign", got >= 0)


@contract("R07", [RAS + "RasterInterpolant.__call__", RAS + "RasterInterpolant._parse_as_raster"], sym=False, samples=80, bounded="constant surfaces of differing resolution")
def interpolant_resolution(env):
    """Rasters of different resolution are brought to the coarser (or requested) cell size."""
    np = env.np
    R = env.g.raster.Raster
    n = env.choice("n", [4, 8])
    d = [env.choice("d0", [1, 2, 4]), env.choice("d1", [1, 2, 4])]
    v = [env.real("v0"), env.real("v1")]
    L = 4 * n
    means = [R(np.full((L // k, L // k), z), x=(0, L), y=(L, 0)) for k, z in zip(d, v)]
    f = env.choice("f", [0, 0.25, 1])
    target = env.choice("d", [None, 2, 4])
    z, s = env.g.raster.RasterInterpolant(means, x=[0, 1])(f, d=target, return_sigma=True)
    used = d if 0 < f < 1 else [d[f]] * 2
    cell = target or max(used)
    env.eq("cell-size", np.abs(z.d), [cell, cell])
    env.eq("extent", z.box2d, [0, 0, L, L])
    env.eq("value", z.array, np.full((L // cell, L // cell), v[0] + f * (v[1] - v[0])))
    for m, k in zip(means, d):
        env.eq("frame", m.d, [k, -k])


# -- R08 files -----------------------------------------------------------------------


@contract("R08", [RAS + "Raster.write", RAS + "Raster.open", RAS + "Raster.read", RAS + "Raster.array", GRD + "read", "glimpse/helpers.py:write_raster"], sym=False, samples=150, bounded="GeoTIFF files up to 7 x 7 cells")
def raster_files(env):
    import shutil
    import tempfile

    np = env.np
    r, Z, nx, ny, d, o = concrete_raster(env, nx=env.int("nx", ge=1, le=7), ny=env.int("ny", ge=1, le=7))
    kind = env.choice("dtype", ["f8", "f4", "i2", "u1"])
    Z = Z.astype("f4") if kind == "f4" else np.round(np.abs(Z)).astype(kind) if kind in ("i2", "u1") else Z
    nodata = None
    if kind[0] == "f":
        if env.choice("gap", [False, True]):
            Z[env.int("gi", ge=0, le=ny - 1), env.int("gj", ge=0, le=nx - 1)] = np.nan
        nodata = env.choice("nan", [None, 0, -9999, 77])
        Z[Z == nodata] = 1
    # files need rows from top to bottom for GDAL drivers in general
    r = env.g.raster.Raster(Z.copy(), x=r.xlim, y=r.ylim, crs=env.choice("crs", [None, 32606]))
    folder = tempfile.mkdtemp(prefix="dv-raster-")
    try:
        path = folder + "/a.tif"
        r.write(path, **({} if nodata is None else {"nan": nodata}))
        env.ensure("frame", np.array_equal(r.array, Z, equal_nan=kind[0] == "f"))
        g = env.g.raster.Grid.read(path)
        check_grid(env, g, nx, ny, [float(v) for v in r.xlim], [float(v) for v in r.ylim], "grid.")
        a = env.g.raster.Raster.open(path)
        env.ensure("lazy-size", tuple(int(v) for v in a.size) == (nx, ny))
        check_grid(env, a, nx, ny, [float(v) for v in r.xlim], [float(v) for v in r.ylim], "open.")
        env.ensure("dtype", a.array.dtype == np.dtype(kind))
        env.ensure("values", np.array_equal(np.asarray(a.array), Z, equal_nan=kind[0] == "f"))
        # windows, cached or straight from the file
        c0, r0 = env.int("c0", ge=0, le=nx - 1), env.int("r0", ge=0, le=ny - 1)
        c1, r1 = env.int("c1", ge=c0 + 1, le=nx), env.int("r1", ge=r0 + 1, le=ny)
        b = env.g.raster.Raster.open(path)
        cache = env.choice("cache", [True, False])
        if env.choice("first", [False, True]):
            b.array
        got = b.read(box=[c0, r0, c1, r1], cache=cache)
        env.ensure("window", np.array_equal(np.asarray(got), Z[r0:r1, c0:c1], equal_nan=kind[0] == "f"))
        env.ensure("window.rest", np.array_equal(np.asarray(b.array), Z, equal_nan=kind[0] == "f"))
        exc, _ = env.raises(lambda: b.read(box=[0, 0, nx + 1, ny]), ValueError)
        env.ensure("box-outside-rejected", exc is not None)
        exc, _ = env.raises(lambda: b.read(box=[0, 0, 0.5, 1.0]), ValueError)
        env.ensure("box-fraction-rejected", exc is not None)
        # crops on opening equal crops in memory
        q = env.choice("q", [(0.1, 0.6), (0.5, 1), (0, 0.8), (0, 1)])
        xl = [r.xlim[0] + t * (r.xlim[1] - r.xlim[0]) for t in q]
        p = env.g.raster.Raster.open(path, xlim=xl)
        m = r.copy()
        m.crop(xlim=xl)
        env.ensure("crop.values", np.array_equal(np.asarray(p.array), m.array, equal_nan=kind[0] == "f"))
        env.eq("crop.xlim", p.xlim, m.xlim)
        env.eq("crop.ylim", p.ylim, m.ylim)
        bx = [0, 0, int(p.size[0]), 1]
        p2 = env.g.raster.Raster.open(path, xlim=xl)
        env.ensure("crop.window", np.array_equal(np.asarray(p2.read(box=bx, cache=cache)), m.array[:1], equal_nan=kind[0] == "f"))
        # values to treat as missing
        v = Z.flat[0]
        n = env.g.raster.Raster.open(path, nan=v if v == v else 5)
        v = v if v == v else 5
        want = Z.astype(float)
        want[Z == v] = np.nan
        if nodata is not None:
            want[np.isnan(Z.astype(float))] = nodata if nodata != v else np.nan
        env.ensure("nan-value", np.array_equal(np.asarray(n.array, dtype=float), want, equal_nan=True))
    finally:
        shutil.rmtree(folder, ignore_errors=True)

"""Contracts on glimpse.helpers: lists, boxes, lines, statistics, datetimes."""
from ..harness import contract

HLP = "glimpse/helpers.py:"


def vec(env, name, n, **k):
    return [env.real(f"{name}{i}", **k) for i in range(n)]


# -- H01 lists -----------------------------------------------------------------


@contract("H01", [HLP + "format_list"], budget=60, paths=1200)
def format_list_contract(env):
    m = env.choice("m", [0, 1, 2, 3, 4, 6])
    form = env.choice("form", ["list", "tuple", "array"])
    vals = vec(env, "v", m)
    x = list(vals) if form == "list" else tuple(vals) if form == "tuple" else env.np.array(vals)
    length = env.choice("length", [None, 1, 2, 3, 4, 6, 8])
    d = env.real("d")
    default = env.choice("default", [None, d, 0])
    bad = bool(length) and m < length and default is None and m > 0 and length % m != 0
    exc, out = env.raises(lambda: env.g.helpers.format_list(x, length=length, default=default), ValueError)
    env.ensure("raises-iff-not-a-multiple", (exc is not None) == bad)
    env.ensure("frame.length", len(x) == m)
    for i in range(m):
        env.eq("frame.element", x[i], vals[i])
    if exc is not None:
        return
    if not length:
        want = vals
    elif m >= length:
        want = vals[:length]
    elif default is not None:
        want = vals + [default] * (length - m)
    elif m:
        want = vals * (length // m)
    else:
        want = []
    env.ensure("length", len(out) == len(want))
    for a, b in zip(out, want):
        env.eq("element", a, b)
    env.ensure("list", type(out) is list)
    if isinstance(x, list):
        # a caller's list is never changed through later edits of a longer result
        if len(out) > m:
            out[0] = 5
            for i in range(m):
                env.eq("frame.not-shared", x[i], vals[i])
    env.ensure("none", env.g.helpers.format_list(None, length=length) is None)
    s = env.real("s")
    out = env.g.helpers.format_list(s, length=length, default=default)
    n = length or 1
    env.ensure("scalar.length", len(out) == n)
    for i in range(n):
        env.eq("scalar", out[i], s if i == 0 or default is None else default)


# -- H02 boxes -----------------------------------------------------------------


@contract("H02", [HLP + "unravel_box", HLP + "in_box"], budget=30)
def in_box_contract(env):
    nd = env.choice("ndim", [2, 3])
    lo, hi = vec(env, "lo", nd, scale=4), vec(env, "hi", nd, scale=4)
    n = env.size("n", ge=1)
    pts = env.array("pts", (n, nd), scale=5, nan=True)
    got = env.g.helpers.in_box(pts, lo + hi)
    env.ensure("length", got.shape[0] == n)
    for i in env.each(n):
        inside = env.land(*[env.land(pts[i, j] >= lo[j], pts[i, j] <= hi[j]) for j in range(nd)])
        env.ensure("inside", env.iff(got[i], inside))
    exc, _ = env.raises(lambda: env.g.helpers.unravel_box(lo + hi[:-1]), ValueError)
    env.ensure("odd-rejected", exc is not None)


@contract("H02", [HLP + "bounding_box"], budget=40)
def bounding_box_contract(env):
    nd = env.choice("ndim", [2, 3])
    n = env.size("n", ge=1)
    pts = env.array("pts", (n, nd))
    box = env.g.helpers.bounding_box(pts)
    env.ensure("shape", box.shape[0] == 2 * nd)
    for i in env.each(n):
        for j in range(nd):
            env.le("lower", box[j], pts[i, j], tol=0)
            env.le("upper", pts[i, j], box[nd + j], tol=0)
    # a bounding box is tight: any box holding the points holds it
    b = vec(env, "b", 2 * nd)
    if not env.symbolic:
        b = [min(pts[:, j]) - abs(b[j]) * (b[j] > 0) for j in range(nd)] + [max(pts[:, j]) + abs(b[nd + j]) * (b[nd + j] > 0) for j in range(nd)]
        for j in range(nd):
            env.ensure("tight", box[j] in pts[:, j] and box[nd + j] in pts[:, j])
    else:
        for j in range(nd):
            k = box.shape and env.np.argmin(pts[:, j])
            env.eq("tight.lower", box[j], pts[k, j])
            k = env.np.argmax(pts[:, j])
            env.eq("tight.upper", box[nd + j], pts[k, j])


@contract("H02", [HLP + "intersect_boxes"], budget=40)
def intersect_boxes_contract(env):
    nd = env.choice("ndim", [1, 2, 3])
    m = env.choice("boxes", [1, 2, 3])
    boxes = []
    for k in range(m):
        boxes.append(vec(env, f"lo{k}_", nd, scale=4) + vec(env, f"hi{k}_", nd, ge=-2, le=8))
    exc, out = env.raises(lambda: env.g.helpers.intersect_boxes(boxes), ValueError)
    p = vec(env, "p", nd, scale=5)
    lo = [b[:nd] for b in boxes]
    hi = [b[nd:] for b in boxes]
    if exc is not None:
        # no point is interior to all boxes
        env.ensure("empty", env.lnot(env.land(*[env.land(lo[k][j] < p[j], p[j] < hi[k][j]) for k in range(m) for j in range(nd)])))
        return
    inter = env.land(*[env.land(lo[k][j] <= p[j], p[j] <= hi[k][j]) for k in range(m) for j in range(nd)])
    inside = env.land(*[env.land(out[j] <= p[j], p[j] <= out[nd + j]) for j in range(nd)])
    env.ensure("points", env.iff(inside, inter))
    for j in range(nd):
        env.ensure("extent", out[j] < out[nd + j])


@contract("H02", [HLP + "box_to_polygon"], budget=20)
def box_to_polygon_contract(env):
    b = vec(env, "b", 4)
    out = env.g.helpers.box_to_polygon(b)
    env.eq("corners", out, env.np.array([[b[0], b[1]], [b[0], b[3]], [b[2], b[3]], [b[2], b[1]], [b[0], b[1]]]))


@contract("H02", [HLP + "box_to_grid", HLP + "grid_to_points"], budget=60)
def box_to_grid_contract(env):
    lo = vec(env, "lo", 2, scale=5)
    ext = vec(env, "ext", 2, ge=0, scale=9)
    step = vec(env, "step", 2, gt=0.25 if not env.symbolic else 0, scale=3)
    hi = [lo[i] + ext[i] for i in range(2)]
    snapped = env.choice("snapped", [False, True])
    snap = vec(env, "snap", 2, scale=20) if snapped else None
    same = env.choice("scalar_step", [False, True])
    if same:
        step = [step[0], step[0]]
    x, y = env.g.helpers.box_to_grid(lo + hi, step=step[0] if same else step, snap=snap, mode="vectors")
    tol = 0 if env.symbolic else 1e-6
    for d, v in enumerate((x, y)):
        n = v.shape[0]
        if n == 0:
            # empty only when no aligned position lies in the box
            env.ensure("nonempty", snapped)
            continue
        for i in env.each(n):
            env.le("in-box.lower", lo[d], v[i])
            env.le("in-box.upper", v[i], hi[d])
            q = (v[i] - (snap[d] if snapped else lo[d])) / step[d]
            env.ensure("aligned", abs(q - env.np.floor(q + 0.5)) <= 1e-6 if not env.symbolic else env.np.floor(q) == q)
            env.eq("spacing", v[i], v[0] + i * step[d])
        # complete: no further aligned position fits
        env.ensure("complete.lower", v[0] - step[d] < lo[d] + tol)
        env.ensure("complete.upper", v[n - 1] + step[d] > hi[d] - tol)


@contract("H02", [HLP + "box_to_grid", HLP + "grid_to_points"], sym=False, samples=60)
def box_to_grid_modes(env):
    """Return formats agree with each other."""
    lo, ext, step = vec(env, "lo", 2), vec(env, "ext", 2, ge=0, scale=6), vec(env, "step", 2, gt=0.4, scale=3)
    box = lo + [lo[i] + ext[i] for i in range(2)]
    H, np = env.g.helpers, env.np
    x, y = H.box_to_grid(box, step, mode="vectors")
    X, Y = H.box_to_grid(box, step, mode="grids")
    pts = H.box_to_grid(box, step, mode="points")
    env.ensure("shape", X.shape == (len(y), len(x)) == Y.shape)
    for i in range(len(y)):
        for j in range(len(x)):
            env.eq("grid.x", X[i, j], x[j])
            env.eq("grid.y", Y[i, j], y[i])
            env.eq("point", pts[i * len(x) + j], [x[j], y[i]])
    exc, _ = env.raises(lambda: H.box_to_grid(box, step, mode="nope"), ValueError)
    env.ensure("mode", exc is not None)


# -- H03 rays and lines against boxes ------------------------------------------------


@contract("H03", [HLP + "intersect_rays_box"], budget=120, samples=200, paths=800)
def rays_box(env):
    """t is within [entry or 0, exit] iff the ray point at t >= 0 is in the box."""
    nd = env.choice("ndim", [2, 3])
    lo, ext = vec(env, "lo", nd, scale=4), vec(env, "ext", nd, gt=0, scale=5)
    hi = [lo[i] + ext[i] for i in range(nd)]
    o = vec(env, "o", nd, scale=6)
    n = env.choice("n", [1, 2]) if not env.symbolic else 1
    d = env.array("d", (n, nd), scale=3)
    for i in range(n):
        env.assume(env.lor(*[d[i, j] != 0 for j in range(nd)]))
        for j in range(nd):
            # a ray travelling along a face plane is excluded (0 * infinity)
            env.assume(env.lor(d[i, j] != 0, env.land(o[j] != lo[j], o[j] != hi[j])))
            if not env.symbolic:
                env.assume(d[i, j] == 0 or abs(d[i, j]) > 0.02)
    before = d.copy()
    t0, t1 = env.g.helpers.intersect_rays_box(o, d, lo + hi, t=True)
    env.eq("frame.directions", d, before)
    for i in range(n):
        a, b = t0[i, 0], t1[i, 0]
        s = env.real("s", ge=0, scale=8)
        inside = env.land(*[env.land(o[j] + s * d[i, j] >= lo[j], o[j] + s * d[i, j] <= hi[j]) for j in range(nd)])
        got = env.land(env.lnot(env.isnan(b)), s <= b, env.lor(env.isnan(a), a <= s))
        if not env.symbolic:
            # away from the boundary
            env.assume(all(abs(o[j] + s * d[i, j] - q) > 1e-7 for j in range(nd) for q in (lo[j], hi[j])))
        env.ensure("inside-between", env.iff(inside, got))
        env.ensure("entry.nonnegative", env.lor(env.isnan(a), a >= 0))
        env.ensure("exit.nonnegative", env.lor(env.isnan(b), b >= 0))
        env.ensure("entry-needs-exit", env.lor(env.isnan(a), env.lnot(env.isnan(b))))
        if not env.symbolic:
            p0, p1 = env.g.helpers.intersect_rays_box(env.np.array(o), d, lo + hi)
            for j in range(nd):
                env.eq("point.entry", p0[i, j], o[j] + a * d[i, j])
                env.eq("point.exit", p1[i, j], o[j] + b * d[i, j])


@contract("H03", [HLP + "clip_polyline_box", HLP + "intersect_edge_box"], sym=False, samples=400)
def clip_polyline(env):
    """Clipped parts are the runs of inside vertices, extended to the boundary along their edges."""
    np = env.np
    nd = env.choice("ndim", [2, 3])
    withm = env.choice("measure", [False, True])
    n = env.size("n", ge=1, sample=6)
    # coarse integers: vertices on the boundary are common
    pts = env.np.floor(env.array("p", (n, nd), scale=4))
    dup = (np.abs(np.diff(pts, axis=0)).sum(axis=1) == 0).any() if n > 1 else False
    env.assume(not dup)
    m = np.cumsum(np.ones(n)) * 2.0
    line = np.column_stack((pts, m)) if withm else pts
    lo, hi = np.full(nd, -2.0), np.full(nd, 2.0)
    box = np.concatenate((lo, hi))
    # rays along a face plane are excluded (see rays_box)
    for i in range(n - 1):
        dd = pts[i + 1] - pts[i]
        env.assume(not any(dd[j] == 0 and abs(pts[i][j]) == 2 for j in range(nd)))
    inside = [bool(((p >= lo) & (p <= hi)).all()) for p in pts]
    want = []
    for i in range(n):
        if not inside[i]:
            continue
        if i == 0 or not inside[i - 1]:
            want.append([])
            if i > 0:
                ts = _crossings(pts[i - 1], pts[i], lo, hi)
                if ts:
                    want[-1].append(line[i - 1] + ts[0] * (line[i] - line[i - 1]))
        want[-1].append(line[i])
        if i + 1 < n and not inside[i + 1]:
            ts = _crossings(pts[i], pts[i + 1], lo, hi)
            if ts:
                want[-1].append(line[i] + ts[-1] * (line[i + 1] - line[i]))
    before = line.copy()
    got = env.g.helpers.clip_polyline_box(line, box, t=withm)
    env.eq("frame.line", line, before)
    env.ensure("count", len(got) == len(want), f"{len(got)} parts, expected {len(want)}")
    for a, b in zip(got, want):
        env.eq("part", a, np.array(b), tol=1e-9)


def _crossings(a, b, lo, hi):
    """Parameters in (0, 1) where the edge a-b crosses the box boundary."""
    t0, t1 = 0.0, 1.0
    for j in range(len(a)):
        d = b[j] - a[j]
        if d == 0:
            continue
        u, v = sorted(((lo[j] - a[j]) / d, (hi[j] - a[j]) / d))
        t0, t1 = max(t0, u), min(t1, v)
    return [t for t in (t0, t1) if 0 < t < 1 and t0 <= t1]


# -- H04 rasterised lines and circles ---------------------------------------------


@contract("H04", [HLP + "bresenham_line"], budget=60, samples=150, bounded="line length (at most 5 cells)", unroll=7)
def line_cells(env):
    x1, y1 = env.int("x1", scale=30), env.int("y1", scale=30)
    dx, dy = env.int("dx", scale=30), env.int("dy", scale=30)
    if env.symbolic:
        env.assume(env.land(dx >= -5, dx <= 5, dy >= -5, dy <= 5))
    x2, y2 = x1 + dx, y1 + dy
    p = env.g.helpers.bresenham_line((x1, y1), (x2, y2))
    n = p.shape[0]
    adx, ady = abs(dx), abs(dy)
    big = env.ite(adx > ady, adx, ady)
    env.eq("count", n, big + 1)
    env.eq("start", [p[0, 0], p[0, 1]], [x1, y1])
    env.eq("end", [p[n - 1, 0], p[n - 1, 1]], [x2, y2])
    for i in range(n):
        # nearest cell on the minor axis: off the line by at most half a cell
        e = (p[i, 0] - x1) * dy - (p[i, 1] - y1) * dx
        env.ensure("near", env.land(2 * e <= big, 2 * e >= -big))
        if i:
            sx, sy = p[i, 0] - p[i - 1, 0], p[i, 1] - p[i - 1, 1]
            env.ensure("steps", env.land(sx >= -1, sx <= 1, sy >= -1, sy <= 1, env.lor(sx != 0, sy != 0)))


@contract("H04", [HLP + "bresenham_circle"], sym=False, samples=60)
def circle_cells(env):
    """Every cell lies within a cell of the circle, each octant is covered, and the path is connected."""
    np = env.np
    x0, y0, r = env.int("x0", scale=20), env.int("y0", scale=20), env.int("r", ge=1, le=40)
    p = env.g.helpers.bresenham_circle((x0, y0), r)
    env.ensure("whole", (p == np.floor(p)).all())
    q = p - (x0, y0)
    dist = np.hypot(q[:, 0], q[:, 1])
    env.ensure("radius", (abs(dist - r) <= 1.0).all(), f"off by {abs(dist - r).max()}")
    cells = {tuple(c) for c in q}
    for c in ((0, r), (r, 0), (0, -r), (-r, 0)):
        env.ensure("axes", c in cells)
    for a, b in cells:
        env.ensure("symmetric", {(-a, b), (a, -b), (b, a)} <= cells)
    step = abs(np.diff(q, axis=0))
    env.ensure("connected", (step.max(axis=1) <= 1).all())
    env.ensure("no-repeats", (step.max(axis=1) > 0).all())


# -- H05 interpolation along lines -----------------------------------------------


@contract("H05", [HLP + "interpolate_line"], budget=60)
def interpolate_measure(env):
    """Each dimension is linear between the vertices bracketing the distance."""
    n = env.choice("nvert", [2, 3, 4]) if env.symbolic else env.size("n", ge=2)
    v = env.array("v", (n, 2))
    x = env.increasing("x", n)
    flip = env.choice("descending", [False, True])
    xs = x[::-1] * -1 if False else (x[::-1] if flip else x)
    u = env.real("u", ge=0, le=1)
    at = x[0] + u * (x[n - 1] - x[0])
    bx, bv = xs.copy(), v.copy()
    out = env.g.helpers.interpolate_line(v, x=xs, xi=env.np.array([at]))
    env.eq("frame.x", xs, bx)
    env.eq("frame.vertices", v, bv)
    env.ensure("shape", env.land(out.shape[0] == 1, out.shape[1] == 2))
    for i in range(n - 1) if env.symbolic else range(int(n) - 1):
        a, b = xs[i], xs[i + 1]
        lo, hi = (b, a) if flip else (a, b)
        for j in range(2):
            w = (at - a) / (b - a)
            env.ensure(
                "linear",
                env.implies(env.land(lo <= at, at <= hi), env.same(out[0, j], v[i, j] + w * (v[i + 1, j] - v[i, j]), tol=1e-6)),
            )


@contract("H05", [HLP + "interpolate_line"], budget=60, samples=100)
def interpolate_outside(env):
    """Distances beyond the ends raise an error or take the fill of that end."""
    v = env.array("v", (3, 2))
    x = env.increasing("x", 3)
    flip = env.choice("descending", [False, True])
    xs = x[::-1] if flip else x
    off = env.real("off", gt=0, scale=5)
    side = env.choice("side", ["first", "last"])
    at = (xs[0] if side == "first" else xs[2]) + (off if (side == "last") != flip else -off)
    fill = env.choice("fill", ["endpoints", "pair", "scalar"])
    fa, fb = env.real("fa"), env.real("fb")
    args = {"fill": "endpoints" if fill == "endpoints" else ((fa, fb) if fill == "pair" else fa)}
    H = env.g.helpers
    exc, _ = env.raises(lambda: H.interpolate_line(v, x=xs, xi=env.np.array([at]), **args), ValueError)
    env.ensure("error", exc is not None)
    out = H.interpolate_line(v, x=xs, xi=env.np.array([at]), error=False, **args)
    for j in range(2):
        if fill == "endpoints":
            want = v[0, j] if side == "first" else v[2, j]
        else:
            want = fa if (side == "first" or fill == "scalar") else fb
        env.eq("fill", out[0, j], want)


@contract("H05", [HLP + "interpolate_line"], sym=False, samples=200)
def interpolate_even(env):
    """Evenly spaced points along the cumulative distance, ends included."""
    np = env.np
    n = env.size("n", ge=2)
    v = env.array("v", (n, env.choice("nd", [2, 3])))
    seg = np.hypot.reduce(np.diff(v, axis=0), axis=1) if v.shape[1] == 2 else np.sqrt((np.diff(v, axis=0) ** 2).sum(axis=1))
    env.assume((seg > 0.01).all())
    total = seg.sum()
    s = np.concatenate(([0], np.cumsum(seg)))
    H = env.g.helpers
    how = env.choice("how", ["n", "dx", "dx-exact"])
    if how == "n":
        k = env.int("k", ge=2, le=9)
        out = H.interpolate_line(v, n=k)
    else:
        dx = total / env.int("parts", ge=1, le=6) if how == "dx-exact" else env.real("dx", gt=0.2, scale=5)
        q = total / dx
        out = H.interpolate_line(v, dx=dx)
        env.assume(abs(q - np.floor(q) - 0.5) > 1e-6)
        k = max(int(round(q)), 1) + 1
    env.ensure("count", len(out) == k)
    for j, t in enumerate(np.linspace(0, total, k)):
        i = min(max(int(np.searchsorted(s, t)) - 1, 0), int(n) - 2)
        w = (t - s[i]) / (s[i + 1] - s[i])
        env.eq("point", out[j], v[i] + w * (v[i + 1] - v[i]), tol=1e-6)
    exc, _ = env.raises(lambda: H.interpolate_line(v), ValueError)
    env.ensure("required", exc is not None)
    for j, t in enumerate(s):
        env.eq("vertices", H.interpolate_line(v, xi=[t], error=False)[0], v[j], tol=1e-6)


# -- H06 boolean runs -----------------------------------------------------------


@contract("H06", [HLP + "boolean_split"], budget=60, samples=120, bounded="mask length (at most 5)")
def split_runs(env):
    """Groups are maximal runs of equal mask values; joined across the end if circular."""
    n = env.choice("n", [1, 2, 3, 4, 5])
    a = env.array("a", (n,))
    if env.symbolic:
        mask = env.np.array([bool(env.bool(f"m{i}")) for i in range(n)])
        mk = [bool(mask[i]) for i in range(n)]
    else:
        mk = [env.bool(f"m{i}") for i in range(n)]
        mask = env.np.array(mk)
    circular = env.choice("circular", [False, True])
    include = env.choice("include", ["all", "true", "false"])
    runs = []
    for i in range(n):
        if i and mk[i] == mk[i - 1]:
            runs[-1].append(i)
        else:
            runs.append([i])
    if circular and len(runs) > 1 and mk[0] == mk[-1]:
        runs = [runs[-1] + runs[0]] + runs[1:-1]
    if include != "all":
        runs = [r for r in runs if mk[r[0]] == (include == "true")]
    got = env.g.helpers.boolean_split(a, mask, circular=circular, include=include)
    env.ensure("count", len(got) == len(runs))
    for g, r in zip(got, runs):
        env.ensure("length", g.shape[0] == len(r))
        for x, i in zip(range(len(r)), r):
            env.eq("element", g[x], a[i])


# -- H07 statistics -----------------------------------------------------------


@contract("H07", [HLP + "normalize"], budget=60)
def normalize_contract(env):
    n = env.choice("n", [2, 3, 4]) if env.symbolic else env.size("n", ge=2)
    a = env.array("a", (n,))
    env.assume(env.lor(*[a[i] != a[0] for i in range(1, n)]))
    before = a.copy()
    out = env.g.helpers.normalize(a)
    env.eq("frame.input", a, before)
    env.eq("mean", sum(out[i] for i in range(n)), 0, scale=10)
    env.eq("variance", sum(out[i] * out[i] for i in range(n)), n)
    # a positive affine map: order and ratios of differences are kept
    env.eq("affine", (out[0] - out[1]) * (a[0] - a[n - 1]), (out[0] - out[n - 1]) * (a[0] - a[1]))
    env.ensure("order", env.implies(a[0] < a[1], out[0] < out[1]))


@contract("H07", [HLP + "compute_cdf", HLP + "match_cdf"], sym=False, samples=150)
def cdf_contract(env):
    np = env.np
    H = env.g.helpers
    shape = env.choice("shape", [(7,), (3, 4), (2, 2, 3)])
    a = np.floor(env.array("a", shape, scale=5))
    v, q, inv = H.compute_cdf(a, return_inverse=True)
    env.ensure("sorted-unique", (np.diff(v) > 0).all())
    for x, p in zip(v, q):
        env.eq("probability", p, (a <= x).mean())
    env.eq("inverse", v[inv].reshape(a.shape), a)
    b = np.floor(env.array("b", (9,), scale=6))
    got = H.match_cdf(a, b)
    env.ensure("shape", got.shape == a.shape)
    bv, bq = H.compute_cdf(b)
    env.eq("given-cdf", H.match_cdf(a, (bv, bq)), got)
    for i in np.ndindex(*a.shape):
        env.eq("matched", got[i], np.interp((a <= a[i]).mean(), bq, bv))
    env.eq("self", H.match_cdf(a, a), a, tol=1e-9)


@contract("H07", [HLP + "gaussian_filter", HLP + "maximum_filter"], sym=False, samples=60)
def masked_filters(env):
    """Excluded cells neither contribute nor, unless filled, change."""
    np = env.np
    import scipy.ndimage

    H = env.g.helpers
    a = env.array("a", (4, 5))
    mask = env.array("mask", (4, 5), dtype="b")
    env.assume(mask.any())
    junk = a.copy()
    junk[~mask] = env.choice("junk", [1e6, np.nan, -7])
    before, bm = junk.copy(), mask.copy()
    fill = env.choice("fill", [False, True])
    g = H.gaussian_filter(junk, mask=mask, fill=fill, sigma=0.8)
    m = H.maximum_filter(junk, mask=mask, fill=fill, size=3)
    env.eq("frame.input", junk, before)
    env.ensure("frame.mask", (mask == bm).all())
    w = scipy.ndimage.gaussian_filter(mask.astype(float), 0.8)
    s = scipy.ndimage.gaussian_filter(np.where(mask, a, 0.0), 0.8)
    for i in np.ndindex(4, 5):
        near = [a[r, c] for r in range(max(i[0] - 1, 0), i[0] + 2) for c in range(max(i[1] - 1, 0), i[1] + 2) if r < 4 and c < 5 and mask[r, c]]
        if mask[i] or fill:
            if w[i] > 1e-9:
                env.eq("gaussian", g[i], s[i] / w[i])
            env.eq("maximum", m[i], max(near) if near else junk[i])
        else:
            env.eq("kept.gaussian", g[i], junk[i])
            env.eq("kept.maximum", m[i], junk[i])
    env.eq("unmasked.gaussian", H.gaussian_filter(a, sigma=0.8), scipy.ndimage.gaussian_filter(a, 0.8))
    env.eq("unmasked.maximum", H.maximum_filter(a, size=3), scipy.ndimage.maximum_filter(a, size=3))


# -- H08 datetimes ------------------------------------------------------------


@contract("H08", [HLP + "datetime_range"], budget=30)
def datetime_range_contract(env):
    start, step = env.date("start"), env.delta("step", gt=0)
    k = env.choice("k", [0, 1, 2, 3])
    extra = env.delta("extra", ge=0)
    env.assume(extra < step)
    stop = start + step * k + extra
    out = env.g.helpers.datetime_range(start, stop, step)
    env.ensure("count", len(out) == k + 1)
    for i in range(k + 1):
        env.ensure("value", out[i] == start + step * i)


@contract("H08", [HLP + "sorted_nearest", HLP + "_sorted_neighbors"], budget=60, samples=150)
def sorted_nearest_contract(env):
    n = env.size("n", ge=1)
    x = env.increasing("x", n)
    y = env.array("y", (2,), scale=20)
    idx = env.g.helpers.sorted_nearest(x, y)
    env.ensure("length", idx.shape[0] == 2)
    for i in range(2):
        env.ensure("range", env.land(idx[i] >= 0, idx[i] < n))
        for j in env.each(n):
            env.le("nearest", abs(x[idx[i]] - y[i]), abs(x[j] - y[i]), tol=0)


@contract("H08", [HLP + "select_datetimes"], sym=False, samples=500)
def select_datetimes_contract(env):
    """Selected iff within [start, end] and, if snapping, nearest to some aligned time and close enough."""
    dt = env.dt
    np = env.np
    base = dt.datetime(2020, 1, 1)
    n = env.size("n", ge=1, sample=7)
    secs = sorted(set(int(v) for v in np.floor(env.array("t", (n,), ge=0, le=30))))
    times = [base + dt.timedelta(seconds=s) for s in secs]
    H = env.g.helpers
    a, b = sorted([env.int("a", ge=-5, le=35), env.int("b", ge=-5, le=35)])
    start = base + dt.timedelta(seconds=a) if env.choice("start", [True, False]) else None
    end = base + dt.timedelta(seconds=b) if env.choice("end", [True, False]) else None
    snap = env.choice("snap", [None, 1, 2, 5, 7])
    maxdt = env.choice("maxdt", [None, 0, 1, 3]) if snap else None
    origin = base + dt.timedelta(seconds=env.int("origin", ge=-9, le=40))
    kw = {}
    if snap:
        kw = {"snap": dt.timedelta(seconds=snap), "origin": origin}
        if maxdt is not None:
            kw["maxdt"] = dt.timedelta(seconds=maxdt)
    ok = [(start is None or t >= start) and (end is None or t <= end) for t in times]
    exc, got = env.raises(lambda: H.select_datetimes(times, start=start, end=end, **kw), ValueError)
    s0 = start or times[0] - (kw["snap"] if snap else dt.timedelta(0))
    e0 = end or times[-1] + (kw["snap"] if snap else dt.timedelta(0))
    env.ensure("error", (exc is not None) == (s0 > e0))
    if exc is not None:
        return
    if not snap:
        env.ensure("window", list(got) == ok)
        return
    lim = dt.timedelta(seconds=maxdt) if maxdt is not None else kw["snap"] * 0.5
    near = set()
    t = origin
    while t > s0:
        t -= kw["snap"]
    while t <= e0:
        if t >= s0:
            k = min(range(len(times)), key=lambda i: (abs(times[i] - t), i))
            if abs(times[k] - t) <= lim:
                near.add(k)
        t += kw["snap"]
    want = [o and i in near for i, o in enumerate(ok)]
    env.ensure("snapped", list(got) == want, f"{list(got)} != {want}")


@contract("H08", [HLP + "pairwise_distance_datetimes", HLP + "pairwise_distance"], sym=False, samples=120)
def datetime_distances(env):
    """Elapsed time as by subtraction, whatever the time zone of the computer."""
    import os
    import time

    dt, np = env.dt, env.np
    day = env.choice("day", [(2019, 6, 1), (2021, 3, 14), (2021, 11, 7), (1901, 1, 1)])
    base = dt.datetime(*day)
    aware = env.choice("aware", [None, None, 0, -5])
    if aware is not None:
        base = base.replace(tzinfo=dt.timezone(dt.timedelta(hours=aware)))
    scale = env.choice("scale", [1e7, 1e8, 1e10])
    n, m = env.int("n", ge=1, le=4), env.int("m", ge=1, le=4)
    xs = [base + dt.timedelta(milliseconds=int(v)) for v in np.floor(env.array("x", (n,), scale=scale))]
    ys = [base + dt.timedelta(milliseconds=int(v)) for v in np.floor(env.array("y", (m,), scale=scale))]
    zone = os.environ.get("TZ")
    os.environ["TZ"] = env.choice("zone", ["UTC0", "EST5EDT,M3.2.0,M11.1.0"])
    time.tzset()
    try:
        d = env.g.helpers.pairwise_distance_datetimes(xs, ys)
    finally:
        if zone is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = zone
        time.tzset()
    env.ensure("shape", d.shape == (n, m))
    for i in range(n):
        for j in range(m):
            env.eq("seconds", d[i, j], abs((xs[i] - ys[j]).total_seconds()), tol=1e-9, scale=1e3)


# -- H09 rasterising points -------------------------------------------------------


@contract("H09", [HLP + "rasterize_points"], sym=False, samples=200)
def rasterize_means(env):
    """Each cell with points takes the mean of its points; other cells keep their value."""
    np = env.np
    H = env.g.helpers
    shape = env.choice("shape", [(3, 4), (1, 5), (4, 1)])
    n = env.size("n", ge=1, sample=9)
    dense = env.choice("dense", [False] * 9 + [True])
    n = 900 if dense else n
    rows = np.array([env.int(f"r{i}", ge=0, le=shape[0] - 1) for i in range(n)])
    cols = np.array([env.int(f"c{i}", ge=0, le=shape[1] - 1) for i in range(n)])
    d = env.choice("depth", [None, 1, 2, 3])
    vals = env.array("v", (n,) if d is None else (n, d))
    brows, bvals = rows.copy(), vals.copy()
    want = {}
    for i in range(n):
        want.setdefault((rows[i], cols[i]), []).append(vals[i])
    idx, means = H.rasterize_points(rows, cols, vals, shape=shape)
    keys = sorted(want)
    env.ensure("indices", list(idx) == [r * shape[1] + c for r, c in keys])
    for k, m in zip(keys, means):
        env.eq("mean", m, np.mean(want[k], axis=0))
    a = np.full(shape if d in (None, 1) and env.choice("flat", [True, False]) else shape + (d or 1,), -9.0)
    H.rasterize_points(rows, cols, vals, a=a)
    for i in np.ndindex(*shape):
        w = np.mean(want[i], axis=0) if i in want else -9.0
        env.eq("array", np.ravel(a[i]), np.broadcast_to(np.ravel(w), np.ravel(a[i]).shape))
    env.ensure("frame.rows", (rows == brows).all())
    env.eq("frame.values", vals, bvals)


@contract("H09", [HLP + "rasterize_points"], budget=150, paths=1500, shards=4, samples=150, bounded="at most 3 points (any values, rows and columns, in arrays of any size)")
def rasterize_cells(env):
    """The same for any array size: an arbitrary cell against the points in it."""
    np = env.np
    H = env.g.helpers
    h, w = env.size("h"), env.size("w")
    n = env.choice("n", [1, 2, 3] if env.symbolic else [1, 2, 3, 8])
    rows = [env.int(f"r{i}", ge=0, le=h - 1) for i in range(n)]
    cols = [env.int(f"c{i}", ge=0, le=w - 1) for i in range(n)]
    d = env.choice("depth", [None, 2] if env.symbolic else [None, 1, 2])
    vals = env.array("v", (n,) if d is None else (n, d))
    keep = np.copy(vals)
    at = [vals[i] if d is None else [vals[i, k] for k in range(d)] for i in range(n)]
    a = env.array("a", (h, w) if d is None else (h, w, d))
    old = np.copy(a)
    into = env.choice("into", [True, False])
    if into:
        env.ensure("returns", H.rasterize_points(np.array(rows), np.array(cols), vals, a=a) is None)
    else:
        idx, means = H.rasterize_points(np.array(rows), np.array(cols), vals, shape=(h, w))
        m = idx.shape[0]
        env.ensure("length", env.land(1 <= m, m <= n, means.shape[0] == m))
        for k in env.each(m):
            here = [rows[i] * w + cols[i] == idx[k] for i in range(n)]
            env.ensure("occupied", env.lor(*here))
            count = sum(env.ite(p, 1, 0) for p in here)
            for j in range(d or 1):
                total = sum(env.ite(p, at[i] if d is None else at[i][j], 0) for i, p in enumerate(here))
                env.eq("mean", (means[k] if d is None else means[k, j]) * count, total)
        for k in env.each(m - 1):
            env.ensure("sorted", idx[k] < idx[k + 1])
        for i in range(n):
            env.ensure("covered", env.lor(*[idx[k] == rows[i] * w + cols[i] for k in range(int(m))]))
    for i in env.each(h):
        for j in env.each(w):
            here = [env.land(rows[q] == i, cols[q] == j) for q in range(n)]
            count = sum(env.ite(p, 1, 0) for p in here)
            for k in range(d or 1):
                get = (lambda x: x[i, j]) if d is None else (lambda x: x[i, j, k])
                if not into:
                    env.eq("frame.array", get(a), get(old))
                    continue
                total = sum(env.ite(p, at[q] if d is None else at[q][k], 0) for q, p in enumerate(here))
                env.eq("mean", env.ite(count > 0, get(a) * count, get(a)), env.ite(count > 0, total, get(old)))
    for i in range(n):
        for k in range(d or 1):
            get = (lambda x: x[i]) if d is None else (lambda x: x[i, k])
            env.eq("frame.values", get(vals), get(keep))


@contract("H09", [HLP + "polygons_to_mask"], sym=False, samples=60)
def polygon_mask(env):
    """A cell is set iff its centre is inside some polygon and no hole."""
    np = env.np
    H = env.g.helpers
    nx, ny = env.int("nx", ge=2, le=9), env.int("ny", ge=2, le=9)

    def box(tag):
        x = sorted([env.real(f"{tag}x0", ge=0, le=nx), env.real(f"{tag}x1", ge=0, le=nx)])
        y = sorted([env.real(f"{tag}y0", ge=0, le=ny), env.real(f"{tag}y1", ge=0, le=ny)])
        for v in x + y:
            env.assume(abs((v - 0.5) - round(v - 0.5)) > 0.02)
        env.assume(x[1] - x[0] > 0.05 and y[1] - y[0] > 0.05)
        return [x[0], y[0], x[1], y[1]]

    polys = [box("a"), box("b")]
    holes = [box("h")] if env.choice("hole", [False, True]) else None

    def ring(b):
        return [(b[0], b[1]), (b[2], b[1]), (b[2], b[3]), (b[0], b[3])]

    got = H.polygons_to_mask([ring(b) for b in polys], (nx, ny), [ring(b) for b in holes] if holes else None)
    env.ensure("shape", got.shape == (ny, nx))

    def inside(bs, x, y):
        return any(b[0] < x < b[2] and b[1] < y < b[3] for b in bs or [])

    for i in range(ny):
        for j in range(nx):
            env.ensure("cell", bool(got[i, j]) == (inside(polys, j + 0.5, i + 0.5) and not inside(holes, j + 0.5, i + 0.5)), f"{i},{j}")

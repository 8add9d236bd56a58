"""Contracts on glimpse.track: motion models, observers, tracker, tracks."""
import math

from ..harness import Seen, contract, instance

MOT = "glimpse/track/motion.py:"
OBS = "glimpse/track/observer.py:Observer."
TRK = "glimpse/track/tracker.py:Tracker."
TRS = "glimpse/track/tracks.py:Tracks."


def vec(env, name, n, **k):
    return [env.real(f"{name}{i}", **k) for i in range(n)]


def draws(env):
    """Standard normal draws are arbitrary recorded reals."""
    out = []

    def randn(*shape):
        r = env.array(f"draw{len(out)}_", tuple(shape), scale=2)
        out.append(r)
        return env.np.array(r)

    env.patch(env.np.random, "randn", randn)
    return out


class Surface:
    """An arbitrary function of position, or a constant, as a mean surface."""

    def __init__(self, env, name, kinds=("raster", "number", "none"), ge=None):
        self.env = env
        self.kind = env.choice(name + ".kind", list(kinds))
        self.value = None
        if self.kind == "raster":
            if env.symbolic:
                import z3

                from .. import symnp
                from ..core import SNum, lift

                F = z3.Function(name, z3.RealSort(), z3.RealSort(), z3.RealSort())

                def real(t):
                    return z3.ToReal(t) if z3.is_int(t) else t

                def at(x, y):
                    z = F(real(lift(x).e), real(lift(y).e))
                    if ge is not None:
                        env.c.add_fact(z >= ge)
                    return SNum(z)

                def sample(xy, *a, **k):
                    return symnp.elementwise(at, [xy[:, 0], xy[:, 1]], symnp.F8)

            else:
                p = vec(env, name + "p", 4, scale=3)

                def at(x, y):
                    z = p[0] + p[1] * math.sin(x + p[2]) + p[3] * math.cos(0.5 * y)
                    if not (math.isfinite(x) and math.isfinite(y)):
                        return math.nan
                    return z if ge is None else max(z, ge)

                def sample(xy, *a, **k):
                    return env.np.array([at(x, y) for x, y in xy], dtype=float)

            base = env.g.raster.Raster
            self.value = object.__new__(type("Surface", (base,), {"sample": lambda s, xy, *a, **k: sample(xy)}))
            self.at = at
        elif self.kind == "number":
            self.value = env.real(name, ge=ge)
            self.at = lambda x, y: self.value
        else:
            self.at = lambda x, y: 0


def steps(env):
    unit = env.delta("unit", gt=0)
    dt = env.delta("dt")
    return unit, dt, dt.total_seconds() / unit.total_seconds()


def state(env, n):
    return env.array("p", (n, 6), scale=5)


# -- T01 motion models ------------------------------------------------------------


@contract("T01", [MOT + "Motion.initialize_particles", MOT + "Motion.evolve_particles"], budget=30)
def basic_motion(env):
    unit, dt, t = steps(env)
    xy, s = vec(env, "xy", 2), vec(env, "s", 3, ge=0)
    n = env.size("n")
    r = draws(env)
    m = env.g.track__motion.Motion(xy, unit, n=n, vxyz_sigma=s)
    p = m.initialize_particles()
    env.ensure("shape", p.shape[0] == n)
    env.ensure("shape", p.shape[1] == 6)
    k = env.size("k")
    q = state(env, k)
    q0 = env.np.array(q)
    m.evolve_particles(q, dt)
    env.ensure("no-likelihood", m.compute_log_likelihoods(q) is None)
    for i in env.each(n):
        env.eq("start", p[i, 0], xy[0])
        env.eq("start", p[i, 1], xy[1])
        env.eq("start", p[i, 2], 0)
        for j in range(3):
            env.eq("velocity", p[i, 3 + j], s[j] * r[0][i, j])
    for i in env.each(k):
        for j in range(3):
            env.eq("position", q[i, j], q0[i, j] + t * q0[i, 3 + j])
            env.eq("steady", q[i, 3 + j], q0[i, 3 + j])


def start(env, p, n, xy, s, dem, sig, r):
    """Positions and elevations about the mean; returns the velocity draws."""
    shapes = [len(x.shape) for x in r]
    env.ensure("shape", p.shape[0] == n)
    env.ensure("shape", p.shape[1] == 6)
    for i in env.each(n):
        for j in range(2):
            env.eq("start", p[i, j], xy[j] + s[j] * r[0][i, j])
        if len(shapes) == 3:
            h = sig.at(p[i, 0], p[i, 1]) * r[1][i]
        else:
            h = 0
            env.ensure("certain-surface", sig.kind == "none")
        env.eq("elevation", p[i, 2], dem.at(p[i, 0], p[i, 1]) + h)
    return r[-1]


def models(env, name, zs=True):
    unit, dt, t = steps(env)
    xy, xs = vec(env, "xy", 2), vec(env, "xs", 2, ge=0)
    d = 3 if zs else 2
    kw = {}
    v, vs, a, as_ = (vec(env, c, d, scale=3) for c in ("v", "vs", "a", "as"))
    dem = Surface(env, "dem", ("raster", "number"))
    sig = Surface(env, "sig", ("raster", "number", "none"), ge=0)
    n = env.size("n")
    k = {"Cartesian": ("vxyz", "axyz"), "Cylindrical": ("vrthz", "arthz"), "TangentCartesian": ("vxy", "axy"), "TangentCylindrical": ("vrth", "arth")}[name]
    kw = {k[0]: v, k[0] + "_sigma": vs, k[1]: a, k[1] + "_sigma": as_}
    if sig.kind != "none":
        kw["dem_sigma"] = sig.value
    elif not name.startswith("Tangent") and env.choice("given", [True, False]):
        kw["dem_sigma"] = None
    slope = env.real("slope", ge=0)
    if name.startswith("Tangent"):
        kw["slope_sigma"] = slope
    r = draws(env)
    cls = getattr(env.g.track__motion, name + "Motion")
    m = cls(xy, unit, dem.value, n=n, xy_sigma=xs, **kw)
    return m, dt, t, n, xy, xs, v, vs, a, as_, dem, sig, slope, r


@contract("T01", [MOT + "CartesianMotion.initialize_particles", MOT + "CartesianMotion.evolve_particles", MOT + "CartesianMotion.__init__"], budget=60)
def cartesian_motion(env):
    m, dt, t, n, xy, xs, v, vs, a, as_, dem, sig, _, r = models(env, "Cartesian")
    p = m.initialize_particles()
    w = start(env, p, n, xy, xs, dem, sig, r)
    for i in env.each(n):
        for j in range(3):
            env.eq("velocity", p[i, 3 + j], v[j] + vs[j] * w[i, j])
    k = env.size("k")
    q = state(env, k)
    q0 = env.np.array(q)
    m.evolve_particles(q, dt)
    for i in env.each(k):
        for j in range(3):
            acc = a[j] + as_[j] * r[-1][i, j]
            env.eq("position", q[i, j], q0[i, j] + t * q0[i, 3 + j] + t * t * acc / 2)
            env.eq("accelerated", q[i, 3 + j], q0[i, 3 + j] + t * acc)


def polar(env, p, v, vs, w, n, d):
    np = env.np
    for i in env.each(n):
        r, th = v[0] + vs[0] * w[i, 0], v[1] + vs[1] * w[i, 1]
        env.eq("velocity.x", p[i, 3], r * np.cos(th))
        env.eq("velocity.y", p[i, 4], r * np.sin(th))
        if d == 3:
            env.eq("velocity.z", p[i, 5], v[2] + vs[2] * w[i, 2])


def radial(env, q0, i, a, as_, w):
    """Horizontal acceleration of a moving particle (times its speed)."""
    np = env.np
    vx, vy = q0[i, 3], q0[i, 4]
    s = np.sqrt(vx * vx + vy * vy)
    ar, at = a[0] + as_[0] * w[i, 0], a[1] + as_[1] * w[i, 1]
    return s, ar * vx - vy * at * s, ar * vy + vx * at * s, ar


@contract("T01", [MOT + "CylindricalMotion.initialize_particles", MOT + "CylindricalMotion.evolve_particles"], budget=90)
def cylindrical_motion(env):
    m, dt, t, n, xy, xs, v, vs, a, as_, dem, sig, _, r = models(env, "Cylindrical")
    p = m.initialize_particles()
    w = start(env, p, n, xy, xs, dem, sig, r)
    polar(env, p, v, vs, w, n, 3)
    k = env.size("k")
    q = state(env, k)
    q0 = moving(env, q, k)
    m.evolve_particles(q, dt)
    for i in env.each(k):
        assume_moving(env, q0, i)
        s, ax, ay, _ = radial(env, q0, i, a, as_, r[-1])
        az = a[2] + as_[2] * r[-1][i, 2]
        env.eq("x", (q[i, 0] - q0[i, 0] - t * q0[i, 3]) * s, t * t * ax / 2)
        env.eq("y", (q[i, 1] - q0[i, 1] - t * q0[i, 4]) * s, t * t * ay / 2)
        env.eq("z", q[i, 2], q0[i, 2] + t * q0[i, 5] + t * t * az / 2)
        env.eq("vx", (q[i, 3] - q0[i, 3]) * s, t * ax)
        env.eq("vy", (q[i, 4] - q0[i, 4]) * s, t * ay)
        env.eq("vz", q[i, 5], q0[i, 5] + t * az)


def moving(env, q, k):
    return env.np.array(q)


def assume_moving(env, q0, i):
    if env.symbolic:
        env.assume(env.lor(q0[i, 3] != 0, q0[i, 4] != 0))
    elif abs(q0[i, 3]) + abs(q0[i, 4]) < 1e-3:
        env.assume(False)


@contract("T01", [MOT + "CylindricalMotion.evolve_particles", MOT + "TangentCylindricalMotion.evolve_particles"], budget=60)
def stationary_particles(env):
    # a particle at rest has no direction, but stays a valid particle
    name = env.choice("model", ["Cylindrical", "TangentCylindrical"])
    m, dt, t, n, xy, xs, v, vs, a, as_, dem, sig, slope, r = models(env, name, name == "Cylindrical")
    k = env.size("k")
    q = state(env, k)
    q[:, 3:5] = 0
    q0 = env.np.array(q)
    m.evolve_particles(q, dt)
    for i in env.each(k):
        ar = a[0] + as_[0] * r[-1 if name == "Cylindrical" else -2][i, 0]
        dx, dy = q[i, 0] - q0[i, 0], q[i, 1] - q0[i, 1]
        for j in range(5):
            env.ensure("valid", env.lnot(env.isnan(q[i, j])))
        env.eq("distance", dx * dx + dy * dy, (t * t * ar / 2) * (t * t * ar / 2))
        env.eq("speed", q[i, 3] * q[i, 3] + q[i, 4] * q[i, 4], t * t * ar * ar)


def tangent(env, q, q0, i, dem, slope, w, dx, dy):
    np = env.np
    env.eq("x", q[i, 0], q0[i, 0] + dx)
    env.eq("y", q[i, 1], q0[i, 1] + dy)
    before = q0[i, 2] - dem.at(q0[i, 0], q0[i, 1])
    after = q[i, 2] - dem.at(q[i, 0], q[i, 1])
    env.eq("height", after - before, slope * w[i] * np.sqrt(dx * dx + dy * dy))
    env.eq("vertical-velocity", q[i, 5], q0[i, 5])


@contract("T01", [MOT + "TangentCartesianMotion.initialize_particles", MOT + "TangentCartesianMotion.evolve_particles", MOT + "TangentCartesianMotion.__init__"], budget=60)
def tangent_cartesian_motion(env):
    m, dt, t, n, xy, xs, v, vs, a, as_, dem, sig, slope, r = models(env, "TangentCartesian", False)
    p = m.initialize_particles()
    w = start(env, p, n, xy, xs, dem, sig, r)
    for i in env.each(n):
        for j in range(2):
            env.eq("velocity", p[i, 3 + j], v[j] + vs[j] * w[i, j])
        env.eq("velocity", p[i, 5], 0)
    k = env.size("k")
    q = state(env, k)
    q0 = env.np.array(q)
    m.evolve_particles(q, dt)
    for i in env.each(k):
        acc = [a[j] + as_[j] * r[-2][i, j] for j in range(2)]
        dxy = [t * q0[i, 3 + j] + t * t * acc[j] / 2 for j in range(2)]
        tangent(env, q, q0, i, dem, slope, r[-1], *dxy)
        for j in range(2):
            env.eq("accelerated", q[i, 3 + j], q0[i, 3 + j] + t * acc[j])


@contract("T01", [MOT + "TangentCylindricalMotion.initialize_particles", MOT + "TangentCylindricalMotion.evolve_particles", MOT + "TangentCylindricalMotion.__init__"], budget=90)
def tangent_cylindrical_motion(env):
    m, dt, t, n, xy, xs, v, vs, a, as_, dem, sig, slope, r = models(env, "TangentCylindrical", False)
    p = m.initialize_particles()
    w = start(env, p, n, xy, xs, dem, sig, r)
    polar(env, p, v, vs, w, n, 2)
    k = env.size("k")
    q = state(env, k)
    q0 = moving(env, q, k)
    m.evolve_particles(q, dt)
    for i in env.each(k):
        assume_moving(env, q0, i)
        s, ax, ay, _ = radial(env, q0, i, a, as_, r[-2])
        dx, dy = q[i, 0] - q0[i, 0], q[i, 1] - q0[i, 1]
        env.eq("x.scaled", (dx - t * q0[i, 3]) * s, t * t * ax / 2)
        env.eq("y.scaled", (dy - t * q0[i, 4]) * s, t * t * ay / 2)
        env.eq("vx", (q[i, 3] - q0[i, 3]) * s, t * ax)
        env.eq("vy", (q[i, 4] - q0[i, 4]) * s, t * ay)
        tangent(env, q, q0, i, dem, slope, r[-1], dx, dy)


@contract("T01", [MOT + c + "Motion.__init__" for c in ("", "Cartesian", "Cylindrical", "TangentCartesian", "TangentCylindrical")], budget=60)
def motion_defaults(env):
    """Models without the optional arguments start at rest, all at one place, and keep their velocity."""
    unit, dt, t = steps(env)
    xy = vec(env, "xy", 2)
    dem = Surface(env, "dem", ("raster", "number"))
    name = env.choice("model", ["", "Cartesian", "Cylindrical", "TangentCartesian", "TangentCylindrical"])
    n = env.size("n")
    draws(env)
    m = getattr(env.g.track__motion, name + "Motion")(xy, unit, *([dem.value] if name else []), n=n)
    p = m.initialize_particles()
    env.ensure("shape", p.shape[0] == n)
    for i in env.each(n):
        want = [xy[0], xy[1], dem.at(xy[0], xy[1]) if name else 0, 0, 0, 0]
        for j in range(6):
            env.eq("start", p[i, j], want[j])
    k = env.size("k")
    q = state(env, k)
    q0 = env.np.array(q)
    m.evolve_particles(q, dt)
    for i in env.each(k):
        assume_moving(env, q0, i)
        for j in range(2):
            env.eq("steady", q[i, 3 + j], q0[i, 3 + j])
            env.eq("step", q[i, j], q0[i, j] + t * q0[i, 3 + j])
        if name.startswith("Tangent"):
            # (at the height it had above the surface)
            env.eq("height", q[i, 2] - dem.at(q[i, 0], q[i, 1]), q0[i, 2] - dem.at(q0[i, 0], q0[i, 1]))
        else:
            env.eq("step", q[i, 2], q0[i, 2] + t * q0[i, 5])


# -- T02 particle likelihoods -----------------------------------------------------


@contract("T02", [MOT + "CartesianMotion.compute_log_likelihoods"], budget=40)
def surface_likelihood(env):
    name = env.choice("model", ["Cartesian", "Cylindrical"])
    m, dt, t, n, xy, xs, v, vs, a, as_, dem, sig, _, r = models(env, name)
    k = env.size("k")
    q = state(env, k)
    q0 = env.np.array(q)
    out = m.compute_log_likelihoods(q)
    if sig.kind == "none":
        env.ensure("none", out is None)
        return
    env.ensure("shape", out.shape[0] == k)
    for i in env.each(k):
        s = sig.at(q0[i, 0], q0[i, 1])
        dz = dem.at(q0[i, 0], q0[i, 1]) - q0[i, 2]
        if env.symbolic:
            env.ensure("gaussian", env.implies(s != 0, out[i] * 2 * s * s == dz * dz))
            env.ensure("certain", env.implies(s == 0, out[i] == 0))
        elif s != 0:
            env.eq("gaussian", out[i] * 2 * s * s, dz * dz)
        else:
            env.eq("certain", out[i], 0)
        for j in range(6):
            env.eq("frame", q[i, j], q0[i, j])


def tracker(env, observers=(), **k):
    return env.g.track__tracker.Tracker(list(observers), **k)


@contract("T02", [TRK + "compute_observer_log_likelihoods"], budget=120)
def tile_matching(env):
    """The search area and score positions, against the contracts of the functions called."""
    np = env.np
    w, h = env.int("w", ge=1, le=9), env.int("h", ge=1, le=9)
    size = (env.int("W", ge=1, le=60), env.int("H", ge=1, le=60))
    n = env.size("n")
    uv = env.array("uv", (n, 2), ge=0, le=40) if not env.symbolic else env.array("uv", (n, 2))
    duv = [env.real(f"duv{i}", ge=-0.5, le=0.5) for i in range(2)]
    sigma = env.real("sigma", gt=0, scale=1)
    kx, ky = env.choice("kx", [1, 3]), env.choice("ky", [1, 3])
    seen = Seen(extract=[], match=[], sample=[], bounds=[])

    def inbounds(p):
        seen.bounds.append(p)
        return np.array([env.land(0 <= q[0], q[0] <= size[0], 0 <= q[1], q[1] <= size[1]) for q in p])

    def extract(obs, img, box, histogram=None, return_histogram=False):
        l, t, r, b = [integer(env, x) for x in box]
        # as Raster.read / Image.read require
        env.ensure("callee.inbounds", env.land(0 <= l, l < r, r <= size[0], 0 <= t, t < b, b <= size[1]))
        seen.extract.append((l, t, r, b, obs, img, histogram))
        return env.array("tile", (b - t, r - l))

    def match(a, templ=None, method=None, **k):
        env.ensure("callee.larger", env.land(a.shape[0] >= templ.shape[0], a.shape[1] >= templ.shape[1]))
        s = env.array("sse", (a.shape[0] - templ.shape[0] + 1, a.shape[1] - templ.shape[1] + 1), ge=0)
        seen.match.append((a, templ, method, np.array(s)))
        return s

    def sample(p, tile=None, box=None, grid=False, **k):
        # as Observer.sample_tile and the spline require
        env.ensure("callee.size", env.land(tile.shape[0] > k.get("kx", 3), tile.shape[1] > k.get("ky", 3)))
        for i in env.each(n):
            env.ensure("callee.inside", env.land(box[0] <= p[i, 0], p[i, 0] <= box[2], box[1] <= p[i, 1], p[i, 1] <= box[3]))
        out = env.array("sampled", (n,), ge=0)
        seen.sample.append((p, tile, box, grid, k, np.array(out)))
        return out

    obs = Seen(
        xyz_to_uv=lambda xyz, img: np.array(uv), sample_tile=sample, sigma=sigma,
        images=[None, Seen(inbounds=inbounds, size=np.array(size))],
    )
    t = tracker(env, [obs], interpolation={"kx": kx, "ky": ky})
    t.particles = env.array("p", (n, 6))
    hist = object()
    templ = env.array("templ", (h, w))
    t.templates = [{"tile": templ, "histogram": hist, "duv": np.array(duv), "obs": 0, "img": 0, "box": None}]
    t.extract_tile = extract
    env.ensure("skipped", t.compute_observer_log_likelihoods(0, None) is None)
    cv2 = env.g.track__tracker.cv2
    env.patch(cv2, "matchTemplate", match)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = t.compute_observer_log_likelihoods(0, 1)
    if out is None:
        return
    (l, top, r, b, o, img, hh), = seen.extract
    env.ensure("image", o == 0 and img == 1 and hh is hist)
    a, tt, method, sse = seen.match[0]
    env.ensure("squared-differences", method is cv2.TM_SQDIFF if env.symbolic else method == cv2.TM_SQDIFF)
    for i in env.each(h):
        for j in env.each(w):
            env.eq("template", tt[i, j], templ[i, j], tol=1e-5)
    p, tile, box, grid, k, got = seen.sample[0]
    env.ensure("points", not grid)
    env.ensure("interpolation", k == {"kx": kx, "ky": ky})
    nr, nc = b - top - h + 1, r - l - w + 1
    env.ensure("scores", tile.shape[0] == nr)
    env.ensure("scores", tile.shape[1] == nc)
    for i in env.each(nr):
        for j in env.each(nc):
            env.eq("mean-squared", tile[i, j] * (w * h), sse[i, j])
    # score (i, j) compares the template with the tile centred at (l + j + w/2, top + i + h/2);
    # the particle it stands for is offset from there by the template's own offset
    env.eq("cell-width", box[2] - box[0], nc)
    env.eq("cell-height", box[3] - box[1], nr)
    env.eq("position.u", box[0] + 0.5, l + w / 2 + duv[0])
    env.eq("position.v", box[1] + 0.5, top + h / 2 + duv[1])
    env.ensure("shape", out.shape[0] == n)
    for i in env.each(n):
        for j in range(2):
            env.eq("projected", p[i, j], uv[i, j])
        env.eq("likelihood", out[i] * 2 * sigma * sigma, got[i], tol=1e-5)


def integer(env, x):
    from .raster import integer as f

    return f(env, x)


# -- T03 weights and moments ------------------------------------------------------


@contract("T03", [TRK + "update_weights", TRK + "initialize_weights"], budget=60)
def weighting(env):
    np = env.np
    n = env.size("n")
    m = env.choice("observers", [0, 1, 2, 3])
    used = [env.choice(f"used{i}", [True, False]) for i in range(m)]
    blank = [u and env.choice(f"blank{i}", [False, True]) for i, u in enumerate(used)]
    ll = [env.array(f"ll{i}_", (n,), ge=0, scale=4) for i in range(m)]
    model = env.choice("model", [None, "none", "some"])
    mm = env.array("mm", (n,), ge=0, scale=4)
    t = tracker(env, [None] * m)
    t.particles = env.array("p", (n, 6))
    p0 = np.array(t.particles)
    t.initialize_weights()
    for i in env.each(n):
        env.eq("equal", t.weights[i], 1)
    calls = []

    def likelihoods(obs, img):
        calls.append((obs, img))
        if img is None or blank[obs]:
            return None
        return np.array(ll[obs])

    t.compute_observer_log_likelihoods = likelihoods
    got = []
    mo = Seen(compute_log_likelihoods=lambda p: got.append(p) or (None if model == "none" else np.array(mm)))
    before = np.array(t.weights)
    t.update_weights([7 + i if used[i] else None for i in range(m)], motion_model=mo if model else None)
    env.ensure("each-observer", [c for c in calls if c[1] is not None] == [(i, 7 + i) for i in range(m) if used[i]])
    env.ensure("model-sees-particles", all(x is t.particles for x in got))
    env.ensure("frame.shape", t.weights.shape[0] == n)
    terms = [ll[i] for i in range(m) if used[i] and not blank[i]] + ([mm] if model == "some" else [])
    for i in env.each(n):
        if not terms:
            env.eq("unchanged", t.weights[i], before[i])
        else:
            total = 0
            for x in terms:
                total = total + x[i]
            env.eq("likelihood", t.weights[i], np.exp(-total) + 1e-300, tol=1e-9)
            env.ensure("positive", t.weights[i] > 0)
        for j in range(6):
            env.eq("frame.particles", t.particles[i, j], p0[i, j])


def cloud(env, **k):
    np = env.np
    n = env.size("n", ge=1, sample=8)
    t = tracker(env)
    t.particles = env.array("p", (n, 6), scale=5)
    t.weights = env.array("w", (n,), gt=0, scale=3)
    if env.symbolic:
        env.lemma("weight", np.sum(t.weights) >= t.weights[0])
    return t, n, np.array(t.particles), np.array(t.weights)


@contract("T03", [TRK + "particle_mean", TRK + "particle_covariance"], budget=60)
def moments(env):
    np = env.np
    t, n, p, w = cloud(env)
    mean = t.particle_mean
    cov = t.particle_covariance
    env.ensure("shape", mean.shape[0] == 6)
    W = np.sum(w)
    for j in range(6):
        env.eq("mean", mean[j] * W, np.sum(w * p[:, j]), scale=10)
    if not env.symbolic and n == 1:
        return
    for j in range(6):
        for k in range(6):
            env.eq("covariance", cov[j, k] * W, np.sum(w * (p[:, j] - mean[j]) * (p[:, k] - mean[k])), scale=10)
    for i in env.each(n):
        env.eq("frame.weights", t.weights[i], w[i])
        for j in range(6):
            env.eq("frame.particles", t.particles[i, j], p[i, j])


@contract("T03", [TRK + "compute_particle_sigma"], budget=60)
def spread(env):
    np = env.np
    t, n, p, w = cloud(env)
    j = env.choice("j", range(6))
    given = env.choice("given", [True, False])
    mean = vec(env, "mean", 6) if given else t.particle_mean
    m = mean[j]
    W = np.sum(w)
    env.sum_nonneg("square", w * ((p[:, j] - m) * (p[:, j] - m)))
    var = np.sum(w * (p[:, j] - m) * (p[:, j] - m))
    env.lemma("nonnegative", var / W >= 0)
    sigma = t.compute_particle_sigma(np.array(mean)) if given else t.compute_particle_sigma()
    env.ensure("sigma", sigma[j] >= 0)
    env.eq("variance", sigma[j] * sigma[j] * W, var, scale=10)
    for i in env.each(n):
        env.eq("frame.weights", t.weights[i], w[i])
        env.eq("frame.particles", t.particles[i, j], p[i, j])


@contract("T03", [TRK + "test_particles"], budget=40)
def validity(env):
    np = env.np
    n = env.size("n")
    t = tracker(env)
    t.particles = env.array("p", (n, 6), scale=3, nan=True)
    see = env.choice("viewshed", [False, True])
    vis = env.array("vis", (n,), dtype="b")
    calls = []
    if see:
        t.viewshed = Seen(sample=lambda xy, **k: calls.append(k) or np.array(vis))
    exc, _ = env.raises(lambda: t.test_particles(), ValueError)
    if see:
        env.ensure("nearest-cell", [c.get("order") for c in calls] == [0])
    if exc is None:
        for i in env.each(n):
            for j in range(6):
                env.ensure("no-missing", env.lnot(env.isnan(t.particles[i, j])))
            if see:
                env.ensure("visible", vis[i])
        return
    bad = np.any(np.isnan(t.particles))
    if see:
        bad = env.lor(bad, env.lnot(np.all(vis)))
    env.ensure("cause", bad)


# -- T04 resampling ---------------------------------------------------------------


def labelled(env, t, n):
    """Column 0 of the particles names the particle."""
    t.particles[:, 0] = env.np.arange(n)
    return env.np.array(t.particles)


def uniform(env):
    out = []

    def random(size=None):
        if size is None:
            # often extreme: 0, or the largest float below 1
            u = env.real(f"u{len(out)}", ge=0, le=1)
            if env.symbolic:
                env.assume(u < 1)
            else:
                k = env.choice(f"u{len(out)}.at", ["in", "low", "high"])
                u = {"in": min(u, 1 - 2**-53), "low": 0.0, "high": 1 - 2**-53}[k]
        else:
            m = size if isinstance(size, int) or env.symbolic else size[0]
            u = env.array(f"u{len(out)}_", (m,), ge=0, lt=1)
        out.append(env.np.array(u) if size is not None else u)
        return u

    env.patch(env.np.random, "random", random)
    return out


@contract("T04", [TRK + "resample_particles"], budget=120)
def systematic_resampling(env):
    """Each particle is taken once for every tooth of the comb within its share of the weight."""
    env.generations(0)
    comb(env, "systematic")


@contract("T04", [TRK + "resample_particles"], sym=False, samples=100)
def stratified_resampling(env):
    """Each particle is taken once for every jittered tooth within its share of the weight."""
    comb(env, "stratified")


def comb(env, method):
    np = env.np
    t, n, p, w = cloud(env)
    p = labelled(env, t, n)
    u = uniform(env)
    if env.choice("default", [True, False]):
        t.resample_method = method
        t.resample_particles()
    else:
        t.resample_particles(method)
    env.ensure("shape", t.particles.shape[0] == n)
    env.ensure("shape", t.particles.shape[1] == 6)
    env.ensure("weights-shape", t.weights.shape[0] == n)
    env.ensure("draws", len(u) == 1)
    W = np.sum(w)
    C = np.cumsum(w / W)
    taken(env, t, n, p, w)
    tol = 0 if env.symbolic else 1e-9
    for k in env.each(n):
        i = integer(env, t.particles[k, 0])
        x = u[0] if method == "systematic" else u[0][k]
        pos = (k + x) * (1 / n)
        env.ensure("share.upper", pos <= C[i] + tol)
        if bool(i > 0):
            env.ensure("share.lower", C[i - 1] < pos + (tol or 0))
    if not env.symbolic and method == "systematic":
        for i in range(n):
            c = (t.particles[:, 0] == i).sum()
            e = n * w[i] / W
            env.ensure("count", math.floor(e - 1e-9) <= c <= math.ceil(e + 1e-9))


def taken(env, t, n, p, w):
    for k in env.each(n):
        i = integer(env, t.particles[k, 0])
        env.ensure("particle", env.land(i >= 0, i < n))
        for j in range(6):
            env.eq("follows", t.particles[k, j], p[i, j])
        env.eq("weight-follows", t.weights[k], w[i])


@contract("T04", [TRK + "resample_particles"], sym=False, samples=200)
def residual_resampling(env):
    """At least the whole number of copies; the rest fall within shares of the remainders."""
    np = env.np
    t, n, p, w = cloud(env)
    if env.choice("exact", [False, True]):
        # weights that are whole multiples of the average, mixed with remainders
        w = np.array([env.int(f"c{i}", ge=0, le=4) for i in range(n)], dtype=float)
        w[0] += 1
        t.weights = w.copy()
    p = labelled(env, t, n)
    u = uniform(env)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t.resample_particles("residual")
    env.ensure("shape", t.particles.shape == (n, 6) and t.weights.shape == (n,))
    taken(env, t, n, p, w)
    e = n * w / w.sum()
    for x in e:
        env.assume(abs(x - round(x)) > 1e-9 or x == round(x))
    whole = np.floor(e)
    counts = np.array([(t.particles[:, 0] == i).sum() for i in range(n)])
    env.ensure("copies", bool((counts >= whole).all()))
    rest = int(n - whole.sum())
    env.ensure("draws", len(u) == 1 and len(u[0]) == rest)
    if rest:
        C = np.cumsum(e - whole) / rest
        for x in u[0]:
            env.assume(abs(C - x).min() > 1e-9)
        want = whole.copy()
        for x in u[0]:
            want[min(int((C < x).sum()), n - 1)] += 1
        env.ensure("remainders", bool((counts == want).all()))


@contract("T04", [TRK + "resample_particles"], budget=40)
def random_resampling(env):
    np = env.np
    t, n, p, w = cloud(env)
    p = labelled(env, t, n)
    calls = []

    def choice(a, size=None, replace=True, p=None):
        calls.append((a, size, replace, p))
        m = size[0] if isinstance(size, tuple) else size
        out = env.array("pick", (m,), ge=0, le=n - 1, dtype="i")
        return np.array(out)

    env.patch(np.random, "choice", choice)
    t.resample_particles("choice")
    (a, size, replace, prob), = calls
    env.ensure("replace", replace is True)
    env.ensure("shape", t.particles.shape[0] == n)
    env.ensure("probabilities", prob.shape[0] == n)
    W = np.sum(w)
    for i in env.each(n):
        env.eq("probability", prob[i] * W, w[i])
    taken(env, t, n, p, w)


# -- T02 (run time): real images and interpolation --------------------------------


def textured(env, rng, h, w):
    """A smooth random image, so that interpolation of scores is meaningful."""
    import scipy.ndimage

    return env.np.round(100 + 40 * scipy.ndimage.gaussian_filter(rng.standard_normal((h, w)), 1.2), 3)


@contract("T02", [TRK + "compute_observer_log_likelihoods", TRK + "initialize_template", TRK + "extract_tile", OBS + "sample_tile", OBS + "tile_box", OBS + "extract_tile"], sym=False, samples=60)
def image_likelihood(env):
    """With real tiles: particles at whole-pixel offsets score as a brute-force comparison."""
    np = env.np
    import datetime
    import warnings

    import scipy.ndimage

    rng = np.random.default_rng(env.int("seed", ge=0, le=10**6))
    H, W = env.int("H", ge=28, le=44), env.int("W", ge=28, le=44)
    bands = env.choice("bands", [1, 3])
    G = env.g
    d = env.choice("d", [1.0, 2.5])
    imgs = []
    for k in range(2):
        a = textured(env, rng, H, W)
        if bands > 1:
            a = np.dstack([a, textured(env, rng, H, W), textured(env, rng, H, W)])
        imgs.append(G.raster.Raster(a, x=(10, 10 + W * d), y=(50 + H * d, 50), datetime=datetime.datetime(2020, 1, 1 + k)))
    arrays = [np.array(i.array) for i in imgs]
    sigma = env.choice("sigma", [0.3, 1.0])
    obs = G.track__observer.Observer(imgs, sigma=sigma, cache=env.choice("cache", [True, False]))
    size = (env.int("w", ge=3, le=8), env.int("h", ge=3, le=8))
    t = tracker(env, [obs])
    # template about the mean particle
    c = np.array([env.real("cu", ge=11, le=15), env.real("cv", ge=11, le=15)])
    n = env.int("n", ge=1, le=6)
    shifts = [(env.int(f"su{i}", ge=-4, le=4), env.int(f"sv{i}", ge=-4, le=4)) for i in range(n)]
    if env.choice("fixed", [False, True]):
        shifts = [(1, 1)] * n

    def cloud_at(uv):
        p = np.zeros((len(uv), 6))
        p[:, 0] = 10 + uv[:, 0] * d
        p[:, 1] = 50 + H * d - uv[:, 1] * d
        return p

    t.particles = cloud_at(np.tile(c, (n, 1)))
    t.initialize_weights()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t.initialize_template(0, 0, size)
        T = t.templates[0]
        t.particles = cloud_at(c + np.array(shifts, dtype=float))
        got = t.compute_observer_log_likelihoods(0, 1)

    def gray(a):
        return a.mean(axis=2) if a.ndim > 2 else a

    def prepared(a, hist=None):
        x = gray(a)
        x = (x - x.mean()) / x.std()
        if hist is not None:
            # histogram matching: equal quantiles
            v, inv, cnt = np.unique(x, return_inverse=True, return_counts=True)
            q = np.cumsum(cnt) / x.size
            x = np.interp(q, hist[1], hist[0])[inv.reshape(x.shape)]
        v, cnt = np.unique(x, return_counts=True)
        return x - scipy.ndimage.median_filter(x, size=(5, 5)), (v, np.cumsum(cnt) / x.size)

    l, tp = np.floor(c - np.array(size) / 2 + 0.5).astype(int)
    env.ensure("template.box", list(T["box"]) == [l, tp, l + size[0], tp + size[1]])
    want, hist = prepared(arrays[0][tp:tp + size[1], l:l + size[0]])
    env.ensure("template.tile", np.allclose(T["tile"], want, atol=1e-9))
    env.ensure("template.offset", np.allclose(T["duv"], c - (l + size[0] / 2, tp + size[1] / 2)))
    env.ensure("template.source", T["obs"] == 0 and T["img"] == 0)
    env.ensure("images-unchanged", all(i.array is None or np.array_equal(i.array, a) for i, a in zip(imgs, arrays)))
    env.ensure("inside", got is not None and got.shape == (n,))
    # search area: whatever rows and columns it reads, preprocessing is over that area
    uv = c + np.array(shifts)
    lo, hi = uv.min(axis=0) - np.array(size) / 2, uv.max(axis=0) + np.array(size) / 2
    for ax, k in ((0, "ky"), (1, "kx")):
        need = 3 - (hi[ax] - lo[ax] - size[ax])
        if need > 0:
            lo[ax] -= need / 2
            hi[ax] += need / 2
    lo, hi = np.floor(lo + 1e-9).astype(int), np.ceil(hi - 1e-9).astype(int)
    search, _ = prepared(arrays[1][lo[1]:hi[1], lo[0]:hi[0]], hist)
    for (su, sv), g in zip(shifts, got):
        i, j = tp + sv - lo[1], l + su - lo[0]
        e = ((search[i:i + size[1], j:j + size[0]] - want) ** 2).mean()
        env.eq("mean-square", g * 2 * sigma**2, e, tol=1e-3)


# -- T05 observers ----------------------------------------------------------------


def observer(env, dates, **k):
    imgs = [Seen(datetime=d, number=i) for i, d in enumerate(dates)]
    return env.g.track__observer.Observer(imgs, **k), imgs


@contract("T05", [OBS + "__init__"], budget=30)
def observer_images(env):
    """Two or more images, each later than the one before."""
    n = env.choice("n", [0, 1, 2, 3, 4])
    dates = [env.date(f"t{i}") for i in range(n)]
    miss = env.choice("missing", [None] + list(range(n))) if n else None
    given = [None if i == miss else d for i, d in enumerate(dates)]
    exc, got = env.raises(lambda: observer(env, given, sigma=2, cache=False), ValueError)
    ok = n >= 2 and miss is None
    for i in range(1, n):
        ok = env.land(ok, dates[i - 1] < dates[i]) if ok is not False else False
    env.ensure("accepted", env.iff(exc is None, ok))
    if exc is None:
        o, imgs = got
        env.ensure("images", len(o.images) == n and all(a is b for a, b in zip(o.images, imgs)))
        env.ensure("datetimes", len(o.datetimes) == n)
        for i in range(n):
            env.ensure("datetimes", o.datetimes[i] == dates[i])
        env.ensure("options", o.sigma == 2 and o.cache is False)


@contract("T05", [OBS + "index"], budget=60)
def observer_index(env):
    n = env.choice("n", [2, 3, 4])
    dates = [env.date(f"t{i}") for i in range(n)]
    for i in range(1, n):
        env.assume(dates[i - 1] < dates[i])
    o, imgs = observer(env, dates)
    for i in range(n):
        env.ensure("image", o.index(imgs[i]) == i)
    exc, _ = env.raises(lambda: o.index(Seen(datetime=dates[0])), ValueError)
    env.ensure("unknown-image", exc is not None)
    x = env.date("x")
    if not env.symbolic and env.choice("exact", [True, False]):
        x = dates[0]
    how = env.choice("maxdt", ["default", "none", "given"])
    lim = env.delta("lim")
    k = {} if how == "default" else {"maxdt": None if how == "none" else lim}
    exc, got = env.raises(lambda: o.index(x, **k), ValueError)
    if how == "default":
        lim = env.dt.timedelta(0)
    near = [abs(x - d) for d in dates]
    if exc is None:
        i = integer(env, got)
        env.ensure("range", env.land(i >= 0, i < n))
        for j in range(n):
            for m in range(n):
                env.ensure("nearest", env.implies(i == j, near[j] <= near[m]))
            if how != "none":
                env.ensure("within", env.implies(i == j, near[j] <= abs(lim)))
    else:
        env.ensure("limit", how != "none")
        for j in range(n):
            env.ensure("beyond", near[j] > abs(lim))


@contract("T05", [OBS + "tile_box", "glimpse/raster.py:Grid.snap_box"], budget=60)
def tile_boxes(env):
    """Whole-pixel box of the given size, centred within half a pixel; off-image boxes are rejected."""
    np = env.np
    W, H = env.int("W", ge=1, le=50), env.int("H", ge=1, le=50)
    w, h = env.int("w", ge=1, le=30), env.int("h", ge=1, le=30)
    u, v = env.real("u", ge=0, le=50), env.real("v", ge=0, le=50)
    if not env.symbolic:
        k = env.choice("round", [1, 2, 0])
        u, v = (round(u * k) / k, round(v * k) / k) if k else (u, v)
    o = object.__new__(env.g.track__observer.Observer)
    o.images = [None, Seen(size=np.array([W, H]))]
    exc, box = env.raises(lambda: o.tile_box(np.array([u, v]), (w, h), 1), IndexError)
    inside = env.land(u * 2 >= w, v * 2 >= h, u * 2 + w <= 2 * W, v * 2 + h <= 2 * H)
    env.ensure("accepted", env.iff(exc is None, inside))
    if exc is None:
        l, t, r, b = [integer(env, x) for x in box]
        env.ensure("size", env.land(r - l == w, b - t == h))
        env.ensure("inside", env.land(l >= 0, t >= 0, r <= W, b <= H))
        for c, x in ((l + r, u), (t + b, v)):
            env.ensure("centred", env.land(c - 2 * x <= 1, 2 * x - c <= 1))


def polynomial(env, name, deg):
    c = {(i, j): env.real(f"{name}{i}{j}", ge=-1, le=1) for i in range(deg + 1) for j in range(deg + 1)}

    def f(u, v):
        out = 0
        for (i, j), a in c.items():
            out = out + a * (u / 4) ** i * (v / 4) ** j
        return out

    return f


@contract("T05", [OBS + "shift_tile"], sym=False, samples=120)
def tile_shifts(env):
    """A shifted tile holds the tile's own interpolation at the shifted centres; the tile is kept."""
    np = env.np
    deg = env.choice("k", [1, 2, 3])
    h, w = env.int("h", ge=deg + 1, le=8), env.int("w", ge=deg + 1, le=8)
    bands = env.choice("bands", [None, 1, 3])
    f = [polynomial(env, f"f{b}", deg) for b in range(bands or 1)]
    cv, cu = np.meshgrid(np.arange(0.5, h), np.arange(0.5, w), indexing="ij")
    tile = np.dstack([g(cu, cv) for g in f])
    whole = env.choice("dtype", ["f8", "f4", "u1", "i2"])
    if whole[0] != "f":
        f = [lambda u, v, b=b: 10.0 * u + 7 * v + b for b in range(bands or 1)]
        tile = np.dstack([np.floor(g(cu, cv)) for g in f])
        off = tile[0, 0] - [g(0.5, 0.5) for g in f]
        f = [lambda u, v, g=g, o=o: g(u, v) + o for g, o in zip(f, off)]
        tile = np.dstack([g(cu, cv) for g in f])
    tile = tile.astype(whole)
    if bands is None:
        tile = tile[:, :, 0]
    keep = tile.copy()
    du, dv = env.real("du", ge=-0.8, le=0.8), env.real("dv", ge=-0.8, le=0.8)
    if env.choice("still", [False, True]):
        du = dv = 0.0
    o = object.__new__(env.g.track__observer.Observer)
    exc, out = env.raises(lambda: o.shift_tile(tile, (du, dv), kx=deg, ky=deg), ValueError)
    env.ensure("limit", (exc is not None) == (abs(du) > 0.5 or abs(dv) > 0.5))
    env.ensure("tile-kept", np.array_equal(tile, keep))
    if exc is not None:
        return
    # splines hold their boundary value beyond the outer centres
    v, u = np.clip(cv + dv, 0.5, h - 0.5), np.clip(cu + du, 0.5, w - 0.5)
    want = np.dstack([g(u, v) for g in f])
    if (bands or 1) == 1:
        want = want[:, :, 0]
    env.ensure("shape", out.shape == want.shape, f"{out.shape}")
    env.ensure("values", np.allclose(out, want, rtol=1e-4, atol=1e-4), f"{np.abs(out - want).max()}")


@contract("T05", [OBS + "sample_tile"], sym=False, samples=150)
def tile_samples(env):
    """Values interpolated between cell centres, for any box (cell size)."""
    np = env.np
    deg = env.choice("k", [1, 2, 3])
    h, w = env.int("h", ge=deg + 1, le=8), env.int("w", ge=deg + 1, le=8)
    f = polynomial(env, "f", deg)
    l, t = env.real("l", ge=-9, le=9), env.real("t", ge=-9, le=9)
    whole = env.choice("cells", ["unit", "any"])
    du = 1.0 if whole == "unit" else env.real("cw", ge=0.2, le=4)
    dv = 1.0 if whole == "unit" else env.real("ch", ge=0.2, le=4)
    box = np.array([l, t, l + w * du, t + h * dv])
    cu, cv = np.arange(0.5, w), np.arange(0.5, h)
    tile = f(cu[None, :], cv[:, None])
    n = env.int("n", ge=1, le=5)
    x = np.array([env.real(f"x{i}", ge=-0.1, le=1.1) * w for i in range(n)])
    y = np.array([env.real(f"y{i}", ge=-0.1, le=1.1) * h for i in range(n)])
    grid = env.choice("grid", [False, True])
    if env.choice("inside", [True, True, False]):
        x, y = np.clip(x, 0, w), np.clip(y, 0, h)
    if grid:
        x, y = np.sort(x), np.sort(y)
        uv = (l + x * du, t + y * dv)
    else:
        uv = np.column_stack((l + x * du, t + y * dv))
    o = object.__new__(env.g.track__observer.Observer)
    exc, out = env.raises(lambda: o.sample_tile(uv, tile=tile, box=box, grid=grid, kx=deg, ky=deg), ValueError)
    us, vs = (uv[0], uv[1]) if grid else (uv[:, 0], uv[:, 1])
    inside = ((us >= box[0]) & (us <= box[2])).all() and ((vs >= box[1]) & (vs <= box[3])).all()
    env.ensure("outside-rejected", (exc is None) == bool(inside))
    if exc is not None:
        return
    x, y = np.clip(x, 0.5, w - 0.5), np.clip(y, 0.5, h - 0.5)
    want = f(x[None, :], y[:, None]) if grid else f(x, y)
    env.ensure("values", out.shape == want.shape and np.allclose(out, want, rtol=1e-5, atol=1e-5), f"{out} {want}")


@contract("T05", [OBS + "plot_tile"], budget=20)
def tile_extent(env):
    np = env.np
    w, h = env.size("w"), env.size("h")
    tile = env.array("tile", (h, w))
    o = object.__new__(env.g.track__observer.Observer)
    calls = []
    ax = Seen(imshow=lambda a, **k: calls.append((a, k)))
    box = vec(env, "box", 4)
    given = env.choice("box", [True, False])
    o.plot_tile(tile, axes=ax, **({"box": box} if given else {}))
    (a, k), = calls
    env.ensure("tile", a is tile and k["origin"] == "upper")
    l, t, r, b = box if given else (0, 0, w, h)
    left, right, bottom, top = k["extent"]
    env.ensure("extent", env.land(left == l, right == r, bottom == b, top == t))


@contract("T05", [OBS + "subset", OBS + "split"], sym=False, samples=200)
def observer_splits(env):
    """The parts hold every image in order, consecutive parts sharing as many images as asked."""
    np = env.np
    dt = env.dt
    k = env.int("k", ge=4, le=12)
    step = env.choice("step", [1, 10, 333333, 10**6, 3600 * 10**6, 7 * 86400 * 10**6])
    gaps = [env.int(f"g{i}", ge=1, le=3) for i in range(k)]
    at = np.cumsum(gaps) * step + env.choice("odd", [0, 1])
    dates = [dt.datetime(2020, 1, 1)]
    dates += [dates[0] + dt.timedelta(microseconds=int(x)) for x in at[:-1]]
    sigma, cache = 0.5, env.choice("cache", [True, False])
    o, imgs = observer(env, dates, sigma=sigma, cache=cache)
    overlap = env.choice("overlap", [0, 1, 2, 3])
    if env.choice("breaks", [False, True]):
        m = env.int("m", ge=1, le=3)
        cuts = sorted({env.int(f"b{i}", ge=1, le=k - 2) for i in range(m)})
        given = [dates[c] + dt.timedelta(microseconds=env.choice(f"after{c}", [0, max(step // 2, 1)]) % (step or 1)) for c in cuts]
    else:
        given = env.choice("n", [1, 2, 3, 7])
    exc, parts = env.raises(lambda: o.split(given, overlap=overlap), ValueError)
    if exc is not None:
        # some part would hold fewer than two images
        n = given if isinstance(given, int) else len(given) + 1
        if isinstance(given, int):
            span = dates[-1] - dates[0]
            edges = [dates[0] + span * i / n for i in range(n)] + [dates[-1]]
        else:
            edges = [dates[0]] + list(given) + [dates[-1]]
        counts = [sum(a < d <= b for d in dates) for a, b in zip(edges, edges[1:])]
        env.ensure("too-few", min(counts) <= 2 and n > 1)
        return
    seen = []
    for i, p in enumerate(parts):
        env.ensure("type", isinstance(p, env.g.track__observer.Observer) and p.sigma == sigma and p.cache == cache)
        ids = [im.number for im in p.images]
        env.ensure("order", ids == list(range(ids[0], ids[-1] + 1)))
        env.ensure("dates", list(p.datetimes) == [dates[j] for j in ids])
        if i == 0:
            env.ensure("first", ids[0] == 0)
        else:
            prev = seen[-1]
            env.ensure("overlap", ids[0] == prev[-1] + 1 - min(overlap, len(prev)), f"{seen} {ids}")
        seen.append(ids)
    env.ensure("last", seen[-1][-1] == k - 1, f"{seen} of {k}")
    env.ensure("original-kept", len(o.images) == k and all(a is b for a, b in zip(o.images, imgs)))
    if isinstance(given, int):
        env.ensure("count", len(parts) == given, f"{len(parts)} {given}")
        span = dates[-1] - dates[0]
        tol = dt.timedelta(microseconds=2)
        for i, ids in enumerate(seen):
            env.ensure("equal-lengths", dates[ids[-1]] <= dates[0] + span * (i + 1) / given + tol)
            if i + 1 < len(seen):
                env.ensure("equal-lengths", dates[ids[-1] + 1] >= dates[0] + span * (i + 1) / given - tol)
    lo, hi = env.int("lo", ge=0, le=k - 2), env.int("hi", ge=1, le=k - 1)
    if lo < hi:
        s = o.subset(start=dates[lo], end=dates[hi])
        env.ensure("subset", [im.number for im in s.images] == list(range(lo, hi + 1)) and s.sigma == sigma and s.cache == cache)


# -- T06 tracking through time ----------------------------------------------------


def hour(env, h):
    return env.dt.datetime(2020, 1, 1) + env.dt.timedelta(seconds=round(3600 * h))


def watchers(env, m):
    """Observers stand-ins with arbitrary image times (hours)."""
    np = env.np
    out, hours = [], []
    for o in range(m):
        k = env.int(f"k{o}", ge=2, le=4)
        hs = sorted({env.int(f"h{o}_{i}", ge=0, le=8) + env.choice(f"half{o}_{i}", [0, 0, 0.5]) for i in range(k)})
        if len(hs) < 2:
            hs = [hs[0], hs[0] + 1]
        hours.append(hs)
        cached = []
        out.append(Seen(datetimes=np.array([hour(env, h) for h in hs]), images=[Seen(number=i) for i in range(len(hs))], cache=env.choice(f"cache{o}", [True, False]), cached=cached, cache_images=lambda index, c=cached: c.append(list(index))))
    return out, hours


def matches(hs, t, lim):
    """Index of the nearest of `hs` (first if tied) to `t` within `lim`."""
    i = min(range(len(hs)), key=lambda i: (abs(hs[i] - t), i))
    return i if abs(hs[i] - t) <= lim else None


@contract("T06", [TRK + "parse_datetimes", TRK + "match_datetimes", TRK + "datetimes"], sym=False, samples=200)
def tracking_datetimes(env):
    """Given times in order, without repeats and times no observer has an image for."""
    import warnings

    np = env.np
    m = env.choice("m", [1, 2, 3])
    obs, hours = watchers(env, m)
    t = tracker(env, obs)
    all_ = sorted({h for hs in hours for h in hs})
    env.ensure("default", list(t.datetimes) == [hour(env, h) for h in all_])
    k = env.int("k", ge=1, le=6)
    ts = [env.int(f"t{i}", ge=-1, le=9) + env.choice(f"thalf{i}", [0, 0, 0.25]) for i in range(k)]
    way = env.choice("order", ["up", "down", "any"])
    if way != "any":
        ts = sorted(ts, reverse=way == "down")
    lim = env.choice("maxdt", [0, 0.25, 0.5, 1])
    sign = env.choice("sign", [1, -1])
    maxdt = env.dt.timedelta(seconds=3600 * lim * sign)
    given = [hour(env, h) for h in ts]
    if env.choice("array", [True, False]):
        given = np.array(given)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        kw = {} if lim == 0 and sign == 1 else {"maxdt": maxdt}
        exc, got = env.raises(lambda: t.parse_datetimes(given, **kw), ValueError)
    mono = all(a <= b for a, b in zip(ts, ts[1:])) or all(a >= b for a, b in zip(ts, ts[1:]))
    uniq = [h for i, h in enumerate(ts) if i == 0 or h != ts[i - 1]]
    keep = [h for h in uniq if any(matches(hs, h, lim) is not None for hs in hours)]
    env.ensure("rejected", (exc is not None) == (not mono or len(keep) < 2), f"{ts} {keep} {exc}")
    env.ensure("input-kept", list(given) == [hour(env, h) for h in ts])
    if exc is not None:
        return
    env.ensure("selected", list(got) == [hour(env, h) for h in keep])
    env.ensure("warned", len(caught) == (len(uniq) < len(ts)) + (len(keep) < len(uniq)))
    grid = t.match_datetimes([hour(env, h) for h in ts], **kw)
    env.ensure("grid", grid.shape == (k, m))
    for i, h in enumerate(ts):
        for o, hs in enumerate(hours):
            env.ensure("nearest", grid[i, o] == matches(hs, h, lim), f"{grid[i, o]} {h} {hs}")


@contract("T06", [TRK + "match_datetimes", "glimpse/helpers.py:pairwise_distance_datetimes"], budget=150, paths=4000, shards=4, samples=200, bounded="at most 3 times, 2 observers and 3 images each, in any order")
def matched_times(env):
    """Every time is matched to a nearest image of each observer within the limit, or to none."""
    np = env.np
    m = env.choice("m", [1, 2])
    dates = [[env.date(f"o{o}_{i}") for i in range(env.choice(f"n{o}", [1, 2, 3] if m == 1 else [2]))] for o in range(m)]
    k = env.choice("k", [1, 2, 3] if m == 1 or not env.symbolic else [2])
    ts = [env.date(f"t{i}") for i in range(k)]
    t = tracker(env, [Seen(datetimes=np.array(d)) for d in dates])
    lim = env.delta("lim")
    if not env.symbolic:
        lim = env.choice("scale", [0, 1, 1000]) * lim
    got = t.match_datetimes(np.array(ts) if env.choice("array", [True, False]) else ts, maxdt=lim)
    env.ensure("shape", got.shape == (k, m))
    for i in range(k):
        for o in range(m):
            far = [abs(ts[i] - d) for d in dates[o]]
            if got[i, o] is None:
                for d in far:
                    env.ensure("beyond", d > abs(lim))
                continue
            g = integer(env, got[i, o])
            env.ensure("range", env.land(g >= 0, g < len(far)))
            for j, d in enumerate(far):
                for e in far:
                    env.ensure("nearest", env.implies(g == j, d <= e))
                env.ensure("within", env.implies(g == j, d <= abs(lim)))


@contract("T06", [TRK + "parse_datetimes", TRK + "datetimes", "glimpse/helpers.py:pairwise_distance_datetimes"], budget=200, paths=6000, shards=8, samples=200, bounded="at most 4 times, 3 image times")
def parsed_times(env):
    """Monotonic times are kept in order, once each, exactly when an image is within the limit."""
    import warnings

    np = env.np
    dates = [env.date(f"o{i}") for i in range(env.choice("n", [1, 2, 3]))]
    cut = env.choice("observers", [1, 2]) if len(dates) > 1 else 1
    parts = [dates] if cut == 1 else [dates[:1], dates[1:]]
    k = env.choice("k", ([2, 3, 4], [2, 3, 4], [2, 3])[len(dates) - 1])
    ts = [env.date(f"t{i}") for i in range(k)]
    if not env.symbolic:
        way = env.choice("order", ["up", "down", "repeat", "any"])
        ts = sorted(ts, reverse=way == "down") if way != "any" else ts
        if way == "repeat":
            ts[1] = ts[0]
    lim = env.delta("lim")
    if not env.symbolic:
        lim = env.choice("scale", [0, 1, 100, 10000]) * lim
    t = tracker(env, [Seen(datetimes=np.array(d)) for d in parts])
    given = np.array(ts) if env.choice("array", [True, False]) else list(ts)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        exc, got = env.raises(lambda: t.parse_datetimes(given, maxdt=lim), ValueError)
    up = env.land(*[a <= b for a, b in zip(ts, ts[1:])])
    down = env.land(*[a >= b for a, b in zip(ts, ts[1:])])
    for a, b in zip(given, ts):
        env.ensure("frame.times", a == b)
    repeats = any([bool(a == b) for a, b in zip(ts, ts[1:])])
    once = [x for i, x in enumerate(ts) if i == 0 or bool(x != ts[i - 1])]
    kept = [x for x in once if bool(env.lor(*[abs(x - d) <= abs(lim) for d in dates]))]
    env.ensure("rejected", env.iff(exc is not None, env.lor(env.lnot(env.lor(up, down)), len(kept) < 2)))
    if exc is not None:
        return
    env.ensure("count", len(got) == len(kept))
    for a, b in zip(got, kept):
        env.ensure("kept", a == b)
    env.ensure("warned", len(caught) == repeats + (len(kept) < len(once)))


class Mover:
    """Motion model stand-in with known particles."""

    def __init__(self, env, name, n, unit, log):
        np = env.np
        self.n, self.time_unit, self.log, self.name = n, unit, log, name
        self.start = env.array(name, (n, 6))
        self.fail = env.choice(name + ".fail", [None, None, None, 0, 1, 2, "nan"])
        self.warn = env.int(name + ".warn", ge=0, le=3) % 3
        self.steps = 0
        self.np = np

    def initialize_particles(self):
        self.steps = 0
        self.log.append(("start", self.name))
        if self.fail == 0:
            raise KeyError("start")
        return self.start.copy()

    def evolve_particles(self, particles, dt):
        import warnings

        self.steps += 1
        self.log.append(("evolve", dt))
        if self.steps <= self.warn:
            warnings.warn(f"step {self.steps}")
        if self.fail == self.steps:
            raise RuntimeError("evolve")
        if self.fail == "nan" and self.steps == 2:
            particles[0, 0] = self.np.nan
        particles[:, 0:3] += particles[:, 3:6] * (dt.total_seconds() / 3600)

    def compute_log_likelihoods(self, particles):
        return None


def likelihood(np, particles, o, img):
    return 0.1 * (particles[:, 0] - o) ** 2 / (1 + particles[:, 0] ** 2) + 0.05 * img


def tracking(env, t, log):
    """Replace the image work of a tracker by stand-ins that record it."""
    np = env.np

    def template(obs, img, tile_size):
        assert img is not None, "template without image"
        log.append(("template", int(obs), img, tuple(tile_size), t.particle_mean.copy()))

    def score(obs, img):
        if img is None:
            return None
        log.append(("score", obs, img))
        return likelihood(np, t.particles, obs, img)

    t.initialize_template = template
    t.compute_observer_log_likelihoods = score
    t.resample_particles = lambda method=None: log.append(("resample",))


def expected(env, model, hours, ts, lim, mask):
    """What a track must record: means, moments, events and the step of failure."""
    np = env.np
    grid = [[matches(hs, h, lim) for hs in hours] for h in ts]
    used = [o for o in range(len(hours)) if mask[o]]
    seen = [i for i in range(len(ts)) if any(grid[i][o] is not None for o in used)]
    first, last = (seen[0], seen[-1]) if seen else (0, len(ts) - 1)
    events, means, covs, clouds, weights = [], {}, {}, {}, {}
    p = w = None
    started = set()
    steps = 0
    for i in range(first, last + 1):
        if i == first:
            events.append(("start", model.name))
            if model.fail == 0:
                return events, means, covs, clouds, weights, KeyError
            p, w = model.start.copy(), np.ones(model.n)
        else:
            steps += 1
            dt = hour(env, ts[i]) - hour(env, ts[i - 1])
            events.append(("evolve", dt))
            if model.fail == steps:
                return events, means, covs, clouds, weights, RuntimeError
            if model.fail == "nan" and steps == 2:
                return events, means, covs, clouds, weights, ValueError
            p[:, 0:3] += p[:, 3:6] * (dt.total_seconds() / 3600)
        for o in used:
            if grid[i][o] is not None and o not in started:
                started.add(o)
                events.append(("template", o, grid[i][o], (7, 5), np.average(p, weights=w, axis=0)))
        if i > first:
            ll = [(o, grid[i][o]) for o in used if grid[i][o] is not None]
            for o, g in ll:
                events.append(("score", o, g))
            if ll:
                w = np.exp(-sum(likelihood(np, p, o, g) for o, g in ll))
            events.append(("resample",))
        means[i] = np.average(p, weights=w, axis=0)
        d = p - means[i]
        covs[i] = (d * w[:, None]).T @ d / w.sum()
        clouds[i], weights[i] = p.copy(), w.copy()
    return events, means, covs, clouds, weights, None


@contract("T06", [TRK + "track", TRK + "reset", TRS + "__init__", TRS + "success"], sym=False, samples=250)
def tracking_steps(env):
    """Every step of every track: start, evolve, template, weigh, resample and record, in order."""
    import warnings

    np = env.np
    m = env.choice("m", [1, 2, 3])
    obs, hours = watchers(env, m)
    t = tracker(env, obs)
    log = []
    tracking(env, t, log)
    ntracks = env.choice("tracks", [1, 2, 3])
    n = env.int("n", ge=1, le=4)
    unit = env.dt.timedelta(hours=1)
    models = [Mover(env, f"model{k}_", n, unit, log) for k in range(ntracks)]
    mask = None
    if env.choice("mask", [False, True]):
        mask = np.array([[env.choice(f"mask{k}_{o}", [True, True, False]) for o in range(m)] for k in range(ntracks)])
    kw = {"tile_size": (7, 5)}
    lim = 0
    if env.choice("default", [True, False]):
        ts = sorted({h for hs in hours for h in hs})
    else:
        k = env.int("k", ge=2, le=5)
        lim = env.choice("maxdt", [0, 0.5, 1])
        ts = sorted({env.int(f"t{i}", ge=0, le=8) for i in range(k)}, reverse=env.choice("down", [False, True]))
        ts = [h for h in ts if any(matches(hs, h, lim) is not None for hs in hours)]
        if len(ts) < 2:
            return
        kw.update(datetimes=[hour(env, h) for h in ts], maxdt=env.dt.timedelta(hours=lim))
    cov = env.choice("covariances", [False, True])
    back = env.choice("return", [None, "particles", "reduce"])
    if cov:
        kw["return_covariances"] = True
    if back == "particles":
        kw["return_particles"] = True
    if back == "reduce":
        kw["reduce_particles"] = lambda p, w: (p.copy(), w.copy())
    if mask is not None:
        kw["observer_mask"] = mask
    masks = np.ones((ntracks, m), dtype=bool) if mask is None else mask
    if not all(any(matches(hours[o], h, lim) is not None for h in ts for o in range(m) if masks[k, o]) for k in range(ntracks)):
        return
    want = [expected(env, mo, hours, ts, lim, masks[k]) for k, mo in enumerate(models)]
    t.templates = ["old"]
    with warnings.catch_warnings():
        warnings.simplefilter("always")
        exc, out = env.raises(lambda: t.track(models, **kw), (Exception))
    if ntracks == 1 and want[0][-1]:
        env.ensure("error-raised", type(exc) is want[0][-1], repr(exc))
        return
    env.ensure("errors-captured", exc is None, repr(exc))
    if exc is not None:
        return
    events = [e for w in want for e in w[0]]
    env.ensure("events.count", len(log) == len(events), f"{[e[:3] for e in log]} vs {[e[:3] for e in events]}")
    for a, b in zip(log, events):
        same = a[:4] == b[:4] and (len(a) < 5 or np.allclose(a[4], b[4]))
        env.ensure("event", same, f"{a} vs {b}")
    T = len(ts)
    env.ensure("datetimes", list(out.datetimes) == [hour(env, h) for h in ts])
    env.ensure("unit", out.time_unit == unit and out.tracker is t)
    env.ensure("images", out.images.shape == (T, m) and all(out.images[i, o] == matches(hours[o], ts[i], lim) for i in range(T) for o in range(m)))
    env.ensure("params", out.params["motion_models"] is models and out.params["tile_size"] == (7, 5))
    env.ensure("shape", out.means.shape == (ntracks, T, 6))
    env.ensure("success", [bool(s) for s in out.success] == [w[-1] is None for w in want])
    env.ensure("one-per-track", out.errors.shape == (ntracks,) and out.warnings.shape == (ntracks,))
    env.ensure("spread-kind", (out.covariances is None) != cov and (out.sigmas is None) == cov)
    env.ensure("particles-kind", (out.particles is None) == (back != "particles"))
    for k, (_, means, covs, clouds, weights, err) in enumerate(want):
        if err is not None:
            env.ensure("error-kind", type(out.errors[k]) is err, repr(out.errors[k]))
        else:
            env.ensure("error-kind", out.errors[k] is None)
            steps = len(means) - 1
            got = out.warnings[k]
            env.ensure("warnings", len(got or ()) == min(models[k].warn, steps), f"{got} {steps}")
        for i in range(T):
            if i in means:
                env.ensure("mean", np.allclose(out.means[k, i], means[i]))
                if cov:
                    env.ensure("covariance", np.allclose(out.covariances[k, i], covs[i], atol=1e-9))
                else:
                    env.ensure("sigma", np.allclose(out.sigmas[k, i] ** 2, np.diag(covs[i]), atol=1e-9))
            else:
                env.ensure("not-tracked", np.isnan(out.means[k, i]).all())
                env.ensure("not-tracked", np.isnan((out.covariances if cov else out.sigmas)[k, i]).all())
            P = W = None
            if back == "particles":
                P, W = out.particles[k, i], out.weights[k, i]
            elif back == "reduce":
                P, W = out.reduced[k][0][i], out.reduced[k][1][i]
            if P is not None:
                ok = np.allclose(P, clouds[i]) and np.allclose(W, weights[i]) if i in means else np.isnan(P).all() and np.isnan(W).all()
                env.ensure("cloud", ok)
    for o, ob in enumerate(obs):
        idx = [matches(hours[o], h, lim) for h in ts]
        idx = [i for i in idx if i is not None]
        env.ensure("cached", ob.cached == ([idx] if ntracks > 1 and ob.cache else []))


class Pool:
    """Stand-in for a pool of processes: maps in order."""

    def __init__(self, np=None):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, func, sequence, reduce=None, star=False, **k):
        out = []
        for x in sequence:
            r = func(*x) if star else func(x)
            out.append(reduce(r) if reduce else r)
        return out


@contract("T06", [TRK + "track", TRK + "reset"], budget=250, paths=20000, shards=8, samples=150, bounded="at most 3 times, 2 observers, 2 tracks and 2 particles (any values, times, images and masks)")
def filter_steps(env):
    """Each step calls the parts of the filter in order and records their results in its place."""
    np = env.np
    T = env.choice("T", [2, 3])
    m = env.choice("m", [1, 2] if T == 2 or not env.symbolic else [1, 2])
    ntracks = env.choice("tracks", [1, 2])
    n = 2
    some = [[env.choice(f"has{i}{o}", [True, False]) for o in range(m)] for i in range(T)]
    images = [[10 * i + o if some[i][o] else None for o in range(m)] for i in range(T)]
    masks = [[True] * m for _ in range(ntracks)]
    if env.choice("mask", [False, True]):
        # (the last track uses the last observer only)
        masks[-1] = [False] * (m - 1) + [True]
    for k in range(ntracks):
        if not any(some[i][o] and masks[k][o] for i in range(T) for o in range(m)):
            return
    grid = np.array([[0] * m] * T, dtype=object)
    for i in range(T):
        for o in range(m):
            grid[i, o] = images[i][o]
    ts = [env.date(f"t{i}") for i in range(T)]
    fail = env.choice("fail", [None, 0, 1] if ntracks == 2 else [None])
    cov = env.choice("cov", [False, True])
    back = env.choice("return", [None, "particles", "reduce"]) if not cov else None
    log, cached = [], []
    state = {"k": -1, "c": 0}

    def draw(shape=(n, 6)):
        state["c"] += 1
        return env.array(f"v{state['c']}", shape)

    class Model:
        def __init__(self, k):
            self.k, self.n, self.time_unit = k, n, unit

        def initialize_particles(self):
            log.append(("start", self.k))
            if self.k == 0 and fail == 0:
                raise KeyError("start")
            return draw()

        def evolve_particles(self, particles, dt):
            log.append(("evolve", self.k, dt))
            if self.k == 0 and fail == 1:
                raise RuntimeError("evolve")
            particles[...] = draw()

    unit = env.delta("unit", gt=0)
    models = [Model(k) for k in range(ntracks)]

    moments = {}

    def moment(name, shape):
        """A summary of the particles: the same until they (or their weights) change."""
        key = name, len([e for e in log if e[0] not in ("test", "template")])
        if key not in moments:
            moments[key] = draw(shape)
            moments["cloud", key[1]] = np.copy(t.particles), np.copy(t.weights)
        return np.copy(moments[key])

    def template(obs, img, tile_size):
        log.append(("template", int(obs), img, tuple(tile_size)))

    def weigh(imgs, motion_model=None):
        log.append(("weigh", list(imgs), motion_model))
        t.weights = draw((n,))

    def resample():
        log.append(("resample",))
        t.particles, t.weights = draw(), draw((n,))

    def weights():
        log.append(("weights",))
        t.weights = draw((n,))

    caches = [env.choice(f"cache{o}", [True, False]) for o in range(m)] if ntracks == 2 and fail is None else [True] * m
    obs = [Seen(cache=caches[o], cache_images=lambda index, o=o: cached.append((o, list(index)))) for o in range(m)]
    t = instance(
        env.g.track__tracker.Tracker, observers=obs, viewshed=None, templates=["old"], particles="old", weights="old",
        parse_datetimes=lambda datetimes, maxdt: datetimes, match_datetimes=lambda datetimes, maxdt: grid,
        test_particles=lambda: log.append(("test",)), initialize_weights=weights, initialize_template=template,
        update_weights=weigh, resample_particles=resample,
        particle_mean=property(lambda s: moment("mean", (6,))), particle_covariance=property(lambda s: moment("cov", (6, 6))),
        compute_particle_sigma=lambda mean=None: moment("sigma", (6,)),
    )
    for name in ("parse_datetimes", "match_datetimes", "test_particles", "initialize_weights", "initialize_template", "update_weights", "resample_particles", "compute_particle_sigma"):
        setattr(t, name, type(t).__dict__[name])
    env.patch(env.g.config, "backend", Pool)
    env.patch(env.g.helpers, "_progress_bar", lambda max: Seen(next=lambda: None, finish=lambda: None))
    kw = {"datetimes": np.array(ts), "tile_size": (7, 5)}
    if any(not all(x) for x in masks):
        kw["observer_mask"] = np.array(masks)
    if cov:
        kw["return_covariances"] = True
    if back == "particles":
        kw["return_particles"] = True
    if back == "reduce":
        kw["reduce_particles"] = lambda p, w: (p, w)
    out = t.track(models, **kw)
    # the caches hold the matched images of observers that ask for it
    want = [(o, [images[i][o] for i in range(T) if some[i][o]]) for o in range(m) if caches[o]] if ntracks > 1 else []
    env.ensure("cached", cached == want, f"{cached} {want}")
    env.ensure("shape", env.land(out.means.shape[0] == ntracks, out.means.shape[1] == T, out.means.shape[2] == 6))
    env.ensure("kinds", (out.sigmas is None) == cov and (out.covariances is None) != cov and (out.particles is None) == (back != "particles"))
    env.ensure("same-images", all(out.images[i, o] == images[i][o] for i in range(T) for o in range(m)))
    for a, b in zip(out.datetimes, ts):
        env.ensure("times", a == b)
    env.ensure("unit", out.time_unit == unit)
    heads = [j for j, e in enumerate(log) if e[0] in ("start", "evolve")] + [len(log)]
    chunks = [log[a:b] for a, b in zip(heads, heads[1:])]
    changes = 0
    for k in range(ntracks):
        seen = [i for i in range(T) if any(some[i][o] and masks[k][o] for o in range(m))]
        first, last = seen[0], seen[-1]
        got, wrong, clouds = {}, None, {}
        started = set()
        for i in range(first, last + 1):
            env.ensure("step", bool(chunks))
            step = chunks.pop(0) if chunks else [("none", None, None)]
            env.ensure("first-or-next", step[0][:2] == ("start" if i == first else "evolve", k), f"{step[0]} in step {i}")
            if i > first:
                env.ensure("interval", step[0][2] == ts[i] - ts[i - 1])
            changes += len([e for e in step if e[0] not in ("test", "template")])
            if k == 0 and fail == i - first:
                wrong = (KeyError, RuntimeError)[i - first]
                env.ensure("stopped", len(step) == 1)
                break
            names = [e[0] for e in step]
            env.ensure("tested", names.index("test") < min([len(names)] + [names.index(x) for x in ("template", "weigh") if x in names]) if "test" in names else False)
            fresh = [o for o in range(m) if masks[k][o] and some[i][o] and o not in started]
            started |= set(fresh)
            made = [e for e in step if e[0] == "template"]
            env.ensure("templates", sorted(e[1] for e in made) == fresh and all(e[2:] == (images[i][e[1]], (7, 5)) for e in made))
            steps = [x for x in names[1:] if x not in ("test", "template")]
            env.ensure("order", steps == (["weights"] if i == first else ["weigh", "resample"]), f"{names}")
            if made:
                # templates need weights, and likelihoods need templates
                at = [j for j, x in enumerate(names) if x == "template"]
                env.ensure("templates-when", at[0] > names.index("weights") if i == first else at[-1] < names.index("weigh"))
            for e in step:
                if e[0] == "weigh":
                    env.ensure("weighed", e[1] == [images[i][o] if masks[k][o] else None for o in range(m)] and e[2] is models[k])
            got[i] = moments.get(("mean", changes)), moments.get(("cov" if cov else "sigma", changes))
            clouds[i] = moments.get(("cloud", changes))
            env.ensure("summarized", got[i][0] is not None and got[i][1] is not None)
        env.ensure("error", type(out.errors[k]) is wrong if wrong else out.errors is None or out.errors[k] is None)
        spread = out.covariances if cov else out.sigmas
        for i in range(T):
            if i in got and any(x is None for x in got[i]):
                continue
            for c in range(6):
                if i in got:
                    env.eq("mean", out.means[k, i, c], got[i][0][c])
                    if cov:
                        for e in range(6):
                            env.eq("covariance", spread[k, i, c, e], got[i][1][c, e])
                    else:
                        env.eq("sigma", spread[k, i, c], got[i][1][c])
                else:
                    env.ensure("not-tracked", np.isnan(out.means[k, i, c]))
                    env.ensure("not-tracked", np.isnan(spread[k, i, c, c] if cov else spread[k, i, c]))
            if back:
                P, W = (out.particles[k], out.weights[k]) if back == "particles" else out.reduced[k]
                for q in range(n):
                    if i in got:
                        env.eq("weight", W[i][q], clouds[i][1][q])
                        for c in range(6):
                            env.eq("particle", P[i][q, c], clouds[i][0][q, c])
                    else:
                        env.ensure("not-tracked", env.land(np.isnan(W[i][q]), np.isnan(P[i][q, 0])))
    env.ensure("no-more-steps", not chunks)


@contract("T06", [TRK + "track"], sym=False, samples=10)
def tracking_options(env):
    """Processes only change how tracks are computed; models must agree on the time unit."""
    import warnings

    np = env.np
    m = env.choice("m", [1, 2])
    obs, hours = watchers(env, m)
    unit = env.dt.timedelta(hours=1)
    n = env.int("n", ge=1, le=4)
    got = []
    models = [Mover(env, f"model{k}_", n, unit, []) for k in range(3)]
    for par in (False, 2):
        t = tracker(env, obs)
        tracking(env, t, [])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got.append(t.track(models, parallel=par, return_particles=True))
    a, b = got
    for name in ("means", "sigmas", "particles", "weights"):
        env.ensure("parallel", np.array_equal(getattr(a, name), getattr(b, name), equal_nan=True), name)
    env.ensure("parallel", [type(x) for x in a.errors] == [type(x) for x in b.errors])
    models[env.choice("odd", [0, 1, 2])].time_unit = unit * 2
    exc, _ = env.raises(lambda: t.track(models), ValueError)
    env.ensure("time-units", exc is not None)


# -- T07 tracks -------------------------------------------------------------------


@contract("T07", [TRS + "__init__", TRS + "xyz", TRS + "vxyz", TRS + "xyz_sigma", TRS + "vxyz_sigma"], budget=60)
def track_moments(env):
    """Positions, velocities and their spreads, from deviations or from covariances."""
    np = env.np
    n, m = env.size("n"), env.size("m")
    means = env.array("means", (n, m, 6))
    how = env.choice("spread", ["sigmas", "covariances", "none"])
    S = env.array("sigmas", (n, m, 6), ge=0)
    k = {}
    if how == "sigmas":
        k["sigmas"] = S
    elif how == "covariances":
        C = env.array("cov", (n, m, 6, 6), ge=0)
        k["covariances"] = C
    date = env.date("t")
    t = env.g.track__tracks.Tracks(datetimes=[date], time_unit=env.delta("unit"), means=means, **k)
    env.ensure("datetimes", t.datetimes[0] == date)
    env.ensure("none", t.errors is None and t.success is None and t.warnings is None and t.images is None)
    out = [t.xyz, t.vxyz]
    for a in out:
        env.ensure("shape", env.land(a.shape[0] == n, a.shape[1] == m, a.shape[2] == 3))
    sig = [t.xyz_sigma, t.vxyz_sigma]
    if how == "none":
        env.ensure("no-spread", sig == [None, None])
    for i in env.each(n):
        for j in env.each(m):
            for c in range(6):
                env.eq("mean", out[c // 3][i, j, c % 3], means[i, j, c])
                if how == "sigmas":
                    env.eq("sigma", sig[c // 3][i, j, c % 3], S[i, j, c])
                elif how == "covariances":
                    s = sig[c // 3][i, j, c % 3]
                    env.ensure("sigma", s >= 0)
                    env.eq("variance", s * s, C[i, j, c, c], scale=10)


@contract("T07", [TRS + "endpoints"], budget=90)
def track_endpoints(env):
    """The first and last datetimes with a position, of every track that has any."""
    np = env.np
    n, m = env.size("n"), env.size("m")
    means = env.array("means", (n, m, 6), nan=True)
    t = env.g.track__tracks.Tracks(datetimes=[env.date("t")], time_unit=env.delta("unit"), means=means)
    ok, first, last = t.endpoints()
    env.ensure("shape", ok.shape[0] == n)
    if env.symbolic:
        env.ensure("count", env.land(first.shape[0] == last.shape[0], first.shape[0] <= n))
        return
    k = 0
    for i in range(n):
        idx = [j for j in range(m) if not np.isnan(means[i, j, 0])]
        env.ensure("tracked", bool(ok[i]) == bool(idx))
        if idx:
            env.ensure("first", first[k] == idx[0])
            env.ensure("last", last[k] == idx[-1])
            k += 1
    env.ensure("count", len(first) == len(last) == k)


@contract("T07", [TRS + "endpoints", TRS + "__init__", TRS + "success"], sym=False, samples=100)
def track_records(env):
    """Selections of tracks, and one error and warnings entry per track."""
    np = env.np
    n, m = env.int("n", ge=1, le=5), env.int("m", ge=1, le=4)
    means = env.array("means", (n, m, 6), nan=True)
    errors = [env.choice(f"e{i}", [None, "error", "long"]) for i in range(n)]
    errors = [None if e is None else ValueError(e) if e == "error" else KeyError("a", "b") for e in errors]
    caught = [env.choice(f"w{i}", [None, ("a",), ("a", "b")]) for i in range(n)]
    T = env.g.track__tracks.Tracks
    t = T(datetimes=[env.dt.datetime(2020, 1, 1 + i) for i in range(m)], time_unit=env.dt.timedelta(1), means=list(means), sigmas=list(np.abs(means)), particles=[means[i][:, None] for i in range(n)], weights=[np.ones((m, 1))] * n, errors=tuple(errors), warnings=tuple(caught), images=[[None, 1]] * m)
    env.ensure("means", np.array_equal(t.means, means, equal_nan=True) and np.array_equal(t.particles, means[:, :, None], equal_nan=True))
    env.ensure("sigmas", np.array_equal(t.sigmas, np.abs(means), equal_nan=True) and t.weights.shape == (n, m, 1))
    env.ensure("errors", t.errors.shape == (n,) and all(a is b for a, b in zip(t.errors, errors)))
    env.ensure("warnings", t.warnings.shape == (n,) and all(a == b for a, b in zip(t.warnings, caught)))
    env.ensure("success", t.success.shape == (n,) and [bool(s) for s in t.success] == [e is None for e in errors])
    env.ensure("images", t.images.shape == (m, 2) and t.images[0, 0] is None)
    pick = env.choice("pick", ["slice", "list", "mask"])
    ids = list(range(env.int("from", ge=0, le=n - 1), n))
    sel = slice(ids[0], None) if pick == "slice" else ids if pick == "list" else np.isin(np.arange(n), ids)
    ok, first, last = t.endpoints(sel)
    valid = [[j for j in range(m) if not np.isnan(means[i, j, 0])] for i in ids]
    env.ensure("selected", [bool(x) for x in ok] == [bool(v) for v in valid])
    env.ensure("selected.first", list(first) == [v[0] for v in valid if v])
    env.ensure("selected.last", list(last) == [v[-1] for v in valid if v])

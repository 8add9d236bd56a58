"""Contracts on glimpse.camera: projection, distortion, rotation, resizing, state."""
import math

from ..harness import contract

CAM = "glimpse/camera.py:Camera."
FIELDS = ("imgsz", "f", "c", "k", "p", "xyz", "viewdir")


# -- specification functions ------------------------------------------------


def vec(env, name, n, **k):
    return [env.real(f"{name}{i}", **k) for i in range(n)]


def cam_params(env, k="any", p="any", tag="", fpos=True):
    """Arbitrary camera parameters (kappa, p scaled so that samples are realistic)."""
    par = {
        "imgsz": [env.int(f"{tag}nx", ge=1, le=None, scale=20), env.int(f"{tag}ny", ge=1, scale=20)],
        "f": vec(env, f"{tag}f", 2, gt=0, scale=20) if fpos else vec(env, f"{tag}f", 2),
        "c": vec(env, f"{tag}c", 2),
        "xyz": vec(env, f"{tag}x", 3, scale=100),
        "viewdir": vec(env, f"{tag}v", 3, scale=400),
    }
    par["k"] = [0] * 6 if k == "zero" else vec(env, f"{tag}k", 6, scale=1)
    par["p"] = [0, 0] if p == "zero" else vec(env, f"{tag}p", 2, scale=1)
    return par


def make(env, par, **k):
    return env.g.camera.Camera(**par, **k)


def matmul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(3)), 0) for j in range(3)] for i in range(3)]


def rotation(env, viewdir):
    """Camera axes from (yaw, pitch, roll) as elementary rotations.

    World is x east, y north, z up; camera is x right, y down, z forward.
    """
    np = env.np
    a, b, g = [x * np.pi / 180 for x in viewdir]
    ca, sa, cb, sb, cg, sg = np.cos(a), np.sin(a), np.cos(b), np.sin(b), np.cos(g), np.sin(g)
    level = [[1, 0, 0], [0, 0, -1], [0, 1, 0]]  # looks north, y down
    yaw = [[ca, 0, -sa], [0, 1, 0], [sa, 0, ca]]
    pitch = [[1, 0, 0], [0, cb, sb], [0, -sb, cb]]
    # positive roll turns the image down on the right
    roll = [[cg, sg, 0], [-sg, cg, 0], [0, 0, 1]]
    return matmul(roll, matmul(pitch, matmul(yaw, level)))


def distort(env, xy, k, p):
    x, y = xy
    r2 = x * x + y * y
    num = 1 + k[0] * r2 + k[1] * r2 * r2 + k[2] * r2 * r2 * r2
    den = 1 + k[3] * r2 + k[4] * r2 * r2 + k[5] * r2 * r2 * r2
    dr = num / den
    return (
        x * dr + 2 * x * y * p[0] + p[1] * (r2 + 2 * x * x),
        y * dr + p[0] * (r2 + 2 * y * y) + 2 * x * y * p[1],
    )


def camera_axes_coords(env, par, pt, directions, correction):
    d = list(pt) if directions else [pt[i] - par["xyz"][i] for i in range(3)]
    if not directions and correction is not None:
        rad = correction.get("radius", 6.3781e6)
        ref = correction.get("refraction", 0.13)
        d[2] = d[2] + (ref - 1) * (d[0] * d[0] + d[1] * d[1]) / (2 * rad)
    R = rotation(env, par["viewdir"])
    return [sum((R[i][j] * d[j] for j in range(3)), 0) for i in range(3)]


def to_image(env, par, xy):
    dx, dy = distort(env, xy, par["k"], par["p"])
    return (
        dx * par["f"][0] + par["imgsz"][0] / 2 + par["c"][0],
        dy * par["f"][1] + par["imgsz"][1] / 2 + par["c"][1],
    )


def good_denominator(env, par, xy):
    x, y = xy
    r2 = x * x + y * y
    k = par["k"]
    env.assume((1 + k[3] * r2 + k[4] * r2 * r2 + k[5] * r2 * r2 * r2) != 0)


# -- C01 projection -----------------------------------------------------------


def _projection(env, k, p, modes=True):
    par = cam_params(env, k, p)
    corr, directions = None, False
    if modes:
        corr = env.choice("correction", [None, {}, {"radius": 3e5, "refraction": 0.25}])
        directions = env.choice("directions", [False, True])
    cam = make(env, par, correction=corr if corr is not None else False)
    if modes:
        env.patch(env.g.config, "matmul", env.choice("matmul", [True, False]))
    n = env.size("n", ge=1)
    xyz = env.array("pts", (n, 3), scale=100)
    before = xyz.copy()
    uv, depth = cam.xyz_to_uv(xyz, directions=directions, return_depth=True)
    env.ensure("shape", env.land(uv.shape[0] == n, uv.shape[1] == 2, depth.shape[0] == n))
    env.eq("frame.points-unchanged", xyz, before)
    for i in env.each(n):
        pt = [before[i, j] for j in range(3)]
        x, y, z = camera_axes_coords(env, par, pt, directions, corr)
        env.eq("depth", depth[i], z, scale=100)
        if depth[i] > 0:
            env.assume(z > (0 if env.symbolic else 1e-3))
            xy = (x / z, y / z)
            env.assume(env.land(xy[0] < 50, xy[0] > -50, xy[1] < 50, xy[1] > -50) if not env.symbolic else True)
            good_denominator(env, par, xy)
            u, v = to_image(env, par, xy)
            env.eq("u", uv[i, 0], u)
            env.eq("v", uv[i, 1], v)
        elif env.symbolic or z < -1e-6:
            env.ensure("behind-is-nan", env.land(env.isnan(uv[i, 0]), env.isnan(uv[i, 1])))


@contract("C01", [CAM + "xyz_to_uv", CAM + "_xyz_to_xy", CAM + "_xy_to_uv", CAM + "_distort", CAM + "R"], budget=120)
def project_undistorted(env):
    _projection(env, "zero", "zero")


@contract("C01", [CAM + "xyz_to_uv", CAM + "_radial_distortion", CAM + "_tangential_distortion"], budget=300, paths=1500, shards=8)
def project_distorted(env):
    # (curvature and ray directions only enter before distortion: see above)
    _projection(env, "any", "any", modes=not env.symbolic)


@contract("C01", [CAM + "xyz_to_uv", CAM + "_xyz_to_xy"], budget=30)
def project_camera_plane(env):
    """Points level with or behind a level, north-facing camera have no image."""
    par = cam_params(env, "zero", "zero") if env.symbolic else cam_params(env)
    par["viewdir"] = [0, 0, 0]
    cam = make(env, par)
    n = env.size("n", ge=1)
    pts = env.array("pts", (n, 3), scale=100)
    level = env.array("level", (n,), dtype="b")
    directions = env.choice("directions", [False, True])
    y = [0 if directions else par["xyz"][1]][0]
    if not env.symbolic:
        for i in range(n):
            pts[i, 1] = y if level[i] else y - abs(pts[i, 1])
    uv, depth = cam.xyz_to_uv(pts, directions=directions, return_depth=True)
    for i in env.each(n):
        if env.symbolic:
            env.assume(env.ite(level[i], pts[i, 1] == y, pts[i, 1] < y))
        env.ensure("no-image", env.land(env.isnan(uv[i, 0]), env.isnan(uv[i, 1])))
        env.eq("depth", depth[i], pts[i, 1] - y)


# -- C02 inverse --------------------------------------------------------------


def small(env, par):
    """Keep concrete samples well conditioned."""
    if not env.symbolic:
        env.assume(min(par["f"]) > 0.05)


@contract("C02", [CAM + "uv_to_xyz", CAM + "_uv_to_xy", CAM + "_xy_to_xyz", CAM + "xyz_to_uv"], budget=100)
def unproject_then_project(env):
    par = cam_params(env, "zero", "zero")
    small(env, par)
    cam = make(env, par)
    n = env.size("n", ge=1)
    uv = env.array("uv", (n, 2), scale=50)
    vector = env.choice("vector_depth", [False, True])
    directions = env.choice("directions", [True, False])
    env.patch(env.g.config, "matmul", env.choice("matmul", [True, False]))
    depth = env.array("depths", (n,), gt=0.01) if vector else env.real("depth", gt=0.01)
    before = uv.copy()
    xyz = cam.uv_to_xyz(uv, directions=directions, depth=depth)
    env.eq("frame.uv-unchanged", uv, before)
    env.ensure("shape", env.land(xyz.shape[0] == n, xyz.shape[1] == 3))
    uv2, z = cam.xyz_to_uv(xyz, directions=directions, return_depth=True)
    for i in env.each(n):
        env.eq("depth", z[i], depth[i] if vector else depth, tol=1e-5)
        env.eq("u", uv2[i, 0], uv[i, 0], tol=1e-4, scale=100)
        env.eq("v", uv2[i, 1], uv[i, 1], tol=1e-4, scale=100)


@contract("C02", [CAM + "uv_to_xyz", CAM + "xyz_to_uv"], budget=100)
def project_then_unproject(env):
    par = cam_params(env, "zero", "zero")
    small(env, par)
    cam = make(env, par)
    n = env.size("n", ge=1, sample=3)
    directions = env.choice("directions", [True, False])
    xyz = env.array("pts", (n, 3), scale=100)
    for i in env.each(n):
        pt = [xyz[i, j] for j in range(3)]
        z = camera_axes_coords(env, par, pt, directions, None)[2]
        env.assume(z > (0 if env.symbolic else 0.5))
    uv, z = cam.xyz_to_uv(xyz, directions=directions, return_depth=True)
    back = cam.uv_to_xyz(uv, directions=directions, depth=z)
    for i in env.each(n):
        pt = [xyz[i, j] for j in range(3)]
        zz = camera_axes_coords(env, par, pt, directions, None)[2]
        env.assume(zz > 0)
        for j in range(3):
            env.eq(f"point{j}", back[i, j], xyz[i, j], tol=1e-5, scale=100)


@contract("C02", [CAM + "_undistort_k1", CAM + "_undistort", CAM + "_distort"], budget=60, samples=150)
def unproject_k1(env):
    """Closed-form removal of first-order radial distortion."""
    par = cam_params(env, "zero", "zero")
    small(env, par)
    k1 = env.real("k1", scale=0.5)
    env.assume(env.lor(k1 > 0.001, k1 < -0.001))
    par["k"] = [k1, 0, 0, 0, 0, 0]
    cam = make(env, par)
    # any image position reached by a camera ray inside the monotone range
    x = env.real("x", scale=2)
    y = env.real("y", scale=2)
    r2 = x * x + y * y
    env.assume(1 + 3 * k1 * r2 > 0.05)
    dx, dy = distort(env, (x, y), par["k"], (0, 0))
    u = dx * par["f"][0] + par["imgsz"][0] / 2 + par["c"][0]
    v = dy * par["f"][1] + par["imgsz"][1] / 2 + par["c"][1]
    ray = cam.uv_to_xyz(env.np.array([[u, v]]), directions=True, depth=1)
    R = rotation(env, par["viewdir"])
    for j in range(3):
        want = R[0][j] * x + R[1][j] * y + R[2][j]
        env.eq(f"ray{j}", ray[0, j], want, tol=1e-4)


@contract("C02", [CAM + "_undistort_oulu", CAM + "_radial_distortion", CAM + "_tangential_distortion"], sym=False, samples=250)
def unproject_moderate_distortion(env):
    """Iterative removal of moderate distortion (bounded: sampled coefficients)."""
    par = cam_params(env, "zero", "zero")
    # image coordinates stay within about one focal length of the axis
    big = max(int(q) for q in par["imgsz"])
    par["f"] = [big * env.real(f"rf{i}", ge=1, le=3) for i in range(2)]
    par["c"] = [env.real(f"rc{i}", ge=-0.1, le=0.1) for i in range(2)]
    kind = env.choice("kind", ["k", "p", "kp", "k1p", "some", "somep"])
    if kind in ("k", "kp"):
        par["k"] = vec(env, "k", 6, ge=-0.02, le=0.02)
    if kind == "k1p":
        par["k"] = [env.real("k0", ge=-0.05, le=0.05), 0, 0, 0, 0, 0]
    if "some" in kind:
        par["k"] = [v * env.choice(f"on{i}", [0, 0, 1]) for i, v in enumerate(vec(env, "k", 6, ge=-0.02, le=0.02))]
    if "p" in kind:
        par["p"] = vec(env, "p", 2, ge=-0.01, le=0.01)
    cam = make(env, par)
    n = env.size("n", ge=1)
    uv = env.array("t", (n, 2), ge=0, le=1) * [int(q) for q in par["imgsz"]]
    xyz = cam.uv_to_xyz(uv, depth=env.real("depth", gt=0.1))
    env.eq("uv", cam.xyz_to_uv(xyz, directions=True), uv, tol=1e-6, scale=10)


# -- C03 orientation ----------------------------------------------------------


@contract("C03", [CAM + "R"], budget=60)
def rotation_orthonormal(env):
    par = cam_params(env, "zero", "zero")
    cam = make(env, par)
    R = cam.R
    env.ensure("shape", R.shape == (3, 3))
    for i in range(3):
        for j in range(3):
            env.eq(f"RRt{i}{j}", sum(R[i, k] * R[j, k] for k in range(3)), 1 if i == j else 0)
    det = (
        R[0, 0] * (R[1, 1] * R[2, 2] - R[1, 2] * R[2, 1])
        - R[0, 1] * (R[1, 0] * R[2, 2] - R[1, 2] * R[2, 0])
        + R[0, 2] * (R[1, 0] * R[2, 1] - R[1, 1] * R[2, 0])
    )
    env.eq("right-handed", det, 1)


@contract("C03", [CAM + "R"], budget=60)
def rotation_axes(env):
    par = cam_params(env, "zero", "zero")
    cam = make(env, par)
    R = cam.R
    want = rotation(env, par["viewdir"])
    for i in range(3):
        for j in range(3):
            env.eq(f"R{i}{j}", R[i, j], want[i][j])
    np = env.np
    yaw, pitch, roll = [x * np.pi / 180 for x in par["viewdir"]]
    # optical axis: azimuth yaw clockwise from north, altitude pitch
    env.eq("axis.east", R[2, 0], np.sin(yaw) * np.cos(pitch))
    env.eq("axis.north", R[2, 1], np.cos(yaw) * np.cos(pitch))
    env.eq("axis.up", R[2, 2], np.sin(pitch))
    # image right tilts down by roll, image down is orthogonal to it
    env.eq("right.up", R[0, 2], -np.sin(roll) * np.cos(pitch))
    env.eq("down.up", R[1, 2], -np.cos(roll) * np.cos(pitch))


@contract("C03", [CAM + "R"], budget=60)
def view_direction_read_at_use(env):
    """Rotation follows later changes of the view direction (no stale state)."""
    par = cam_params(env, "zero", "zero")
    cam = make(env, par)
    cam.R
    new = vec(env, "w", 3, scale=400)
    how = env.choice("how", ["setter", "element"])
    if how == "setter":
        cam.viewdir = new
    else:
        for i in range(3):
            cam.viewdir[i] = new[i]
    R = cam.R
    want = rotation(env, new)
    for i in range(3):
        for j in range(3):
            env.eq(f"R{i}{j}", R[i, j], want[i][j])


@contract("C03", [CAM + "Rprime"], budget=60)
def rotation_derivative(env):
    """Element [j, i, k] is the derivative of R[k, j] with respect to angle i (degrees)."""
    par = cam_params(env, "zero", "zero")
    cam = make(env, par)
    D = cam.Rprime
    np = env.np
    a, b, g = [x * np.pi / 180 for x in par["viewdir"]]
    ca, sa, cb, sb, cg, sg = np.cos(a), np.sin(a), np.cos(b), np.sin(b), np.cos(g), np.sin(g)
    level = [[1, 0, 0], [0, 0, -1], [0, 1, 0]]
    yaw = [[ca, 0, -sa], [0, 1, 0], [sa, 0, ca]]
    pitch = [[1, 0, 0], [0, cb, sb], [0, -sb, cb]]
    roll = [[cg, sg, 0], [-sg, cg, 0], [0, 0, 1]]
    dyaw = [[-sa, 0, -ca], [0, 0, 0], [ca, 0, -sa]]
    dpitch = [[0, 0, 0], [0, -sb, cb], [0, -cb, -sb]]
    droll = [[-sg, cg, 0], [-cg, -sg, 0], [0, 0, 0]]
    mats = [
        matmul(roll, matmul(pitch, matmul(dyaw, level))),
        matmul(roll, matmul(dpitch, matmul(yaw, level))),
        matmul(droll, matmul(pitch, matmul(yaw, level))),
    ]
    env.ensure("shape", D.shape == (3, 3, 3))
    for i in range(3):
        for j in range(3):
            for k in range(3):
                env.eq(f"dR{k}{j}/da{i}", D[j, i, k], mats[i][k][j] * (np.pi / 180))


# -- C04 resizing -------------------------------------------------------------


def _image_of(env, cam, directions=True):
    pt = vec(env, "q", 3, scale=50)
    return cam.xyz_to_uv(env.np.array([pt]), directions=directions)


def _check_resized(env, tag, cam, par, size):
    old = par["imgsz"]
    for i in range(2):
        env.lemma(f"{tag}imgsz{i}", env.same(cam.imgsz[i], size[i]))
        env.eq(f"{tag}f{i}", cam.f[i] * old[i], par["f"][i] * size[i], scale=10)
        env.eq(f"{tag}c{i}", cam.c[i] * old[i], par["c"][i] * size[i], scale=10)
    for i in range(3):
        env.eq(f"{tag}xyz{i}", cam.xyz[i], par["xyz"][i])
        env.eq(f"{tag}viewdir{i}", cam.viewdir[i], par["viewdir"][i])
    for i in range(6):
        env.eq(f"{tag}k{i}", cam.k[i], par["k"][i])
    for i in range(2):
        env.eq(f"{tag}p{i}", cam.p[i], par["p"][i])


def rounded(env, x):
    return env.np.floor(x + 0.5)


@contract("C04", [CAM + "resize"], budget=60)
def resize_by_factor(env):
    par = cam_params(env)
    cam = make(env, par)
    # a history of earlier resizes does not matter
    history = env.choice("history", ["none", "factor", "forced"])
    if history == "factor":
        t = env.real("t", gt=0, le=5)
        env.assume(env.land(*[t * q >= 0.5 for q in par["imgsz"]]))
        cam.resize(t)
    elif history == "forced":
        cam.resize([env.int("mx", ge=1, scale=20), env.int("my", ge=1, scale=20)], force=True)
    s = env.real("s", gt=0, le=5)
    size = [rounded(env, s * q) for q in par["imgsz"]]
    env.assume(env.land(size[0] >= 1, size[1] >= 1))
    cam.resize(s)
    _check_resized(env, "", cam, par, size)


@contract("C04", [CAM + "resize"], budget=60)
def resize_forced(env):
    par = cam_params(env)
    cam = make(env, par)
    cam.resize([env.int("mx", ge=1, scale=20), env.int("my", ge=1, scale=20)], force=True)
    size = [env.int("sx", ge=1, scale=20), env.int("sy", ge=1, scale=20)]
    cam.resize(size, force=True)
    _check_resized(env, "", cam, par, size)


@contract("C04", [CAM + "resize", "glimpse/helpers.py:get_scale_from_size"], budget=60, samples=80)
def resize_to_size(env):
    par = cam_params(env, "zero", "zero")
    cam = make(env, par)
    nx, ny = par["imgsz"]
    sx, sy = env.int("sx", ge=1, scale=20), env.int("sy", ge=1, scale=20)
    before = cam.to_array()
    exc, _ = env.raises(lambda: cam.resize([sx, sy]), ValueError)
    if exc is None:
        _check_resized(env, "", cam, par, [sx, sy])
    else:
        env.ensure("proportional-accepted", sx * ny != sy * nx)
        env.eq("rejected.unchanged", cam.to_array(), before)


@contract("C04", [CAM + "resize", CAM + "xyz_to_uv"], budget=100)
def resize_scales_image(env):
    par = cam_params(env, "zero", "zero")
    k1 = env.real("k1", scale=1)
    par["k"] = [k1, 0, 0, 0, 0, 0]
    par["p"] = [env.real("p1", scale=1), 0]
    cam = make(env, par)
    pt = env.np.array([vec(env, "q", 3, scale=50)])
    uv = cam.xyz_to_uv(pt)
    size = [env.int("sx", ge=1, scale=20), env.int("sy", ge=1, scale=20)]
    cam.resize(size, force=True)
    uv2 = cam.xyz_to_uv(pt)
    if not env.symbolic:
        env.assume(abs(uv[0]).max() < 1e6 or uv[0][0] != uv[0][0])
    z = camera_axes_coords(env, par, [pt[0, i] for i in range(3)], False, None)[2]
    if z <= 0:
        env.ensure("behind", env.land(*[env.isnan(q) for q in (uv2[0, 0], uv2[0, 1])]))
        return
    for i in range(2):
        env.eq(f"uv{i}", uv2[0, i] * par["imgsz"][i], uv[0, i] * size[i], scale=100)
    # back to the original
    cam.resize(1)
    _check_resized(env, "back.", cam, par, par["imgsz"])


# -- C05 parameters -----------------------------------------------------------


def expected(env, value, n, default):
    """Vector a parameter takes from a scalar or short list."""
    v = value if isinstance(value, list) else [value]
    if len(v) < n:
        v = v + [default] * (n - len(v)) if default is not None else v * (n // len(v))
    return v[:n]


PARAMS = {"xyz": (3, 0, 0), "viewdir": (3, 0, 3), "f": (2, None, 8), "c": (2, 0, 10), "k": (6, 0, 12), "p": (2, 0, 18)}


@contract("C05", [CAM + "__init__"] + [CAM + n for n in PARAMS], budget=60)
def construct_and_set(env):
    """Parameters take given values, short ones are padded; others are unaffected."""
    name = env.choice("name", list(PARAMS))
    n, default, _ = PARAMS[name]
    m = env.choice("given", [0, 1, 2, 3, 6])
    value = env.real("scalar") if m == 0 else vec(env, "val", m)
    ok = default is not None or m == 0 or m >= n or n % max(m, 1) == 0
    base = {"imgsz": [4, 6], "f": [7, 8], "c": [1, 2], "k": [0.5] * 6, "p": [3, 4], "xyz": [5, 6, 7], "viewdir": [8, 9, 10]}
    how = env.choice("how", ["init", "set"])
    given = list(value) if isinstance(value, list) else value
    if how == "init":
        cam = env.g.camera.Camera(**{**base, name: given})
    else:
        cam = env.g.camera.Camera(**base)
        setattr(cam, name, given)
    env.ensure("ok", ok)
    want = {k: v for k, v in base.items()}
    want[name] = expected(env, value, n, default)
    for k, v in want.items():
        env.eq(k, getattr(cam, k), env.np.array(v))
    if isinstance(value, list):
        env.ensure("frame.argument-length", len(given) == m)
        for a, b in zip(given, value):
            env.eq("frame.argument", a, b)
    arr = cam.to_array()
    flat = want["xyz"] + want["viewdir"] + want["imgsz"] + want["f"] + want["c"] + want["k"] + want["p"]
    env.eq("to_array", arr, env.np.array(flat))


@contract("C05", [CAM + "__init__", CAM + "fmm", CAM + "cmm", CAM + "sensorsz"], budget=60)
def millimetres(env):
    """Pixel and millimetre forms agree: mm = px * sensor size / image size."""
    par = cam_params(env, "zero", "zero")
    s = vec(env, "s", 2, gt=0.01, scale=30)
    fm, cm = vec(env, "fm", 2, gt=0, scale=30), vec(env, "cm", 2, scale=5)
    how = env.choice("how", ["init-mm", "set-mm", "init-px"])
    # (one number stands for both focal lengths, but for the first offset only, as in pixels)
    single = how != "init-px" and env.choice("single", [None, "number", "list"])
    one = {None: lambda v: v, False: lambda v: v, "number": lambda v: v[0], "list": lambda v: v[:1]}[single]
    if single:
        fm, cm = [fm[0], fm[0]], [cm[0], 0]
    if single == "number" and env.choice("sensor", [False, True]):
        s = [s[0], s[0]]
        size = s[0]
    else:
        size = list(s)
    base = {"imgsz": par["imgsz"], "xyz": par["xyz"], "viewdir": par["viewdir"], "sensorsz": size}
    C = env.g.camera.Camera
    if how == "init-mm":
        cam = C(fmm=one(fm), cmm=one(cm), **base)
    elif how == "set-mm":
        cam = C(f=par["f"], c=par["c"], **base)
        cam.fmm = one(fm)
        cam.cmm = one(cm)
    else:
        cam = C(f=par["f"], c=par["c"], **base)
        fm = [par["f"][i] * s[i] / par["imgsz"][i] for i in range(2)]
        cm = [par["c"][i] * s[i] / par["imgsz"][i] for i in range(2)]
    for i in range(2):
        env.eq(f"fmm{i}", cam.fmm[i], fm[i])
        env.eq(f"cmm{i}", cam.cmm[i], cm[i])
        env.eq(f"f{i}", cam.f[i], fm[i] * par["imgsz"][i] / s[i])
        env.eq(f"c{i}", cam.c[i], cm[i] * par["imgsz"][i] / s[i])
        env.eq(f"imgsz{i}", cam.imgsz[i], par["imgsz"][i])
    # resizing keeps the millimetre form
    size = [env.int("sx", ge=1, scale=20), env.int("sy", ge=1, scale=20)]
    cam.resize(size, force=True)
    for i in range(2):
        env.eq(f"resized.fmm{i}", cam.fmm[i], fm[i])
        env.eq(f"resized.cmm{i}", cam.cmm[i], cm[i])


@contract("C05", [CAM + "__init__"], budget=30)
def constructor_errors(env):
    C = env.g.camera.Camera
    f, c, s = env.choice("f", [None, 5]), env.choice("c", [None, 1]), env.choice("s", [None, (4, 5)])
    fmm, cmm = env.choice("fmm", [None, 2]), env.choice("cmm", [None, (3, 1)])
    nx = env.real("nx", gt=0, scale=9)
    bad = ((fmm is not None or cmm is not None) and s is None) or (f is not None and fmm is not None) or (
        c is not None and cmm is not None) or (f is None and fmm is None)
    exc, cam = env.raises(lambda: C(imgsz=[nx, 3], f=f, c=None if c is None else (c, c + 1), sensorsz=s, fmm=fmm, cmm=cmm), ValueError)
    whole = env.np.floor(nx) == nx
    if exc is None:
        env.ensure("accepted", not bad)
        env.ensure("whole-size", whole)
        for i, n in enumerate([nx, 3]):
            env.eq(f"f{i}", cam.f[i], f if f is not None else fmm * n / s[i])
            env.eq(f"c{i}", cam.c[i], c + i if c is not None else (cmm[i] * n / s[i] if cmm is not None else 0))
    else:
        env.ensure("rejected", env.lor(bad, env.lnot(whole)))


@contract("C05", [CAM + "copy", CAM + "reset", CAM + "idealize", CAM + "to_dict", CAM + "to_array"], budget=60)
def copy_reset_idealize(env):
    par = cam_params(env)
    cam = make(env, par, sensorsz=[2, 3])
    orig = cam.to_array()
    new = vec(env, "new", 20)
    names = ["xyz", "viewdir", "f", "c", "k", "p"]
    for nm in names:
        n, _, at = PARAMS[nm]
        setattr(cam, nm, new[at : at + n])
    mid = cam.to_array()
    other = cam.copy()
    env.eq("copy.equal", other.to_array(), mid)
    env.eq("copy.sensor", other.sensorsz, cam.sensorsz)
    # changes of the copy stay in the copy and back
    act = env.choice("act", ["element", "setter", "idealize", "resize", "reset"])
    if act == "element":
        other.f[0] += 1
        other.k[2] = 9
        other.xyz[1] = 4
    elif act == "setter":
        other.viewdir = (1, 2, 3)
        other.p = 3
        other.imgsz = (5, 5)
    elif act == "idealize":
        other.idealize()
        for i in range(6):
            env.eq(f"ideal.k{i}", other.k[i], 0)
        for i in range(2):
            env.eq(f"ideal.p{i}", other.p[i], 0)
            env.eq(f"ideal.c{i}", other.c[i], 0)
            env.eq(f"ideal.f{i}", other.f[i], new[8 + i])
        for i in range(3):
            env.eq(f"ideal.xyz{i}", other.xyz[i], new[i])
            env.eq(f"ideal.viewdir{i}", other.viewdir[i], new[3 + i])
    elif act == "resize":
        other.resize(2)
    env.eq("copy.independent", cam.to_array(), mid)
    other.reset()
    env.eq("copy.reset", other.to_array(), mid)
    out = cam.to_array()
    out[0] = out[0] + 1
    env.eq("to_array.independent", cam.to_array(), mid)
    cam.reset()
    env.eq("reset", cam.to_array(), orig)
    cam.f[0] += 1
    cam.reset()
    env.eq("reset.again", cam.to_array(), orig)
    env.eq("copy.independent.reset", other.to_array(), mid)
    d = cam.to_dict(("imgsz", "xyz", "viewdir", "f", "c", "k", "p", "sensorsz", "fmm", "cmm"))
    twin = env.g.camera.Camera(**{k: d[k] for k in ("imgsz", "xyz", "viewdir", "f", "c", "k", "p", "sensorsz")})
    env.eq("dict.round-trip", twin.to_array(), orig)
    twin = env.g.camera.Camera(**{k: d[k] for k in ("imgsz", "xyz", "viewdir", "k", "p", "sensorsz", "fmm", "cmm")})
    env.eq("dict.mm.round-trip", twin.to_array(), orig, tol=1e-9)


@contract("C05", [CAM + "from_json", CAM + "to_json"], sym=False, samples=60)
def json_round_trip(env):
    import os
    import tempfile

    par = cam_params(env)
    cam = make(env, par, sensorsz=env.choice("sensor", [None, (3, 2)]))
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "sub", "deep", "cam.json")
        attrs = ["xyz", "viewdir", "imgsz", "f", "c", "k", "p", "sensorsz"]
        cam.to_json(path, attributes=attrs)
        back = env.g.camera.Camera.from_json(path)
        env.eq("vector", back.to_array(), cam.to_array(), tol=0)
        env.ensure("sensor", (back.sensorsz is None) == (cam.sensorsz is None))
        over = env.g.camera.Camera.from_json(path, f=(3, 4))
        env.eq("override", over.f, [3, 4])
        if cam.sensorsz is not None:
            env.eq("sensor.value", back.sensorsz, cam.sensorsz)
            cam.to_json(path, attributes=["xyz", "viewdir", "imgsz", "fmm", "cmm", "k", "p", "sensorsz"])
            env.eq("mm", env.g.camera.Camera.from_json(path).to_array(), cam.to_array(), tol=1e-9)


# -- C06 image frame -------------------------------------------------------------


@contract("C06", [CAM + "inframe"], budget=30)
def inframe_contract(env):
    par = cam_params(env, "zero", "zero")
    cam = make(env, par)
    n = env.size("n", ge=1)
    uv = env.array("uv", (n, 2), scale=30, nan=True)
    if not env.symbolic:
        on = env.array("on", (n, 2), dtype="b")
        for i in range(n):
            for j in range(2):
                if on[i, j]:
                    uv[i, j] = (0, par["imgsz"][j])[i % 2]
    before = uv.copy()
    got = cam.inframe(uv)
    env.ensure("length", got.shape[0] == n)
    for i in env.each(n):
        inside = env.land(*[env.land(before[i, j] >= 0, before[i, j] <= par["imgsz"][j]) for j in range(2)])
        env.ensure("inside", env.iff(got[i], inside))


@contract("C06", [CAM + "infront"], budget=60)
def infront_contract(env):
    par = cam_params(env, "zero", "zero")
    cam = make(env, par)
    n = env.size("n", ge=1)
    directions = env.choice("directions", [False, True])
    pts = env.array("pts", (n, 3), scale=100)
    got = cam.infront(pts, directions=directions)
    env.ensure("length", got.shape[0] == n)
    for i in env.each(n):
        z = camera_axes_coords(env, par, [pts[i, j] for j in range(3)], directions, None)[2]
        if not env.symbolic and abs(z) < 1e-6:
            continue
        env.ensure("positive-depth", env.iff(got[i], z > 0))


@contract("C06", [CAM + "grid", "glimpse/helpers.py:box_to_grid"], budget=60)
def grid_contract(env):
    """Image grid points lie in the frame, aligned to the snapping point, none missing."""
    par = cam_params(env, "zero", "zero")
    cam = make(env, par)
    step = vec(env, "step", 2, gt=0.25 if not env.symbolic else 0, scale=3)
    default = env.choice("snap", [True, False])
    snap = [0.5, 0.5] if default else vec(env, "snap", 2, scale=5)
    scalar = env.choice("scalar", [True, False])
    if scalar:
        step = [step[0]] * 2
    kw = {} if default else {"snap": snap}
    uv = cam.grid(step[0] if scalar else step, mode="vectors", **kw)
    tol = 0 if env.symbolic else 1e-6
    for d in range(2):
        v, hi = uv[d], par["imgsz"][d]
        n = v.shape[0]
        if n == 0:
            continue
        for i in env.each(n):
            env.le("in-frame.lower", 0, v[i])
            env.le("in-frame.upper", v[i], hi)
            q = (v[i] - snap[d]) / step[d]
            env.ensure("aligned", abs(q - env.np.floor(q + 0.5)) <= 1e-6 if not env.symbolic else env.np.floor(q) == q)
            env.eq("spacing", v[i], v[0] + i * step[d])
        env.ensure("complete.lower", v[0] - step[d] < tol)
        env.ensure("complete.upper", v[n - 1] + step[d] > hi - tol)


@contract("C06", [CAM + "edges"], budget=60)
def edges_contract(env):
    """Edge points trace the frame clockwise from the origin at even spacing."""
    par = cam_params(env, "zero", "zero")
    cam = make(env, par)
    nx, ny = par["imgsz"]
    step = vec(env, "step", 2, gt=0.25 if not env.symbolic else 0, scale=3)
    scalar = env.choice("scalar", [True, False])
    if scalar:
        step = [step[0]] * 2
        if env.symbolic:
            scalar = False
    env.assume(env.land(step[0] <= nx, step[1] <= ny))
    uv = cam.edges(float(step[0]) if scalar else tuple(step))
    mx, my = env.np.floor(nx / step[0]), env.np.floor(ny / step[1])
    if not env.symbolic:
        env.assume(abs(nx / step[0] - round(nx / step[0])) > 1e-6 or nx / step[0] == mx)
        env.assume(abs(ny / step[1] - round(ny / step[1])) > 1e-6 or ny / step[1] == my)
    n = uv.shape[0]
    env.eq("count", n, 2 * mx + 2 * my)
    dx, dy = nx / mx, ny / my
    for i in env.each(n):
        u, v = uv[i, 0], uv[i, 1]
        if i <= mx:
            env.eq("top", [u, v], [i * dx, 0])
        elif i <= mx + my:
            env.eq("right", [u, v], [nx, (i - mx) * dy])
        elif i <= 2 * mx + my:
            env.eq("bottom", [u, v], [nx - (i - mx - my) * dx, ny])
        else:
            env.eq("left", [u, v], [0, ny - (i - 2 * mx - my) * dy])


@contract("C06", [CAM + "viewpoly", CAM + "uv_to_xyz"], budget=60)
def viewpoly_contract(env):
    par = cam_params(env, "zero", "zero")
    small(env, par)
    cam = make(env, par)
    depth = env.real("depth", gt=0.01)
    out = cam.viewpoly(depth)
    env.ensure("shape", env.land(out.shape[0] == 4, out.shape[1] == 3))
    R = rotation(env, par["viewdir"])
    cx = par["imgsz"][0] / 2 + par["c"][0]
    for j in range(3):
        env.eq("apex", out[0, j], par["xyz"][j])
        env.eq("closed", out[3, j], par["xyz"][j])
        for row, u in ((1, 0), (2, par["imgsz"][0])):
            x = (u - cx) / par["f"][0]
            env.eq("corner", out[row, j], par["xyz"][j] + depth * (R[0][j] * x + R[2][j]), tol=1e-5, scale=100)


@contract("C06", [CAM + "viewbox", CAM + "edges", "glimpse/helpers.py:bounding_box"], sym=False, samples=80)
def viewbox_contract(env):
    """The view box holds the camera and every image point cast to the depth, and is tight."""
    par = cam_params(env, "zero", "zero")
    small(env, par)
    cam = make(env, par)
    np = env.np
    depth = env.real("depth", gt=0.01, scale=50)
    box = cam.viewbox(depth)
    env.ensure("shape", box.shape == (6,))
    corners = np.array([(u, v) for u in (0, par["imgsz"][0]) for v in (0, par["imgsz"][1])], dtype=float)
    pts = np.vstack((cam.xyz, cam.uv_to_xyz(corners, directions=False, depth=depth)))
    env.eq("tight.lower", box[:3], pts.min(axis=0), tol=1e-6, scale=100)
    env.eq("tight.upper", box[3:], pts.max(axis=0), tol=1e-6, scale=100)


# -- C07 spherical coordinates --------------------------------------------------------


@contract("C07", [CAM + "spherical_to_xyz"], budget=60)
def spherical_to_world(env):
    par = cam_params(env, "zero", "zero")
    cam = make(env, par)
    np = env.np
    n = env.size("n", ge=1)
    nd = env.choice("columns", [2, 3])
    a = env.array("angles", (n, nd), scale=400)
    before = a.copy()
    out = cam.spherical_to_xyz(a)
    env.eq("frame.angles", a, before)
    env.ensure("shape", env.land(out.shape[0] == n, out.shape[1] == 3))
    for i in env.each(n):
        az, alt = before[i, 0] * np.pi / 180, before[i, 1] * np.pi / 180
        d = [np.sin(az) * np.cos(alt), np.cos(az) * np.cos(alt), np.sin(alt)]
        for j in range(3):
            env.eq("position", out[i, j], par["xyz"][j] + before[i, 2] * d[j] if nd == 3 else d[j], scale=100)


@contract("C07", [CAM + "xyz_to_spherical", CAM + "spherical_to_xyz"], budget=60, samples=150)
def world_to_spherical(env):
    """Angles give back the direction; azimuth in [0, 360), altitude in [-90, 90], distance exact."""
    par = cam_params(env, "zero", "zero")
    cam = make(env, par)
    np = env.np
    n = env.size("n", ge=1, sample=4)
    directions = env.choice("directions", [False, True])
    pts = env.array("pts", (n, 3), scale=100)
    before = pts.copy()
    for i in env.each(n):
        d = [pts[i, j] - (0 if directions else par["xyz"][j]) for j in range(3)]
        if not env.symbolic:
            env.assume(sum(q * q for q in d) > 1e-2)
            continue
        env.assume(sum(q * q for q in d) > 0)
    a = cam.xyz_to_spherical(pts, directions=directions)
    env.eq("frame.points", pts, before)
    env.ensure("shape", env.land(a.shape[0] == n, a.shape[1] == (2 if directions else 3)))
    for i in env.each(n):
        d = [before[i, j] - (0 if directions else par["xyz"][j]) for j in range(3)]
        r2 = sum(q * q for q in d)
        env.assume(r2 > 0)
        env.ensure("azimuth.range", env.land(a[i, 0] >= 0, a[i, 0] < 360))
        env.ensure("altitude.range", env.land(a[i, 1] >= -90, a[i, 1] <= 90))
        if not directions:
            env.ensure("distance.nonnegative", a[i, 2] >= 0)
            env.eq("distance", a[i, 2] * a[i, 2], r2, scale=100)
        az, alt = a[i, 0] * np.pi / 180, a[i, 1] * np.pi / 180
        r = np.sqrt(r2)
        env.eq("up", np.sin(alt) * r, d[2], tol=1e-5, scale=100)
        env.eq("east", np.sin(az) * np.cos(alt) * r, d[0], tol=1e-5, scale=100)
        env.eq("north", np.cos(az) * np.cos(alt) * r, d[1], tol=1e-5, scale=100)


# -- C08 images of points and elevation models --------------------------------------------


@contract("C08", [CAM + "rasterize", CAM + "inframe", "glimpse/helpers.py:rasterize_points"], sym=False, samples=200)
def rasterize_contract(env):
    """Each pixel is the mean of the points in it; points outside the frame have no effect."""
    np = env.np
    par = cam_params(env, "zero", "zero")
    par["imgsz"] = [env.int("w", ge=1, le=5), env.int("h", ge=1, le=4)]
    cam = make(env, par)
    n = env.size("n", ge=1, sample=12)
    uv = env.array("uv", (n, 2), ge=-1.5, le=6.5)
    whole = env.array("whole", (n, 2), dtype="b")
    uv = np.where(whole, np.floor(uv), uv)
    lost = env.array("lost", (n,), dtype="b") & env.array("lost2", (n,), dtype="b")
    uv[lost] = np.nan
    d = env.choice("depth", [None, 1, 3])
    vals = env.array("v", (n,) if d is None else (n, d))
    buv, bv = uv.copy(), vals.copy()
    a = cam.rasterize(uv, vals)
    env.eq("frame.uv", uv, buv)
    env.eq("frame.values", vals, bv)
    w, h = par["imgsz"]
    env.ensure("shape", a.shape == ((h, w, 3) if d == 3 else (h, w)))
    want = {}
    for i in range(n):
        if np.isnan(uv[i]).any() or not (0 <= uv[i, 0] <= w and 0 <= uv[i, 1] <= h):
            continue
        # points on the far edges belong to the last pixel
        want.setdefault((min(int(uv[i, 1]), h - 1), min(int(uv[i, 0]), w - 1)), []).append(vals[i] if d == 3 else float(np.ravel(vals[i])[0]))
    for i in np.ndindex(h, w):
        if i in want:
            env.eq("mean", a[i], np.mean(want[i], axis=0))
        else:
            env.ensure("empty", bool(np.isnan(a[i]).all()))


@contract("C08", [CAM + "rasterize", CAM + "inframe", "glimpse/helpers.py:rasterize_points"], budget=150, paths=2000, shards=8, samples=100, bounded="at most 3 points (any positions and values, images of any size)")
def rasterize_cells(env):
    """An arbitrary pixel of an image of any size against the points in it."""
    np = env.np
    par = cam_params(env, "zero", "zero")
    w, h = par["imgsz"]
    cam = make(env, par)
    n = env.choice("n", [1, 2, 3])
    d = env.choice("depth", [None, 1, 2])
    uv = env.array("uv", (n, 2), scale=20, nan=True)
    vals = env.array("v", (n,) if d is None else (n, d))
    buv, bv = np.copy(uv), np.copy(vals)
    a = cam.rasterize(uv, vals)
    env.ensure("height", a.shape[0] == h)
    env.ensure("width", a.shape[1] == w)
    env.ensure("bands", len(a.shape) == (3 if d == 2 else 2))
    # (q is in pixel j of m: the last one holds its far border)
    inside = lambda q, j, m: env.land(j <= q, env.lor(q < j + 1, env.land(q == m, j == m - 1)))
    for i in env.each(h):
        for j in env.each(w):
            here = [env.land(inside(buv[q, 0], j, w), inside(buv[q, 1], i, h)) for q in range(n)]
            count = sum(env.ite(p, 1, 0) for p in here)
            for b in range(d or 1):
                got = a[i, j, b] if d == 2 else a[i, j]
                total = sum(env.ite(p, bv[q] if d is None else bv[q, b], 0) for q, p in enumerate(here))
                env.ensure("empty", env.iff(count == 0, np.isnan(got)))
                env.eq("mean", env.ite(count > 0, got * count, 0), total)
    for q in range(n):
        for b in range(2):
            env.ensure("frame.points", env.lor(uv[q, b] == buv[q, b], np.isnan(uv[q, b]) & np.isnan(buv[q, b])))
        for b in range(d or 1):
            env.eq("frame.values", vals[q] if d is None else vals[q, b], bv[q] if d is None else bv[q, b])


@contract("C08", [CAM + "project_dem", CAM + "rasterize"], sym=False, samples=60)
def project_dem_contract(env):
    """Pixels hold means of the values (and depths) of the elevation cells they show."""
    np = env.np
    par = cam_params(env, "zero", "zero")
    par["imgsz"] = [env.int("w", ge=3, le=9), env.int("h", ge=3, le=9)]
    par["f"] = [env.real(f"ff{i}", ge=4, le=9) for i in range(2)]
    par["c"] = [env.real(f"cc{i}", ge=-1, le=1) for i in range(2)]
    par["xyz"] = [env.real("x0", scale=3), env.real("y0", scale=3), env.real("z0", ge=6, le=12)]
    par["viewdir"] = [env.real("yaw", scale=180), env.real("pitch", ge=-90, le=-50), env.real("roll", scale=30)]
    corr = env.choice("correction", [False, True])
    cam = make(env, par, correction={"radius": 5000.0} if corr else False)
    ny, nx = env.int("ny", ge=2, le=9), env.int("nx", ge=2, le=9)
    Z = env.array("Z", (ny, nx), scale=2)
    hole = env.array("hole", (ny, nx), dtype="b") & env.array("hole2", (ny, nx), dtype="b")
    Z[hole] = np.nan
    dem = env.g.raster.Raster(Z.copy(), x=(-4, 4), y=(4, -4))
    bands = env.choice("bands", [0, 1, 2])
    values = env.array("values", (ny, nx, bands)) if bands else None
    flat = bands == 1 and env.choice("flat", [False, True])
    mask = None
    if env.choice("mask", [False, True]):
        mask = env.array("m", (ny, nx), dtype="b")
    ret = True if not bands else env.choice("depth", [False, True])
    tiled = env.choice("tiled", [False, True])
    kw = {"tile_size": (3, 3)} if tiled else {}
    given = None if values is None else values[:, :, 0] if flat else values
    bz, bv, bm = dem.array.copy(), None if given is None else given.copy(), None if mask is None else mask.copy()
    a = cam.project_dem(dem, values=given, mask=mask, return_depth=ret, **kw)
    w, h = par["imgsz"]
    nb = bands + ret
    env.ensure("shape", a.shape == (h, w, nb))
    env.eq("frame.dem", dem.array, bz)
    if given is not None:
        env.eq("frame.values", given, bv)
    if mask is not None:
        env.ensure("frame.mask", (mask == bm).all())
    use = ~np.isnan(Z) if mask is None else mask & ~np.isnan(Z)
    X, Y = np.meshgrid(dem.x, dem.y)
    pts = np.column_stack((X[use], Y[use], Z[use]))
    if not len(pts):
        env.ensure("empty", bool(np.isnan(a).all()))
        return
    uv, depth = cam.xyz_to_uv(pts, return_depth=True)
    for x in np.ravel(uv):
        env.assume(np.isnan(x) or abs(x - round(x)) > 1e-6)
    data = values[use] if bands else np.zeros((len(pts), 0))
    if ret:
        data = np.column_stack((data, depth))
    cells = {}
    for p, v in zip(uv, data):
        if not np.isnan(p).any() and 0 <= p[0] <= w and 0 <= p[1] <= h:
            cells.setdefault((int(p[1]), int(p[0])), []).append(v)
    for i in np.ndindex(h, w):
        if i not in cells:
            env.ensure("no-data", bool(np.isnan(a[i]).all()))
        elif not tiled:
            env.eq("mean", a[i], np.mean(cells[i], axis=0), tol=1e-6)
        else:
            # tiles overlap: a pixel shows the mean of its cells in one of them
            v = np.array(cells[i])
            env.ensure("between", bool((a[i] >= v.min(axis=0) - 1e-9).all() and (a[i] <= v.max(axis=0) + 1e-9).all()))
    exc, _ = env.raises(lambda: cam.project_dem(dem, values=None, return_depth=False), ValueError)
    env.ensure("values-or-depth", exc is not None)
    exc, _ = env.raises(lambda: cam.project_dem(dem, mask=np.ones((ny + 1, nx), dtype=bool), return_depth=True), ValueError)
    env.ensure("mask-shape", exc is not None)


@contract("C08", [CAM + "project_dem"], sym=False, samples=40)
def project_dem_scaled(env):
    """Rescaled tiles: a constant surface keeps its values and depths, within the frame."""
    np = env.np
    cam = env.g.camera.Camera(imgsz=(12, 10), f=(12, 12), xyz=(0, 0, env.real("z", ge=8, le=40)), viewdir=(env.real("yaw", scale=180), -90, 0))
    n = env.int("n", ge=4, le=14)
    z, val = env.real("dz", scale=2), env.real("val")
    dem = env.g.raster.Raster(np.full((n, n), z), x=(-5, 5), y=(5, -5))
    has = env.choice("values", [False, True])
    a = cam.project_dem(
        dem, values=np.full((n, n), val) if has else None, return_depth=True,
        scale=env.choice("scale", [0.5, 1, 2]), scale_limits=env.choice("limits", [(1, 1), (0.5, 2), (0.25, 1), (2, 3)]),
    )
    seen = ~np.isnan(a[:, :, -1])
    env.ensure("some", bool(seen.any()))
    env.eq("depth", a[seen][:, -1], np.full(seen.sum(), cam.xyz[2] - z), tol=1e-6)
    if has:
        env.eq("value", a[seen][:, 0], np.full(seen.sum(), val), tol=1e-6)

"""Contracts on glimpse.convert: external camera models and their conversions."""
from ..harness import contract
from .camera import cam_params, distort, make, to_image, vec

CONV = "glimpse/convert/"
MATLAB = CONV + "cameras/matlab.py:Matlab."
AGISOFT = CONV + "cameras/agisoft.py:Agisoft."
OPENCV = CONV + "cameras/opencv.py:OpenCV."
PM = CONV + "cameras/photomodeler.py:PhotoModeler."
CONVERTER = CONV + "converter.py:Converter."


def external(env, name):
    mod = {"Matlab": "matlab", "Agisoft": "agisoft", "OpenCV": "opencv", "PhotoModeler": "photomodeler"}[name]
    return getattr(getattr(env.g, "convert__cameras__" + mod), name)


def size(env):
    return [env.int("nx", ge=1, scale=200), env.int("ny", ge=1, scale=200)]


# -- the published models -------------------------------------------------------


def matlab_uv(par, x, y):
    """Bouguet: distortion kc = (k1, k2, p1, p2, k3), skew, pixel centres at integers."""
    k1, k2, p1, p2, k3 = par["kc"]
    r2 = x * x + y * y
    d = 1 + k1 * r2 + k2 * r2 * r2 + k3 * r2 * r2 * r2
    xd = d * x + 2 * p1 * x * y + p2 * (r2 + 2 * x * x)
    yd = d * y + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y
    (fx, fy), (cx, cy) = par["fc"], par["cc"]
    return fx * (xd + par["alpha_c"] * yd) + cx + 0.5, fy * yd + cy + 0.5


def agisoft_uv(par, x, y):
    """Metashape manual, appendix C (frame cameras)."""
    r2 = x * x + y * y
    d = 1 + par["k1"] * r2 + par["k2"] * r2 * r2 + par["k3"] * r2 * r2 * r2 + par["k4"] * r2 * r2 * r2 * r2
    xd = x * d + (par["p1"] * (r2 + 2 * x * x) + 2 * par["p2"] * x * y)
    yd = y * d + (par["p2"] * (r2 + 2 * y * y) + 2 * par["p1"] * x * y)
    w, h = par["imgsz"]
    return w * 0.5 + par["cx"] + xd * par["f"] + xd * par["b1"] + yd * par["b2"], h * 0.5 + par["cy"] + yd * par["f"]


def opencv_uv(par, x, y):
    """OpenCV calib3d, without tilt."""
    r2 = x * x + y * y
    d = (1 + par["k1"] * r2 + par["k2"] * r2 * r2 + par["k3"] * r2 * r2 * r2) / (
        1 + par["k4"] * r2 + par["k5"] * r2 * r2 + par["k6"] * r2 * r2 * r2
    )
    xd = x * d + 2 * par["p1"] * x * y + par["p2"] * (r2 + 2 * x * x) + par["s1"] * r2 + par["s2"] * r2 * r2
    yd = y * d + par["p1"] * (r2 + 2 * y * y) + 2 * par["p2"] * x * y + par["s3"] * r2 + par["s4"] * r2 * r2
    return par["fx"] * xd + par["cx"], par["fy"] * yd + par["cy"]


def photomodeler_xy(par, u, v):
    """PhotoModeler help: millimetres about the principal point, y up; corrections added."""
    w, h = par["imgsz"]
    x = u * par["fw"] / w - par["xp"]
    y = -(v * par["fh"] / h - par["yp"])
    r2 = x * x + y * y
    d = par["k1"] * r2 + par["k2"] * r2 * r2 + par["k3"] * r2 * r2 * r2
    xc = x + x * d + par["p1"] * (r2 + 2 * x * x) + 2 * par["p2"] * x * y
    yc = y + y * d + par["p2"] * (r2 + 2 * y * y) + 2 * par["p1"] * x * y
    return xc / par["focal"], -yc / par["focal"]


def parameters(env, name, exact=False):
    """Arbitrary parameters of an external camera (exact: those a Camera can hold)."""
    par = {"imgsz": tuple(size(env))}
    small = {"scale": 0.5}
    if name == "Matlab":
        par.update(fc=tuple(vec(env, "fc", 2, gt=0, scale=200)), cc=tuple(vec(env, "cc", 2, scale=100)), kc=tuple(vec(env, "kc", 5, **small)))
        par["alpha_c"] = 0 if exact else env.real("alpha", **small)
    elif name == "Agisoft":
        par["f"] = env.real("f", gt=0, scale=200)
        for k in ("cx", "cy", "b1"):
            par[k] = env.real(k, scale=5)
        for k in ("k1", "k2", "k3", "k4", "p1", "p2", "b2"):
            par[k] = env.real(k, **small)
        if exact:
            par["k4"] = par["b2"] = 0
    elif name == "OpenCV":
        for k in ("fx", "fy"):
            par[k] = env.real(k, gt=0, scale=200)
        for k in ("cx", "cy"):
            par[k] = env.real(k, scale=100)
        for k in ("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s1", "s2", "s3", "s4"):
            par[k] = 0 if exact and k[0] == "s" else env.real(k, **small)
    else:
        par["focal"] = env.real("focal", gt=0, scale=50)
        par["fw"], par["fh"] = env.real("fw", gt=0, scale=30), env.real("fh", gt=0, scale=30)
        par["xp"], par["yp"] = env.real("xp", scale=20), env.real("yp", scale=20)
        for k in ("k1", "k2", "k3", "p1", "p2"):
            par[k] = 0 if exact else env.real(k, scale=0.01)
    return par


def good(env, x, y, k4, k5, k6):
    r2 = x * x + y * y
    d = 1 + k4 * r2 + k5 * r2 * r2 + k6 * r2 * r2 * r2
    env.assume(d != 0 if env.symbolic else abs(d) > 1e-2)


NAMES = ["Matlab", "Agisoft", "OpenCV", "PhotoModeler"]
SPEC = {"Matlab": matlab_uv, "Agisoft": agisoft_uv, "OpenCV": opencv_uv}


# -- V01 models -----------------------------------------------------------------


@contract("V01", [MATLAB + "_xy_to_uv", AGISOFT + "_xy_to_uv", OPENCV + "_xy_to_uv", PM + "_uv_to_xy"], budget=120)
def external_models(env):
    """External cameras project as their software documents."""
    name = env.choice("model", NAMES)
    par = parameters(env, name)
    X = external(env, name)(**par)
    n = env.size("n", ge=1)
    pts = env.array("pts", (n, 2), scale=1 if name != "PhotoModeler" else 100)
    before = pts.copy()
    got = X._uv_to_xy(pts) if name == "PhotoModeler" else X._xy_to_uv(pts)
    env.ensure("shape", env.land(got.shape[0] == n, got.shape[1] == 2))
    for i in env.each(n):
        a, b = before[i, 0], before[i, 1]
        if name == "OpenCV":
            good(env, a, b, par["k4"], par["k5"], par["k6"])
        want = photomodeler_xy(par, a, b) if name == "PhotoModeler" else SPEC[name](par, a, b)
        env.eq("x", got[i, 0], want[0], scale=1000)
        env.eq("y", got[i, 1], want[1], scale=1000)
        env.eq("unchanged", pts[i, 0], a)
        env.eq("unchanged", pts[i, 1], b)


@contract("V01", [MATLAB + "__init__", AGISOFT + "__init__", OPENCV + "__init__", OPENCV + "cameraMatrix", OPENCV + "distCoeffs", OPENCV + "from_arrays", OPENCV + "_parse_camera_matrix", OPENCV + "_parse_distortion_coefficients"], budget=60)
def external_defaults(env):
    """Missing parameters mean a centred principal point and no distortion; matrices hold all others."""
    name = env.choice("model", ["Matlab", "Agisoft", "OpenCV", "arrays"])
    sz = tuple(size(env))
    f = vec(env, "f", 2, gt=0, scale=200)
    x, y = env.real("x", scale=1), env.real("y", scale=1)
    xy = env.np.array([[x, y]])
    if name == "arrays":
        par = parameters(env, "OpenCV")
        C = external(env, "OpenCV")
        X = C(**par)
        M, D = X.cameraMatrix, X.distCoeffs
        want = [[par["fx"], 0, par["cx"]], [0, par["fy"], par["cy"]], [0, 0, 1]]
        for i in range(3):
            for j in range(3):
                env.eq("matrix", M[i][j], want[i][j])
        keys = ("k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4")
        n = env.choice("given", [0, 4, 5, 8, 12])
        Y = C.from_arrays(M, D[:n], imgsz=par["imgsz"])
        for i, k in enumerate(keys):
            env.eq("coefficient", D[i], par[k])
            env.eq("coefficient", getattr(Y, k), par[k] if i < n else 0)
        for k in ("fx", "fy", "cx", "cy"):
            env.eq("parameter", getattr(Y, k), par[k])
        return
    if name == "Matlab":
        X = external(env, name)(sz, tuple(f))
    elif name == "Agisoft":
        X = external(env, name)(sz, f[0])
        f[1] = f[0]
    else:
        X = external(env, name)(sz, *f)
    got = X._xy_to_uv(xy)
    env.eq("x", got[0, 0], x * f[0] + sz[0] / 2, scale=100)
    env.eq("y", got[0, 1], y * f[1] + sz[1] / 2, scale=100)


# -- V02 exact conversions ----------------------------------------------------


@contract("V02", [MATLAB + "from_camera", MATLAB + "_from_camera_initial", MATLAB + "to_camera", AGISOFT + "from_camera", AGISOFT + "_from_camera_initial", AGISOFT + "to_camera", OPENCV + "from_camera", OPENCV + "_from_camera_initial", OPENCV + "to_camera"], budget=200, shards=3)
def convert_camera(env):
    """Cameras a model can hold: same image of every ray, and the same camera back."""
    name = env.choice("model", NAMES[:3])
    par = cam_params(env)
    if name != "OpenCV":
        par["k"][3:] = [0, 0, 0]
    cam = make(env, par)
    start = cam._vector.copy()
    C = external(env, name)
    k = {} if name == "OpenCV" else {"optimize": env.choice("optimize", [True, False])}
    X = C.from_camera(cam, **k)
    n = env.size("n", ge=1)
    xy = env.array("xy", (n, 2), scale=1)
    got = X._xy_to_uv(xy)
    for i in env.each(n):
        x, y = xy[i, 0], xy[i, 1]
        if name == "OpenCV":
            good(env, x, y, *par["k"][3:])
        u, v = to_image(env, par, (x, y))
        env.eq("u", got[i, 0], u, scale=1000)
        env.eq("v", got[i, 1], v, scale=1000)
    back = X.to_camera(optimize=env.choice("back", [True, False]))
    for j in range(6, 20):
        env.eq("back", back._vector[j], start[j], scale=100)
    for j in range(20):
        env.eq("unchanged", cam._vector[j], start[j])


@contract("V02", [MATLAB + "to_camera", MATLAB + "_to_camera_initial", AGISOFT + "to_camera", AGISOFT + "_to_camera_initial", OPENCV + "to_camera", OPENCV + "_to_camera_initial"], budget=200, shards=3)
def convert_external(env):
    """Models a camera can hold: the camera has the same image of every ray."""
    name = env.choice("model", NAMES[:3])
    par = parameters(env, name, exact=True)
    X = external(env, name)(**par)
    cam = X.to_camera()
    n = env.size("n", ge=1)
    xy = env.array("xy", (n, 2), scale=1)
    got = cam._xy_to_uv(xy.copy())
    for i in env.each(n):
        x, y = xy[i, 0], xy[i, 1]
        if name == "OpenCV":
            good(env, x, y, par["k4"], par["k5"], par["k6"])
        u, v = SPEC[name](par, x, y)
        env.eq("u", got[i, 0], u, scale=1000)
        env.eq("v", got[i, 1], v, scale=1000)
    for j in range(6):
        env.eq("pose", cam._vector[j], 0)


@contract("V02", [PM + "from_camera", PM + "_from_camera_initial", PM + "to_camera", PM + "_to_camera_initial"], budget=120)
def convert_photomodeler(env):
    """Undistorted cameras of one focal length: rays of every image point, and back."""
    sz = size(env)
    S = vec(env, "s", 2, gt=0, scale=40)
    focal = env.real("focal", gt=0, scale=50)
    cmm = vec(env, "c", 2, scale=5)
    kind = env.choice("kind", ["camera", "external"])
    C = external(env, "PhotoModeler")
    k = {"optimize": env.choice("optimize", [True, False])}
    if kind == "camera":
        cam = make(env, {"imgsz": sz, "sensorsz": S, "fmm": focal, "cmm": cmm})
        X = C.from_camera(cam, **k)
        fx, fy = cam.f[0], cam.f[1]
        env.lemma("focal", env.land(fx == focal * sz[0] / S[0], fy == focal * sz[1] / S[1]) if env.symbolic else True)
    else:
        X = C(sz, focal, S[0] / 2 + cmm[0], S[1] / 2 + cmm[1], *S)
        cam = X.to_camera(**k)
    n = env.size("n", ge=1)
    uv = env.array("uv", (n, 2), scale=100)
    got = X._uv_to_xy(uv)
    for i in env.each(n):
        for j in range(2):
            # the ray through this point, from the sensor
            want = (uv[i, j] * S[j] / sz[j] - S[j] / 2 - cmm[j]) / focal
            env.eq("ray", got[i, j], want, scale=10)
    same = cam._xy_to_uv(got)
    for i in env.each(n):
        for j in range(2):
            env.eq("point", same[i, j], uv[i, j], scale=1000)
    back = X.to_camera() if kind == "camera" else C.from_camera(cam)
    if kind == "camera":
        for j in range(6, 20):
            env.eq("back", back._vector[j], cam._vector[j], scale=100)
    else:
        for a in ("focal", "xp", "yp", "fw", "fh", "k1", "k2", "k3", "p1", "p2"):
            env.eq("back", getattr(back, a), getattr(X, a), scale=100)


# -- V03 residuals, optimisation, reports ----------------------------------------


@contract("V03", [CONVERTER + "residuals", CONVERTER + "__init__"], budget=60)
def converter_residuals(env):
    """Difference in the image of the same rays: camera less external camera."""
    np = env.np
    n = env.size("n", ge=1)
    uv = env.array("uv", (n, 2))
    images = [env.array(f"i{k}", (n, 2)) for k in range(3)]
    seen = []

    class Any:
        imgsz = np.array([30, 20])

        def __init__(self, tag, **maps):
            for m, out in maps.items():
                setattr(self, m, lambda p, m=m, out=out: seen.append((tag, m, p)) or np.array(out))

    outgoing = env.choice("outgoing", [False, True])
    cam = Any("cam", _xy_to_uv=images[0], _uv_to_xy=images[1])
    X = Any("external", **({"_uv_to_xy": images[2]} if outgoing else {"_xy_to_uv": images[2]}))
    conv = env.g.convert__converter.Converter(X, cam, uv=uv)
    got = conv.residuals()
    if outgoing:
        steps = [("external", "_uv_to_xy", uv), ("cam", "_xy_to_uv", images[2])]
        want = lambda i, j: images[0][i, j] - uv[i, j]
    else:
        steps = [("cam", "_uv_to_xy", uv), ("cam", "_xy_to_uv", images[1]), ("external", "_xy_to_uv", images[1])]
        want = lambda i, j: images[0][i, j] - images[2][i, j]
    env.ensure("steps", [s[:2] for s in seen] == [s[:2] for s in steps], str([s[:2] for s in seen]))
    for i in env.each(n):
        for j in range(2):
            env.eq("residual", got[i, j], want(i, j))
            for s, t in zip(seen, steps):
                env.eq("rays", s[2][i, j], t[2][i, j])
    X.imgsz = (30, env.int("other", ge=1, le=40))
    exc, _ = env.raises(lambda: env.g.convert__converter.Converter(X, cam, uv=uv), ValueError)
    env.ensure("sizes", env.iff(exc is not None, X.imgsz[1] != 20))


@contract("V03", [CONVERTER + "_grid"], sym=False, samples=300)
def converter_grid(env):
    """A regular grid over the whole image, of about as many points as asked for."""
    np = env.np
    sz = [env.int("nx", ge=1, le=6000), env.int("ny", ge=1, le=4000)]
    n = env.int("n", ge=1, le=2000)
    cam = env.g.camera.Camera(imgsz=sz, f=100)
    uv = env.g.convert__converter.Converter(cam, cam, uv=n).uv
    env.ensure("shape", uv.ndim == 2 and uv.shape[1] == 2)
    axes = [np.unique(uv[:, j]) for j in range(2)]
    env.ensure("grid", len(uv) == len(axes[0]) * len(axes[1]) == len({tuple(p) for p in uv}))
    for j in range(2):
        m = len(axes[j])
        env.eq("even", axes[j], (np.arange(m) + 0.5) * sz[j] / m, scale=sz[j])
    # sides of the cells are within a factor of one another where the image allows
    d = [sz[j] / len(axes[j]) for j in range(2)]
    if min(sz) > 2 * np.sqrt(sz[0] * sz[1] / n):
        env.ensure("square", max(d) / min(d) < 2)
        env.ensure("number", 0.5 * n <= len(uv) <= 2 * n, f"{len(uv)} for {n}")


def distorted_pair(env):
    """A camera and an external camera that cannot represent it exactly."""
    sz = (env.int("nx", ge=60, le=200), env.int("ny", ge=40, le=160))
    par = {"imgsz": sz, "f": [sz[0] * env.real(f"f{i}", ge=0.9, le=1.6) for i in range(2)], "c": vec(env, "c", 2, scale=4)}
    par["k"] = [env.real(f"k{i}", ge=-0.1, le=0.1) * 0.3**i for i in range(3)] + [env.real("k4", ge=0.005, le=0.03), 0, 0]
    par["p"] = [env.real(f"p{i}", ge=-0.005, le=0.005) for i in range(2)]
    par["xyz"], par["viewdir"] = vec(env, "x", 3), vec(env, "v", 3)
    return env.g.camera.Camera(**par)


def cost(env, X, cam, uv=300):
    return float((env.g.convert__converter.Converter(X, cam, uv=uv).residuals() ** 2).sum())


CHOICES = {
    "Matlab": [True, {"kc": True}, {"kc": 0}, {"kc": [0, 1, 4]}, {"kc": 1, "fc": True, "cc": False}, {"fc": [1], "kc": [0]}],
    "Agisoft": [True, {"k1": True}, {"k1": 0, "k2": 0}, {"f": True, "b1": True, "k1": True}],
}
FREED = {"Matlab": {"kc": True}, "Agisoft": {"k1": True, "k2": True, "k3": True}}


@contract("V03", [CONVERTER + "optimize_xcam", MATLAB + "from_camera", AGISOFT + "from_camera"], sym=False, samples=60)
def fitted_external(env):
    """Only the chosen parameters change, for the better; the camera does not."""
    np = env.np
    cam = distorted_pair(env)
    start = cam._vector.copy()
    name = env.choice("model", ["Matlab", "Agisoft"])
    C = external(env, name)
    free = CHOICES[name][env.int("choice", ge=0, le=len(CHOICES[name]) - 1)]
    first = C.from_camera(cam, optimize=False)
    X = C.from_camera(cam, optimize=free, uv=300)
    env.ensure("camera", (cam._vector == start).all())
    free = FREED[name] if free is True else free
    for key, value in vars(first).items():
        old, new = np.atleast_1d(value).astype(float), np.atleast_1d(getattr(X, key)).astype(float)
        sel = free.get(key, False)
        fixed = np.ones(len(old), dtype=bool)
        if sel is True:
            fixed[:] = False
        elif sel is not False:
            fixed[np.atleast_1d(sel)] = False
        env.ensure("fixed", (old[fixed] == new[fixed]).all(), key)
    a, b = cost(env, first, cam), cost(env, X, cam)
    env.ensure("better", b < a or a < 1e-12, f"{a} {b}")
    # a minimum: small changes of any free parameter do not help
    for key, sel in free.items():
        if sel is False:
            continue
        value = np.atleast_1d(getattr(X, key)).astype(float)
        for i in range(len(value)) if sel is True else np.atleast_1d(sel):
            for step in (1e-3, -1e-3):
                trial = value.copy()
                trial[i] += step * max(1, abs(trial[i]))
                setattr(X, key, tuple(trial) if len(trial) > 1 else trial[0])
                env.ensure("minimum", cost(env, X, cam) >= 0.9 * b - 1e-5 * a, f"{key} {i}")
                setattr(X, key, tuple(value) if len(value) > 1 else value[0])


TO = {
    "Matlab": ({"alpha_c": 0.01}, {"f": True, "c": True, "k": True, "p": True}),
    "Agisoft": ({"k4": 0.02}, {"k": True}),
    "Agisoft-b2": ({"b2": 1.5}, {"f": True, "c": True, "k": True}),
    "OpenCV": ({"s1": 0.002, "s3": -0.001}, {"k": True, "p": True}),
    "PhotoModeler": ({"k1": 1e-4}, {"k": True}),
    "PhotoModeler-p": ({"p1": 1e-5, "p2": -2e-5}, {"p": True}),
}


@contract("V03", [CONVERTER + "optimize_cam", MATLAB + "to_camera", AGISOFT + "to_camera", OPENCV + "to_camera", PM + "to_camera"], sym=False, samples=60)
def fitted_camera(env):
    """Only the documented (or chosen) parameters of the camera are fitted; the model is not changed."""
    np = env.np
    case = env.choice("case", list(TO))
    name = case.split("-")[0]
    extra, free = TO[case]
    sz = (env.int("nx", ge=60, le=200), env.int("ny", ge=40, le=160))
    k = {"k1": env.real("k1", ge=-0.1, le=0.1), "p1": env.real("p1", ge=-0.003, le=0.003)}
    f = sz[0] * env.real("f", ge=1, le=1.6)
    c = vec(env, "c", 2, ge=-3, le=3)
    if name == "Matlab":
        X = external(env, name)(sz, (f, f * 1.01), (sz[0] / 2 + c[0], sz[1] / 2 + c[1]), (k["k1"], 0, k["p1"], 0, 0), **extra)
    elif name == "Agisoft":
        X = external(env, name)(sz, f, *c, **k, **extra)
    elif name == "OpenCV":
        X = external(env, name)(sz, f, f * 0.99, sz[0] / 2 + c[0], sz[1] / 2 + c[1], **k, **extra)
    else:
        X = external(env, name)(sz, 28, 18, 12, 36, 24, **extra)
    before = dict(vars(X))
    first = X.to_camera(optimize=False)
    if env.choice("default", [True, False]):
        cam = X.to_camera(uv=300)
    else:
        free = env.choice("free", [{"f": True}, {"k": 0}, {"c": [1], "k": [0, 2]}])
        cam = X.to_camera(optimize=free, uv=300)
    env.ensure("model", vars(X) == before)
    lo = {"f": 8, "c": 10, "k": 12, "p": 18}
    n = {"f": 2, "c": 2, "k": 6, "p": 2}
    mask = np.zeros(20, dtype=bool)
    for key, sel in free.items():
        mask[[lo[key] + i for i in (range(n[key]) if sel is True else np.atleast_1d(sel))]] = True
    env.ensure("fixed", (cam._vector[~mask] == first._vector[~mask]).all())
    a, b = cost(env, X, first), cost(env, X, cam)
    env.ensure("better", b < a or a < 1e-12, f"{a} {b}")
    for j in np.nonzero(mask)[0]:
        for step in (1e-3, -1e-3):
            trial = cam.copy()
            trial._vector[j] += step * max(1, abs(trial._vector[j]))
            if name == "PhotoModeler" or j in (8, 9, 10, 11):
                env.ensure("minimum", cost(env, X, trial) >= 0.9 * b - 1e-5 * a, f"{j}")
    env.ensure("exact", X.to_camera(optimize=False)._vector.tolist() == first._vector.tolist())


def folder(env):
    import tempfile

    return tempfile.TemporaryDirectory()


@contract("V03", [MATLAB + "from_report", AGISOFT + "from_xml", OPENCV + "from_xml", PM + "from_report"], sym=False, samples=120)
def calibration_reports(env):
    """Reports are read as written, means and standard deviations."""
    import os

    name = env.choice("model", NAMES)
    C = external(env, name)
    sz = (env.int("nx", ge=1, le=9000), env.int("ny", ge=1, le=9000))
    num = lambda i: env.real(f"v{i}", scale=10 ** (i % 7 - 3))
    with folder(env) as d:
        path = os.path.join(d, "report")
        if name == "Matlab":
            keys = {"fc": 2, "cc": 2, "alpha_c": 1, "kc": 5}
            vals = {k + s: [num(7 * i + j + 40 * (s != "")) for j in range(m)] for i, (k, m) in enumerate(keys.items()) for s in ("", "_error")}
            lines = [f"{k} = [ {' ; '.join(map(repr, v))} ];" if len(v) > 1 else f"{k} = {v[0]!r};" for k, v in vals.items()]
            lines = ["% Intrinsic and Extrinsic Camera Parameters", "", *lines, "%-- Image size:", f"nx = {sz[0]};", f"ny = {sz[1]};"]
            txt = "\n".join(lines)
        elif name == "Agisoft":
            keys = ["f", "cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1", "b2"]
            given = ["f"] + [k for k in keys[1:] if env.choice("has-" + k, [True, False])]
            vals = {k: num(i) for i, k in enumerate(keys) if k in given}
            tags = "".join(f"<{k}>{v!r}</{k}>\n" for k, v in vals.items())
            kind = env.choice("projection", ["frame", "fisheye"])
            body = f"<calibration>\n<projection>{kind}</projection><width>{sz[0]}</width><height>{sz[1]}</height>{tags}<date>2020-01-01T00:00:00Z</date></calibration>"
            if env.choice("nested", [True, False]):
                body = f"<document><sensor>{body}</sensor></document>"
            txt = '<?xml version="1.0"?>\n' + body
        elif name == "OpenCV":
            par = parameters(env, "OpenCV")
            n = env.choice("given", [None, 4, 5, 8, 12, 14])
            X0 = C(**par)
            M = [v for row in X0.cameraMatrix for v in row]
            D = (X0.distCoeffs + [0.5, 0.25])[:n] if n else []
            data = lambda v: "<data>\n " + " ".join(map(repr, v)) + "</data>"
            coefs = f"<distortion_coefficients type_id='opencv-matrix'><rows>{len(D)}</rows>{data(D)}</distortion_coefficients>" if D else ""
            txt = f"<opencv_storage><camera_matrix type_id='opencv-matrix'><rows>3</rows>{data(M)}</camera_matrix>{coefs}</opencv_storage>"
            if env.choice("no-matrix", [False, False, True]):
                txt = txt.replace("camera_matrix", "other_matrix")
        else:
            labels = ["Focal Length", "Xp - principal point x", "Yp - principal point y", "Fw - format width", "Fh - format height", "K1 - radial distortion 1", "K2 - radial distortion 2", "K3 - radial distortion 3", "P1 - decentering distortion 1", "P2 - decentering distortion 2"]
            short = ["Focal", "Xp", "Yp", "Fw", "Fh", "K1", "K2", "K3", "P1", "P2"]
            vals, lines, devs = [], [], []
            for i, (lab, s) in enumerate(zip(labels, short)):
                unit = " mm" if i < 5 else ""
                vals.append(float(f"{num(i):.3e}"))
                lines += [f"            {lab}", f"               Value: {vals[-1]:.3e}{unit}"]
                has = env.choice(f"dev{i}", [True, False])
                devs.append(abs(float(f"{num(20 + i):.1e}")) if has else 0.0)
                if has:
                    lines.append(f"               Deviation: {s}: {devs[-1]:.1e}{unit}")
            txt = "\n".join(["Status Report Tree", "   Camera Calibration Standard Deviations", "         Camera1: X [28.00]", *lines, "", "Quality", "   Total Number: 12"])
        with open(path, "w") as f:
            f.write(txt)
        if name == "Matlab":
            for sig in (False, True):
                X = C.from_report(path, sigmas=sig)
                for k in keys:
                    want = [v / 3 if sig else v for v in vals[k + ("_error" if sig else "")]]
                    got = getattr(X, k)
                    env.eq(k, list(got) if isinstance(got, tuple) else [got], want, scale=1)
                env.ensure("size", X.imgsz == ((0, 0) if sig else sz))
        elif name == "Agisoft":
            exc, X = env.raises(lambda: C.from_xml(path), ValueError)
            env.ensure("frame", (exc is None) == (kind == "frame"))
            if exc is None:
                env.ensure("size", X.imgsz == sz)
                for k in keys:
                    env.ensure(k, getattr(X, k) == vals.get(k, 0))
        elif name == "OpenCV":
            import warnings

            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                exc, X = env.raises(lambda: C.from_xml(path, imgsz=sz), ValueError)
            env.ensure("matrix", (exc is None) == ("other_matrix" not in txt))
            if exc is None:
                env.ensure("size", tuple(X.imgsz) == sz)
                env.ensure("warned", any("not supported" in str(x.message) for x in w) == (n == 14))
                for k in ("fx", "fy", "cx", "cy"):
                    env.ensure(k, getattr(X, k) == par[k])
                env.ensure("coefficients", X.distCoeffs == (D[:12] + [0] * 12)[:12])
        else:
            X, S = C.from_report(path, imgsz=sz), C.from_report(path, imgsz=sz, sigmas=True)
            for i, k in enumerate(("focal", "xp", "yp", "fw", "fh", "k1", "k2", "k3", "p1", "p2")):
                env.ensure(k, getattr(X, k) == vals[i], f"{getattr(X, k)} {vals[i]}")
                env.ensure(k + " deviation", getattr(S, k) == devs[i], f"{getattr(S, k)} {devs[i]}")
            env.ensure("size", X.imgsz == sz == S.imgsz)

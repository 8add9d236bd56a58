"""Contracts on glimpse.optimize: controls, multi-camera models, RANSAC, keypoints."""
import math

from ..harness import Seen, contract, instance

OPT = "glimpse/optimize.py:"
CAMS = OPT + "Cameras."
SLOTS = {"xyz": (0, 3), "viewdir": (3, 6), "imgsz": (6, 8), "f": (8, 10), "c": (10, 12), "k": (12, 18), "p": (18, 20)}
LABELS = [f"{k}{i}" for k, (a, b) in SLOTS.items() for i in range(b - a)]


def vec(env, name, n, **k):
    return [env.real(f"{name}{i}", **k) for i in range(n)]


# -- O01 parameter selection ------------------------------------------------------


def selection(env, name, n):
    """(value to pass, selected elements) for an attribute of n elements."""
    kind = env.choice(name, ["all", "none", "int", "list", "array", "empty"])
    if kind == "all":
        return True, list(range(n))
    if kind == "none":
        return False, []
    if kind == "int":
        i = env.choice(name + ".i", [0, n - 1])
        return i, [i]
    sub = env.choice(name + ".sub", [[0], [n - 1, 0], list(range(1, n))])
    if kind == "empty":
        return [], []
    return (sub if kind == "list" else env.np.array(sub)), sub


def limit(env, name, sel):
    """(bound to pass, the bound of each selected element or None)."""
    np = env.np
    kind = env.choice(name, ["none", "nan", "one", "some"])
    x = vec(env, name, max(len(sel), 1))
    if kind == "none":
        return None, [None] * len(sel)
    if kind == "nan":
        return np.nan, [None] * len(sel)
    if kind == "one" or not sel:
        return x[0], [x[0]] * len(sel)
    x = x[: len(sel)]
    return [None] + x[1:], [None] + x[1:]


@contract("O01", [CAMS + "parse_params"], budget=120, samples=300)
def selected_parameters(env):
    """Exactly the selected elements, in slots of their attribute; others unselected."""
    np = env.np
    a, b = env.choice("attributes", [("viewdir", None), ("f", "xyz"), ("k", "p"), ("c", "imgsz")])
    params, want = {}, set()
    for key in (a, b):
        if key is None:
            continue
        lo, hi = SLOTS[key]
        params[key], sel = selection(env, key, hi - lo) if key == a else (True, range(hi - lo))
        want |= {lo + i for i in sel}
    mask, bounds = env.g.optimize.Cameras.parse_params(params)
    env.ensure("shape", mask.shape == (20,) and bounds.shape == (20, 2))
    for i in range(20):
        env.ensure("mask", bool(mask[i]) == (i in want), f"{i}")
        env.ensure("unbounded", env.land(bounds[i, 0] == -np.inf, bounds[i, 1] == np.inf))


@contract("O01", [CAMS + "parse_params"], budget=200, samples=300, paths=3000, shards=4)
def parameter_bounds(env):
    """Given bounds apply to the selected elements; missing ones are the defaults."""
    np = env.np
    key = env.choice("attribute", ["viewdir", "f"])
    lo, hi = SLOTS[key]
    val, sel = selection(env, "sel", hi - lo)
    bmin, wmin = limit(env, "min", sel)
    bmax, wmax = limit(env, "max", sel)
    k, D = {}, None
    if env.choice("defaults", [True, False]):
        D = env.array("D", (20, 2), nan=True)
        k["default_bounds"] = np.array(D)
    mask, bounds = env.g.optimize.Cameras.parse_params({key: (val, bmin, bmax)}, **k)
    given = {lo + e: (wmin[j], wmax[j]) for j, e in enumerate(sel)}
    for i in range(20):
        env.ensure("mask", bool(mask[i]) == (i in given))
        for s, inf in ((0, -np.inf), (1, np.inf)):
            w = given.get(i, (None, None))[s]
            if w is None:
                w = inf if D is None else env.ite(env.isnan(D[i, s]), inf, D[i, s])
            env.ensure("bound", bounds[i, s] == w)
            if D is not None:
                env.ensure("frame.defaults", env.same(k["default_bounds"][i, s], D[i, s]))


@contract("O01", [CAMS + "_lmfit_labels", CAMS + "camera_bounds"], budget=60)
def parameter_labels(env):
    """Labels name the attribute and element of each selected slot; default bounds fit the slots."""
    np = env.np
    M = [env.choice(f"m{i}", [False, True]) for i in (0, 3, 9, 17)] if not env.symbolic else [True, False, True, True]
    mask = np.zeros(20, dtype=bool)
    for i, v in zip((0, 3, 9, 17), M):
        mask[i] = v
    C = env.g.optimize.Cameras
    want = [l for i, l in enumerate(LABELS) if mask[i]]
    who = env.choice("who", ["cam", "group"])
    got = C._lmfit_labels(mask, **{who: 7})
    env.ensure("labels", list(got) == [f"{who}7_{l}" for l in want], str(got))
    env.ensure("bare", list(C._lmfit_labels(mask)) == want)
    w, h = env.int("w", ge=1), env.int("h", ge=1)
    f = vec(env, "f", 2, gt=0)
    cam = env.g.camera.Camera(imgsz=(w, h), f=f)
    B = C.camera_bounds(cam)
    env.ensure("shape", B.shape == (20, 2))
    for i in range(6):
        env.ensure("free", env.land(B[i, 0] == -np.inf, B[i, 1] == np.inf))
    for i in range(6, 10):
        env.ensure("positive", env.land(B[i, 0] == 0, B[i, 1] == np.inf))
    for i, n in ((10, w), (11, h)):
        env.eq("principal-point", B[i, 0], -n / 2)
        env.eq("principal-point", B[i, 1], n / 2)
    for i in range(12, 20):
        env.ensure("distortion", env.land(B[i, 0] < 0, B[i, 1] > 0))
        env.eq("symmetric", B[i, 0], -B[i, 1])


# -- O02 multi-camera models ------------------------------------------------------

LAYOUTS = [
    # (parameters of each camera, groups, parameters of each group)
    ([{"viewdir": True}, {"viewdir": 0, "f": 1}, {}], [[0, 1]], [{"xyz": True}]),
    ([{"xyz": [0, 2]}, {}, {"viewdir": True}], None, [{"f": True}]),
    ([{}, {"p": 1}, {"k": [0, 5]}], [[0], [1, 2]], [{"k": 0}, {"c": True}]),
    ([{"xyz": 1}, {}, {}], [[0, 1], [1, 2]], [{"xyz": 0}, {"viewdir": True}]),
    ([{"viewdir": True}, {"viewdir": 2}, {"f": True}], [[0]], [{"c": 1}]),
    ([{"viewdir": 1}, {}, {"viewdir": True}], [[2, 0]], [{"viewdir": [0]}]),
    ([{"viewdir": True}, {"xyz": True}, {"f": True}], None, None),
]


def slots(params):
    """Selected slots of a camera vector, in order."""
    out = set()
    for key, v in (params or {}).items():
        lo, hi = SLOTS[key]
        out |= set(range(lo, hi)) if v is True else {lo + i for i in (v if isinstance(v, list) else [v])}
    return sorted(out)


class Scene:
    """Three arbitrary cameras, controls on them, and the layout of their parameters."""

    def __init__(self, env, controls=True):
        np, O = env.np, env.g.optimize
        self.env = env
        self.cam_params, groups, self.group_params = env.choice("layout", LAYOUTS)
        self.cams = []
        for i in range(3):
            cam = env.g.camera.Camera(imgsz=(8, 6), f=1)
            v = vec(env, f"v{i}_", 20)
            f = vec(env, f"f{i}_", 2, gt=0.5)
            cam._vector = np.array(v[:6] + [8, 6] + f + v[10:])
            self.cams.append(cam)
        self.start = [list(c._vector) for c in self.cams]
        self.groups = groups
        self.index = [[0, 1, 2]] if groups is None else groups
        self.group_slots = [slots(p) for p in (self.group_params or [{}] * len(self.index))]
        self.cam_slots = [slots(p) for p in self.cam_params]
        self.columns = [("group", g, s) for g, ss in enumerate(self.group_slots) for s in ss]
        self.columns += [("cam", c, s) for c, ss in enumerate(self.cam_slots) for s in ss]
        self.seen = []
        self.controls, self.obs, self.pred, self.members = [], [], [], []
        for k, (cls, members, size) in enumerate([(O.Points, [0], 2), (O.Matches, [2, 1], 1), (O.Lines, [1], 2)]):
            o, p = env.array(f"obs{k}", (size, 2)), env.array(f"pred{k}", (size, 2))
            d = {"size": size, "observed": self.returns(o), "predicted": self.returns(p, True)}
            if cls is O.Matches:
                d["cams"] = [self.cams[i] for i in members]
            else:
                d["cam"] = self.cams[members[0]]
            self.controls.append(instance(cls, **d))
            self.obs.append(o)
            self.pred.append(p)
            self.members.append(members)

    def returns(self, a, see=False):
        def f(this, *args, index=slice(None), **k):
            if see:
                self.seen.append([list(c._vector) for c in self.cams])
            return self.env.np.array(a)[index]

        return f

    def model(self, **k):
        k = {"scales": False, "sparsity": False, **k}
        return self.env.g.optimize.Cameras(
            self.cams, self.controls, cam_params=self.cam_params, group_indices=self.groups, group_params=self.group_params, **k
        )

    def expected(self, values, start=None):
        """Camera vectors with the parameter values applied."""
        out = [list(v) for v in (start or self.start)]
        for (kind, w, s), x in zip(self.columns, values):
            for c in [w] if kind == "cam" else self.index[w]:
                out[c][s] = x
        return out

    def check(self, name, got, want):
        for g, w in zip(got, want):
            for s in range(20):
                self.env.ensure(name, g[s] == w[s], f"slot {s}")

    def vectors(self):
        return [list(c._vector) for c in self.cams]


@contract("O02", [CAMS + "set_cameras", CAMS + "reset_cameras", CAMS + "__init__"], budget=90)
def camera_state(env):
    """Parameters land in their slots, nothing else moves, and resetting restores the saved state."""
    np = env.np
    s = Scene(env)
    m = s.model()
    x = vec(env, "x", len(s.columns))
    m.set_cameras(np.array(x))
    s.check("set", s.vectors(), s.expected(x))
    m.reset_cameras()
    s.check("reset", s.vectors(), s.start)
    m.set_cameras(np.array(x), save=True)
    y = vec(env, "y", len(s.columns))
    m.set_cameras(y)
    s.check("set-again", s.vectors(), s.expected(y))
    m.reset_cameras()
    s.check("saved", s.vectors(), s.expected(x))
    s.cams[0].xyz = (1, 2, 3)
    m.reset_cameras()
    s.check("saved-is-a-copy", s.vectors(), s.expected(x))


@contract("O02", [CAMS + "predicted", CAMS + "observed", CAMS + "residuals", CAMS + "errors", CAMS + "size", CAMS + "weights"], budget=120)
def camera_residuals(env):
    """Predictions under trial parameters; cameras are as before afterwards."""
    np = env.np
    s = Scene(env)
    w = env.choice("weights", [False, True])
    W = vec(env, "w", 5, gt=0)
    m = s.model(weights=W if w else None)
    env.ensure("size", m.size == 5)
    index = env.choice("index", [None, [3, 0]])
    k = {} if index is None else {"index": index}
    x = env.choice("params", [None, "given"])
    if x:
        x = vec(env, "x", len(s.columns))
        k["params"] = np.array(x)
    r = m.residuals(**k)
    env.ensure("calls", len(s.seen) >= 3)
    for got in s.seen:
        s.check("trial", got, s.expected(x) if x else s.start)
    s.check("restored", s.vectors(), s.start)
    rows = [(q, i) for q in range(3) for i in range(len(s.obs[q]))]
    pick = range(5) if index is None else index
    env.ensure("shape", r.shape == (len(pick), 2))
    for a, b in enumerate(pick):
        q, i = rows[b]
        for j in range(2):
            d = s.pred[q][i, j] - s.obs[q][i, j]
            env.eq("residual", r[a, j], d * W[b] * 5 / sum(W[1:], W[0]) if w else d)
    e = m.errors(**k)
    for a in range(len(pick)):
        env.ensure("error", e[a] >= 0)
        env.eq("error", e[a] * e[a], r[a, 0] * r[a, 0] + r[a, 1] * r[a, 1], scale=100)
    s.check("restored", s.vectors(), s.start)


@contract("O02", [CAMS + "predicted"], budget=30)
def camera_failures(env):
    """Cameras are as before when a trial prediction fails."""
    np = env.np
    s = Scene(env)
    m = s.model()

    def fail(*a, **k):
        raise ValueError("no prediction")

    s.controls[1].predicted = fail
    exc, _ = env.raises(lambda: m.predicted(np.array(vec(env, "x", len(s.columns)))), ValueError)
    env.ensure("raises", exc is not None)
    s.check("restored", s.vectors(), s.start)


@contract("O02", [CAMS + "update_params", CAMS + "__init__"], budget=120)
def camera_parameters(env):
    """Initial values and bounds of each parameter, groups first."""
    np = env.np
    s = Scene(env)
    B = [env.array(f"B{i}", (20, 2)) for i in range(3)]
    for i in range(3):
        for j in range(20):
            # starting values within the bounds of their own and every grouped camera
            if not env.symbolic:
                v = [s.start[c][j] for c in range(3)]
                B[i][j] = min(v) - 0.1 - abs(B[i][j, 0]), max(v) + 0.1 + abs(B[i][j, 1])
            for c in range(3):
                env.assume(env.land(B[i][j, 0] < s.start[c][j], s.start[c][j] < B[i][j, 1]))
    C = env.g.optimize.Cameras
    which = {id(c): B[i] for i, c in enumerate(s.cams)}
    env.patch(C, "camera_bounds", staticmethod(lambda cam: np.array(which[id(cam)])))
    m = s.model()
    names = list(m.params)
    env.ensure("names", names == [f"{k}{w}_{LABELS[q]}" for k, w, q in s.columns], str(names))
    for name, (kind, w, q) in zip(names, s.columns):
        p = m.params[name]
        env.ensure("vary", p.vary is True)
        cams = [w] if kind == "cam" else s.index[w]
        v = [s.start[c][q] for c in cams]
        env.eq("value", p.value, sum(v[1:], v[0]) / len(v))
        for c in cams:
            env.ensure("bounds", env.land(p.min >= B[c][q, 0], p.max <= B[c][q, 1]))
        env.ensure("bounds", env.lor(*[p.min == B[c][q, 0] for c in cams]))
        env.ensure("bounds", env.lor(*[p.max == B[c][q, 1] for c in cams]))
    s.check("frame.cameras", s.vectors(), s.start)


@contract("O02", [CAMS + "_build_sparsity", CAMS + "_build_scales"], budget=120)
def camera_structure(env):
    """Which residuals each parameter can change, and one scale per parameter."""
    np = env.np
    s = Scene(env)
    S = [env.array(f"S{i}", (20,), gt=0) for i in range(3)]
    which = {id(c): S[i] for i, c in enumerate(s.cams)}
    seen = []

    def scales(cam, controls=None):
        seen.append(controls)
        return np.array(which[id(cam)])

    env.patch(env.g.optimize.Cameras, "camera_scales", staticmethod(scales))
    m = s.model(scales=True, sparsity=True)
    J = m.sparsity if env.symbolic else m.sparsity.toarray()
    env.ensure("shape", J.shape == (10, len(s.columns)))
    rows = [q for q in range(3) for _ in range(2 * len(s.obs[q]))]
    for r, q in enumerate(rows):
        for c, (kind, w, _) in enumerate(s.columns):
            cams = [w] if kind == "cam" else s.index[w]
            env.ensure("sparsity", bool(J[r, c]) == bool(set(cams) & set(s.members[q])), f"{r} {c}")
    env.ensure("scales.shape", m.scales.shape == (len(s.columns),))
    for c, (kind, w, q) in enumerate(s.columns):
        v = [S[i][q] for i in ([w] if kind == "cam" else s.index[w])]
        env.eq("scale", m.scales[c], sum(v[1:], v[0]) / len(v))
    env.ensure("scales.controls", all(x is m.controls for x in seen))


@contract("O02", [CAMS + "prune_controls", CAMS + "_test", CAMS + "_as_lists"], budget=60)
def camera_controls(env):
    """Controls of other cameras are dropped; inconsistent models are refused."""
    O = env.g.optimize
    s = Scene(env)
    keep = env.choice("cams", [[0], [1], [2], [0, 2], [0, 1, 2]])
    got = O.Cameras.prune_controls(s.controls, [s.cams[i] for i in keep])
    want = [c for c, m in zip(s.controls, s.members) if set(m) & set(keep)]
    env.ensure("kept", len(got) == len(want) and all(a is b for a, b in zip(got, want)))
    one = O.Cameras(s.cams[0], s.controls, cam_params={"xyz": True}, scales=False, sparsity=False)
    env.ensure("one", one.controls == [s.controls[0]] and one.cams == [s.cams[0]] and len(one.params) == 3)
    k = {"scales": False, "sparsity": False}
    bad = env.choice("bad", ["none", "uncontrolled", "sizes", "overlap", "overlap-ok"])
    c = s.cams
    if bad == "none":
        f = lambda: O.Cameras(c[0], s.controls[1:], **k)
    elif bad == "uncontrolled":
        f = lambda: O.Cameras(c, s.controls[:2], cam_params=[{}, {"xyz": 0}, {}], group_indices=[[0]], **k) and O.Cameras(c, s.controls[:1], cam_params=[{}, {"xyz": 0}, {}], **k)
    elif bad == "sizes":
        c[1]._vector[6] = 9
        key = env.choice("key", ["f", "c"])
        f = lambda: O.Cameras(c, s.controls, group_params={key: 0}, **k)
    elif bad == "overlap":
        f = lambda: O.Cameras(c, s.controls, group_indices=[[0, 1], [1, 2]], group_params=[{"xyz": True}, {"xyz": 0}], **k)
    else:
        m = O.Cameras(c, s.controls, group_indices=[[0, 1], [2]], group_params=[{"xyz": True}, {"xyz": 0}], **k)
        env.ensure("accepted", len(m.params) == 4)
        return
    exc, _ = env.raises(f, ValueError)
    env.ensure("refused", exc is not None)


# -- O03 controls -----------------------------------------------------------------


def some_index(env, n):
    """(index to pass, the rows it selects or None where every row is)."""
    kind = env.choice("index", ["default", "slice", "list"])
    if kind == "default":
        return {}, None
    if kind == "slice":
        return {"index": slice(None)}, None
    i, j = env.index(n, "a"), env.index(n, "b")
    return {"index": [i, j]}, [i, j]


def camera(env, tag="", imgsz=None):
    imgsz = imgsz or [env.int(f"{tag}nx", ge=1, scale=20), env.int(f"{tag}ny", ge=1, scale=20)]
    return env.g.camera.Camera(imgsz=imgsz, f=1, xyz=vec(env, f"{tag}pos", 3))


def rows_equal(env, name, got, want, pick):
    """Rows of got are the picked rows of want."""
    if pick is None:
        env.ensure(name + ".shape", got.shape[0] == want.shape[0])
        for i in env.each(want.shape[0]):
            for j in range(want.shape[1]):
                env.ensure(name, got[i, j] == want[i, j])
        return
    env.ensure(name + ".shape", got.shape[0] == len(pick))
    for a, i in enumerate(pick):
        for j in range(want.shape[1]):
            env.ensure(name, got[a, j] == want[i, j])


@contract("O03", [OPT + "Points.predicted", OPT + "Points.observed", OPT + "Points._test_position", OPT + "Points.__init__"], budget=60)
def point_control(env):
    """Predicted image coordinates are projections of the selected world points."""
    np = env.np
    cam = camera(env)
    n = env.size("n", ge=1)
    uv, xyz = env.array("uv", (n, 2)), env.array("xyz", (n, 3))
    directions = env.choice("directions", [False, True])
    k, pick = some_index(env, n)
    image = env.array("image", (n if pick is None else len(pick), 2))
    seen = []
    env.patch(type(cam), "xyz_to_uv", lambda this, xyz, directions=False, **k: seen.append((this, xyz, directions)) or np.array(image))
    P = env.g.optimize.Points(cam, uv, xyz, directions=directions)
    env.ensure("size", P.size == n)
    rows_equal(env, "observed", P.observed(**k), uv, pick)
    out = P.predicted(**k)
    rows_equal(env, "image", out, image, None)
    env.ensure("projected", seen[0][0] is cam and bool(seen[0][2]) == directions)
    rows_equal(env, "projected", seen[0][1], xyz, pick)
    move = env.choice("move", [0, 1, 2])
    old = cam.xyz[move]
    cam.xyz[move] = env.real("moved")
    moved = bool(cam.xyz[move] != old)
    exc, _ = env.raises(P.predicted, ValueError)
    env.ensure("moved", (exc is not None) == (directions and moved))
    exc, _ = env.raises(lambda: env.g.optimize.Points(cam, uv, env.np.vstack((xyz, xyz))), ValueError)
    env.ensure("lengths", exc is not None)


@contract("O03", [OPT + "Points.resize", OPT + "Points._scale", OPT + "Lines._scale", OPT + "Matches.resize"], budget=150, shards=3)
def control_resize(env):
    """Image coordinates keep their place in the image, over any sequence of resizes."""
    np, O = env.np, env.g.optimize
    n = env.size("n", ge=1)
    kind = env.choice("kind", ["points", "lines", "matches"])
    cams = [camera(env, "c")]
    a = env.array("a", (n, 2))
    b = env.array("b", (n, 2))
    a0, b0 = np.array(a), np.array(b)
    if kind == "points":
        C = O.Points(cams[0], a, env.array("xyz", (n, 3)))
        get = lambda: [(C.uv, a0, 0)]
    elif kind == "lines":
        m = env.size("m", ge=1)
        b = env.array("b2", (m, 2))
        b0 = np.array(b)
        C = O.Lines(cams[0], [a, b], [])
        get = lambda: [(C.uvs[0], a0, 0), (C.uvs[1], b0, 0), (C.uv[:n], a0, 0), (C.uv[n:], b0, 0)]
    else:
        cams.append(env.g.camera.Camera(imgsz=[env.int("nx2", ge=1, scale=20), env.int("ny2", ge=1, scale=20)], f=1, xyz=cams[0].xyz))
        C = O.Matches(cams, [a, b])
        get = lambda: [(C.uvs[0], a0, 0), (C.uvs[1], b0, 1)]
    first = [list(c.imgsz) for c in cams]
    for step in range(2):
        how = env.choice(f"how{step}", ["target", "camera", "same"])
        size = [env.int(f"w{step}", ge=1, scale=20), env.int(f"h{step}", ge=1, scale=20)]
        if how == "target":
            C.resize(size, force=True)
            for c in cams:
                env.ensure("camera", env.land(c.imgsz[0] == size[0], c.imgsz[1] == size[1]))
        elif how == "camera":
            cams[-1].resize(size, force=True)
            C.resize()
        else:
            C.resize()
        for got, want, c in get():
            env.ensure("shape", got.shape[0] == want.shape[0])
            for i in env.each(want.shape[0]):
                for j in range(2):
                    env.eq("place", got[i, j], want[i, j] * cams[c].imgsz[j] / first[c][j], scale=100)


@contract("O03", [OPT + "Lines.predicted", OPT + "Lines.__init__", "glimpse/helpers.py:pairwise_distance"], budget=90)
def line_control(env):
    """Each selected image point is paired with the nearest projected point."""
    np = env.np
    cam = camera(env)
    n, m = env.size("n", ge=1), env.size("m", ge=1)
    u, v = env.array("u", (n, 2)), env.array("v", (1, 2))
    p, q = env.array("p", (m, 2)), env.array("q", (1, 2))
    directions = env.choice("directions", [False, True])
    L = env.g.optimize.Lines(cam, [u, v], [], directions=directions)
    env.patch(type(L), "_xyzs_to_uvs", lambda this: [np.array(p), np.array(q)])
    env.ensure("size", L.size == n + 1)
    k = env.choice("index", [{}, {"index": [0]}])
    out = L.predicted(**k)
    env.ensure("shape", env.land(out.shape[0] == (1 if k else n + 1), out.shape[1] == 2))

    every = np.vstack((p, q))

    def d(a, b):
        return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])

    for i in env.each(1 if k else n + 1):
        o = L.observed()[i]
        for j in env.each(m + 1):
            env.le("nearest", d(o, out[i]), d(o, every[j]))
        if not env.symbolic:
            env.ensure("on-line", any((out[i] == w).all() for w in np.vstack((p, q))))
    cam.xyz[1] = cam.xyz[1] + 1
    exc, _ = env.raises(lambda: L.predicted(**k), ValueError)
    env.ensure("moved", (exc is not None) == directions)


def twins(env, n, stub=True):
    """Two cameras at one position, whose rays and images are arbitrary functions."""
    cams = [camera(env, "c")]
    cams.append(env.g.camera.Camera(imgsz=[env.int("nx2", ge=1, scale=20), env.int("ny2", ge=1, scale=20)], f=1, xyz=cams[0].xyz))
    return cams


@contract("O03", [OPT + "Matches.predicted", OPT + "Matches.observed", OPT + "Matches._cam_index", OPT + "Matches._test_matches", OPT + "Matches._test_position"], budget=60)
def match_control(env):
    """Predictions for one camera are the rays of the other, projected."""
    np, O = env.np, env.g.optimize
    n = env.size("n", ge=1)
    cams = twins(env, n)
    uvs = [env.array("a", (n, 2)), env.array("b", (n, 2))]
    k, pick = some_index(env, n)
    m = n if pick is None else len(pick)
    rays, image, seen = env.array("rays", (m, 3)), env.array("image", (m, 2)), []
    env.patch(type(cams[0]), "uv_to_xyz", lambda this, uv, **k: seen.append((this, uv, k)) or rays)
    env.patch(type(cams[0]), "xyz_to_uv", lambda this, xyz, directions=False, **k: seen.append((this, xyz, directions)) or np.array(image))
    W = env.array("w", (n,))
    M = O.Matches(cams, uvs, weights=W)
    env.ensure("size", M.size == n)
    c = env.choice("camera", [0, 1])
    arg = env.choice("by", [c, cams[c]])
    if c == 0 and env.choice("default", [True, False]):
        who = {}
    else:
        who = {"cam": arg}
    rows_equal(env, "observed", M.observed(**who, **k), uvs[c], pick)
    out = M.predicted(**who, **k)
    rows_equal(env, "image", out, image, None)
    env.ensure("rays", seen[0][0] is cams[1 - c] and seen[0][2].get("directions", True) is True)
    rows_equal(env, "rays", seen[0][1], uvs[1 - c], pick)
    env.ensure("projected", seen[-1][0] is cams[c] and seen[-1][2] is True)
    rows_equal(env, "projected", seen[-1][1], rays, None)
    bad = env.choice("bad", ["moved", "same", "lengths", "counts"])
    if bad == "moved":
        move = env.choice("move", [0, 1, 2])
        cams[1].xyz[move] = env.real("to")
        moved = bool(cams[1].xyz[move] != cams[0].xyz[move])
        exc, _ = env.raises(M.predicted, ValueError)
        env.ensure("moved", (exc is not None) == moved)
        exc, _ = env.raises(lambda: O.Matches(cams, uvs), ValueError)
        env.ensure("moved", (exc is not None) == moved)
        return
    args = {"same": ([cams[0], cams[0]], uvs), "lengths": (cams, [uvs[0], np.vstack(uvs)]), "counts": (cams, uvs[:1])}[bad]
    exc, _ = env.raises(lambda: O.Matches(*args), ValueError)
    env.ensure("refused", exc is not None)


@contract("O03", [OPT + "Lines._xyzs_to_uvs", "glimpse/helpers.py:clip_polyline_box", "glimpse/helpers.py:interpolate_line"], sym=False, samples=120)
def projected_lines(env):
    """World lines are sampled at the requested density wherever they are in view."""
    np, O = env.np, env.g.optimize
    n = env.int("n", ge=4, le=40)
    par = {"imgsz": (n, env.int("m", ge=4, le=40)), "f": env.real("f", ge=5, le=60)}
    if env.choice("distorted", [False, True]):
        par["k"] = [env.real("k1", ge=-0.02, le=0.02)]
    par["xyz"] = vec(env, "x", 3)
    cam = env.g.camera.Camera(**par)
    density = env.real("density", ge=0.3, le=4)
    lines = []
    for k in range(env.int("lines", ge=1, le=3)):
        # (vertices on a fronto-parallel or oblique line, some behind or out of view)
        size = env.int(f"size{k}", ge=2, le=5)
        uv = env.array(f"uv{k}", (size, 2), ge=-0.4, le=1.4) * np.array(par["imgsz"])
        depth = env.array(f"d{k}", (size,), ge=1, le=9)
        if env.choice(f"behind{k}", [False, False, True]):
            depth[env.int(f"at{k}", ge=0, le=size - 1)] = -1
        z = np.abs(depth)[:, None]
        ray = np.column_stack(((uv - np.array(par["imgsz"]) / 2) / par["f"], np.ones(size)))
        lines.append((ray @ cam.R) * depth[:, None] + cam.xyz)
    directions = env.choice("directions", [False, True])
    xyzs = [l - cam.xyz for l in lines] if directions else lines
    L = O.Lines(cam, [np.zeros((1, 2))], xyzs, directions=directions, density=density)
    out = L._xyzs_to_uvs()
    for o in out:
        env.ensure("finite", np.isfinite(o).all() and o.ndim == 2 and o.shape[1] == 2)
    pts = np.vstack(out) if out else np.zeros((0, 2))
    size = np.array(par["imgsz"])
    inside = []
    for xyz in xyzs:
        # every point of the world line that is in view and in front
        for a, b in zip(xyz[:-1], xyz[1:]):
            t = np.linspace(0, 1, 30)[:, None]
            pa, da = cam.xyz_to_uv(np.array([a, b]), directions=directions, return_depth=True)
            # (edges between two vertices out of view are ignored for speed)
            if (da <= 0).any() or not ((pa > 1) & (pa < size - 1)).all(axis=1).any():
                continue
            w = cam._xy_to_uv(cam._xyz_to_xy(np.array([a, b]), directions=directions)[:1] * (1 - t) + cam._xyz_to_xy(np.array([a, b]), directions=directions)[1:] * t)
            inside.extend(w[((w > 0.01) & (w < size - 0.01)).all(axis=1)])
    for w in inside:
        d = np.sqrt(((pts - w) ** 2).sum(axis=1))
        env.ensure("covered", d.min() <= 0.51 / density * 1.3 + 1e-6, f"{d.min()} {1 / density}")
    if inside:
        for o in pts:
            env.ensure("in-view", ((o > -1e-3 * size - 1) & (o < size * 1.001 + 1)).all() or "k" in par, str(o))
    # every sample is on a projected segment in front of the camera
    for o in pts:
        best = np.inf
        for xyz in xyzs:
            for a, b in zip(xyz[:-1], xyz[1:]):
                p, z = cam.xyz_to_uv(np.array([a, b]), directions=directions, return_depth=True)
                if (z <= 0).any():
                    best = min(best, *(np.hypot(*(o - q)) for q in p if np.isfinite(q).all()), np.inf)
                    continue
                xy = cam._xyz_to_xy(np.array([a, b]), directions=directions)
                x = cam._uv_to_xy(o[None])[0]
                v = xy[1] - xy[0]
                t = np.clip(np.dot(x - xy[0], v) / max(np.dot(v, v), 1e-300), 0, 1)
                best = min(best, np.hypot(*(xy[0] + t * v - x)) * par["f"])
        env.ensure("on-line", best < 1e-3, f"{best}")


FILTERS = ["weight", "error", "distance"]


def filtered(env, n, ids):
    """A filter over n matches; returns (matches, criterion, coordinates, weights)."""
    np, O = env.np, env.g.optimize
    cams = twins(env, n)
    by = env.choice("by", FILTERS)
    A, B, W = env.array("a", (n, 2)), env.array("b", (n, 2)), env.array("w", (n,), gt=0)
    if ids:
        # rows are numbered in whatever the criterion does not read
        row = np.arange(n)
        if by == "weight":
            B = np.column_stack((row, row))
        else:
            W = row
    weighted = ids or by == "weight" or env.choice("weighted", [True, False])
    M = O.Matches(cams, [A, B], weights=np.array(W) if weighted else None)
    c = env.choice("camera", [0, 1])
    pred = [env.array("pa", (n, 2)), env.array("pb", (n, 2))]
    env.patch(type(M), "predicted", lambda this, cam=0, index=slice(None): np.array(pred[this._cam_index(cam)])[index])
    limit = env.real("limit", gt=0)
    scaled = env.choice("scaled", [False, True])
    lim = limit * cams[c].imgsz[0] if scaled else limit
    k = {"min_weight": limit} if by == "weight" else {"max_error" if by == "error" else "max_distance": limit, "cam": c, "scaled": scaled}
    U = [A, B]

    def keep(i):
        if by == "weight":
            return W[i] >= limit
        if by == "error":
            d = [U[c][i, j] - pred[c][i, j] for j in range(2)]
        else:
            d = [U[1 - c][i, j] * (cams[c].imgsz[j] / cams[1 - c].imgsz[j]) - U[c][i, j] for j in range(2)]
        return np.sqrt(d[0] * d[0] + d[1] * d[1]) <= lim

    M.filter(**k)
    m = M.uvs[0].shape[0]
    env.ensure("aligned", env.land(m == M.uvs[1].shape[0], m == M.size, m <= n))
    if weighted:
        env.ensure("aligned", M.weights.shape[0] == m)
    return M, keep, A, B, W if weighted else None, by


@contract("O03", [OPT + "Matches.filter"], budget=120)
def match_filter(env):
    """Survivors meet the criterion and keep their coordinates, weight and order."""
    n = env.size("n", ge=1)
    M, keep, A, B, W, by = filtered(env, n, True)
    ids = (M.uvs[1][:, 0] if by == "weight" else M.weights).astype(int)
    for k in env.each(ids.shape[0]):
        i = ids[k]
        env.lemma("row", env.land(i >= 0, i < n))
        env.ensure("criterion", keep(i))
        for j in range(2):
            env.ensure("coordinates", env.land(M.uvs[0][k, j] == A[i, j], M.uvs[1][k, j] == B[i, j]))
        env.ensure("weight", M.weights[k] == W[i])
        if not env.symbolic:
            env.ensure("order", k == 0 or ids[k] > ids[k - 1])


@contract("O03", [OPT + "Matches.filter"], budget=150, bounded="at most 3 matches (symbolic coordinates, weights and limits)", paths=2000, shards=2)
def match_filter_complete(env):
    """Exactly the matches that meet the criterion survive, in order."""
    n = env.choice("n", [1, 2, 3])
    M, keep, A, B, W, by = filtered(env, n, False)
    want = [i for i in range(n) if bool(keep(i))]
    env.ensure("kept", M.size == len(want))
    for k, i in enumerate(want):
        for j in range(2):
            env.ensure("kept", env.land(M.uvs[0][k, j] == A[i, j], M.uvs[1][k, j] == B[i, j]))
        if W is not None:
            env.ensure("kept", M.weights[k] == W[i])


@contract("O03", [OPT + "Matches.filter"], sym=False, samples=150)
def match_filter_together(env):
    """The best n by weight, then every other criterion on what remains."""
    np, O = env.np, env.g.optimize
    n = env.size("n", ge=1)
    cams = [env.g.camera.Camera(imgsz=(40, 30), f=env.real(f"f{i}", ge=20, le=60), viewdir=vec(env, f"v{i}", 3, ge=-5, le=5)) for i in range(2)]
    cams[1].resize((20, 20), force=True)
    cls = env.choice("type", [O.Matches, O.RotationMatches])
    uvs = [env.array("a", (n, 2), ge=0, le=40), env.array("b", (n, 2), ge=0, le=20)]
    W = env.array("w", (n,), gt=0)
    env.assume(len(set(W)) == n)
    c = env.choice("cam", [0, 1])
    k = {"n_best": env.int("best", ge=1, le=n + 2), "min_weight": env.real("least", gt=0), "max_error": env.real("error", gt=0, scale=30), "max_distance": env.real("distance", gt=0, scale=30)}
    k = {name: v for name, v in k.items() if env.choice("use_" + name, [True, False])}
    M = cls(cams, uvs, weights=W)
    o, p = M.observed(c), M.predicted(c)
    xys = [np.array(x) for x in M.xys] if cls is O.RotationMatches else None
    M.filter(cam=c, **k)
    keep = np.ones(n, bool)
    if "n_best" in k:
        keep[[i for i in range(n) if sum(W > W[i]) >= k["n_best"]]] = False
    if "min_weight" in k:
        keep &= W >= k["min_weight"]
    if "max_error" in k:
        keep &= np.hypot(*(o - p).T) <= k["max_error"]
    if "max_distance" in k:
        scale = cams[c].imgsz / cams[1 - c].imgsz
        keep &= np.hypot(*(uvs[1 - c] * scale - uvs[c]).T) <= k["max_distance"]
    env.ensure("weights", np.array_equal(M.weights, W[keep]))
    for i in range(2):
        env.ensure("uvs", np.array_equal(M.uvs[i], uvs[i][keep]))
        if xys:
            env.ensure("xys", np.array_equal(M.xys[i], xys[i][keep]))
    env.ensure("predicted", np.allclose(M.predicted(c), p[keep]) and M.size == keep.sum())
    M.weights = None
    exc, _ = env.raises(lambda: M.filter(n_best=1), ValueError)
    env.ensure("no-weights", exc is not None)


# -- O04 rotation matches ---------------------------------------------------------


def rotated(env, k="zero"):
    """Two cameras at one position with any directions and internals (no distortion)."""
    pos = vec(env, "pos", 3)
    cams = []
    for i in range(2):
        par = {"imgsz": [env.int(f"{i}nx", ge=1, scale=20), env.int(f"{i}ny", ge=1, scale=20)], "xyz": pos}
        par["f"] = vec(env, f"{i}f", 2, gt=0 if env.symbolic else 0.5, scale=20)
        par["c"] = vec(env, f"{i}c", 2)
        par["viewdir"] = vec(env, f"{i}v", 3, scale=400 if env.symbolic else 20)
        if not env.symbolic and env.choice("distorted", [True, False]):
            par["k"] = [env.real(f"{i}k", ge=-0.01, le=0.01)]
            par["f"] = [x + 20 for x in par["f"]]
        cams.append(env.g.camera.Camera(**par))
    return cams


def kinds(env):
    O = env.g.optimize
    return {"m": O.Matches, "uv": O.RotationMatches, "xy": O.RotationMatchesXY, "xyz": O.RotationMatchesXYZ}


def agree(env, name, a, b, n, width=2, **k):
    env.ensure(name + ".shape", env.land(a.shape[0] == n, b.shape[0] == n, a.shape[1] == width, b.shape[1] == width))
    for i in env.each(n):
        for j in range(width):
            u, v = a[i, j], b[i, j]
            if env.symbolic:
                env.ensure(name, env.lor(env.land(env.isnan(u), env.isnan(v)), u == v))
            else:
                env.ensure(name, env.same(float(u), float(v)) or abs(u - v) <= 1e-5 * max(1, abs(v)), f"{u} {v}")


ROT = [OPT + f"RotationMatches{s}.{m}" for s, m in (("", "predicted"), ("", "__init__"), ("", "_build_xys"), ("", "_build_uvs"), ("XY", "predicted"), ("XY", "observed"), ("XYZ", "predicted"))]


@contract("O04", ROT, budget=150, shards=2)
def rotation_predictions(env):
    """Every kind of match makes the same prediction, in its own coordinates."""
    np, O = env.np, env.g.optimize
    cams = rotated(env)
    n = env.size("n", ge=1)
    uvs = [env.array("a", (n, 2), scale=20), env.array("b", (n, 2), scale=20)]
    W = env.array("w", (n,))
    c = env.choice("camera", [0, 1])
    kind = env.choice("kind", ["uv", "xy"])
    base = O.Matches(cams, uvs, weights=W)
    M = kinds(env)[kind](cams, uvs, weights=W)
    env.ensure("size", M.size == n)
    want = base.predicted(c)
    if kind == "uv":
        agree(env, "observed", M.observed(c), base.observed(c), n)
        agree(env, "predicted", M.predicted(c), want, n)
    else:
        agree(env, "observed", M.observed(c), cams[c]._uv_to_xy(uvs[c]), n)
        got = M.predicted(c)
        for i in env.each(n):
            nan = env.isnan(want[i, 0])
            env.ensure("behind", env.iff(nan, env.isnan(got[i, 0])))
        agree(env, "predicted", cams[c]._xy_to_uv(got), want, n)


@contract("O04", [OPT + "RotationMatchesXYZ.predicted"], budget=60)
def rotation_rays(env):
    """Rays of the camera itself, of unit length, unchanged in direction."""
    np, O = env.np, env.g.optimize
    cams = rotated(env)
    n = env.size("n", ge=1)
    uvs = [env.array("a", (n, 2), scale=20), env.array("b", (n, 2), scale=20)]
    c = env.choice("camera", [0, 1])
    M = O.RotationMatchesXYZ(cams, uvs)
    want = cams[c]._uv_to_xy(uvs[c])
    if env.symbolic:
        # any rays: those of the camera are never zero (C02, C03)
        rays, seen = env.array("ray", (n, 3)), []
        env.patch(type(cams[0]), "_xy_to_xyz", lambda this, xy, *a, **k: seen.append((this, xy)) or np.array(rays))
    else:
        rays = cams[c].uv_to_xyz(uvs[c])
    got = M.predicted(c)
    env.ensure("shape", env.land(got.shape[0] == n, got.shape[1] == 3))
    for i in env.each(n):
        r = [rays[i, j] for j in range(3)]
        size = np.sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2])
        env.assume(size > 0)
        if env.symbolic:
            env.ensure("camera", seen[0][0] is cams[c])
            for j in range(2):
                env.ensure("camera", seen[0][1][i, j] == want[i, j])
        for j in range(3):
            env.eq("direction", got[i, j], r[j] / size)


@contract("O04", [OPT + "RotationMatches._test_internals", OPT + "RotationMatches._initialize_uvs_xys"], budget=90)
def rotation_internals(env):
    """Directions may change later; positions and internals may not."""
    np, O = env.np, env.g.optimize
    cams = rotated(env)
    uvs = [np.array([[3.0, 4.0]]), np.array([[5.0, 2.0]])]
    kind = env.choice("kind", ["uv", "xy", "xyz"])
    M = kinds(env)[kind](cams, uvs)
    i = env.choice("which", [0, 1])
    slot = env.choice("slot", [0, 2, 4, 6, 8, 11, 12, 17, 19])
    old = cams[i]._vector[slot]
    x = env.real("new", scale=20)
    cams[i]._vector[slot] = x
    changed = bool(x != old)
    env.patch(type(cams[0]), "_xyz_to_xy", lambda this, *a, **k: np.zeros((1, 2)))
    exc, _ = env.raises(lambda: M.predicted(0), ValueError)
    env.ensure("refused", (exc is not None) == (changed and slot not in (4,)))
    exc, _ = env.raises(lambda: kinds(env)[kind](cams), ValueError)
    env.ensure("coordinates", exc is not None)


@contract("O04", [OPT + "Matches.to_type", OPT + "RotationMatches.to_type", OPT + "RotationMatchesXY.to_type"], budget=150, shards=2)
def rotation_conversions(env):
    """Conversions keep cameras, weights and coordinates; a kept type is the same object."""
    np, O = env.np, env.g.optimize
    cams = rotated(env)
    n = env.size("n", ge=1)
    uvs = [env.array("a", (n, 2), scale=20), env.array("b", (n, 2), scale=20)]
    W = env.array("w", (n,))
    K = kinds(env)
    a, b = env.choice("from", list(K)), env.choice("to", list(K))
    M = K[a](cams, uvs, weights=W)
    cleared = a in ("xy", "xyz") and env.choice("cleared", [True, False])
    if cleared:
        M.uvs = None
    T = M.to_type(K[b])
    env.ensure("type", type(T) is K[b] and (T is M) == (a == b))
    env.ensure("cameras", T.cams[0] is cams[0] and T.cams[1] is cams[1])
    env.ensure("size", T.size == n)
    env.ensure("weights", T.weights.shape[0] == n)
    for i in env.each(n):
        env.ensure("weights", T.weights[i] == W[i])
    for c in range(2):
        if b in ("m", "uv"):
            agree(env, "uvs", T.uvs[c], uvs[c], n)
        if b != "m":
            agree(env, "xys", T.xys[c], cams[c]._uv_to_xy(uvs[c]), n)


@contract("O04", [OPT + "RotationMatches.__init__", OPT + "RotationMatchesXY.__init__"], budget=90)
def rotation_from_camera_coordinates(env):
    """Matches built from camera coordinates alone equal those built from their images."""
    np, O = env.np, env.g.optimize
    cams = rotated(env)
    n = env.size("n", ge=1)
    xys = [env.array("a", (n, 2), scale=1), env.array("b", (n, 2), scale=1)]
    kind = env.choice("kind", ["uv", "xy", "xyz"])
    M = kinds(env)[kind](cams, xys=xys)
    env.ensure("size", M.size == n)
    uvs = [cam._xy_to_uv(xy) for cam, xy in zip(cams, xys)]
    B = kinds(env)[kind](cams, uvs=uvs)
    for c in range(2):
        agree(env, "xys", M.xys[c], B.xys[c], n)
        if kind == "uv":
            agree(env, "uvs", M.uvs[c], B.uvs[c], n)

    bad = env.choice("bad", ["same", "lengths", "counts"])
    longer = env.array("c", (n + 1, 2), scale=1)
    args = {"same": ([cams[0]] * 2, xys), "lengths": (cams, [xys[0], longer]), "counts": (cams, xys[:1])}[bad]
    exc, _ = env.raises(lambda: kinds(env)[kind](args[0], xys=args[1]), ValueError, IndexError)
    env.ensure("refused." + bad, exc is not None)


# -- O05 random sample consensus --------------------------------------------------


class Fits:
    """A model whose fits and errors are arbitrary functions of the sample."""

    def __init__(self, env, size, some=True):
        self.env, self.size, self.some = env, size, some
        self.tables, self.order, self.kwargs = {}, [], []

    def fit(self, index=slice(None), **k):
        key = tuple(sorted(int(i) for i in index))
        self.order.append(key)
        self.kwargs.append(k)
        name = "e" + "".join(map(str, key))
        if key not in self.tables:
            failed = self.some and self.env.choice("fails" + name, [False, True])
            self.tables[key] = None if failed else self.env.array(name, (self.size,), ge=0)
        return None if self.tables[key] is None else ("params", key)

    def errors(self, params, index=slice(None)):
        assert params[0] == "params"
        return self.env.np.array(self.tables[params[1]])[index]


@contract("O05", [OPT + "ransac"], budget=200, paths=4000, shards=4, samples=300, bounded="4 observations, samples of 2, at most 2 iterations (all errors and limits)")
def consensus(env):
    """The accepted fit with the least mean error over its consensus, and its inliers."""
    np, O = env.np, env.g.optimize
    size, least = 4, env.choice("min_inliers", [0, 1])
    samples = [[1, 3], [0, 1]][: env.choice("iterations", [1, 2])]
    limit = env.real("limit", ge=0)
    seen = []
    env.patch(O, "_ransac_samples", lambda n, size, iterations=100: seen.append((n, size, iterations)) or iter(samples))
    M = Fits(env, size)
    exc, out = env.raises(lambda: O.ransac(M, n=2, max_error=limit, min_inliers=least, iterations=9, option=5), ValueError)
    env.ensure("drawn", seen == [(2, size, 9)])
    env.ensure("options", all(k == {"option": 5} for k in M.kwargs))
    good = []
    for sample in samples:
        first = M.tables.get(tuple(sorted(sample)))
        if first is None:
            continue
        rest = [i for i in range(size) if i not in sample and bool(first[i] < limit)]
        if len(rest) <= least:
            continue
        key = tuple(sorted(sample + rest))
        env.ensure("refit", key in M.tables)
        e = M.tables[key]
        if e is None:
            continue
        v = [e[i] for i in key]
        good.append((key, sum(v[1:], v[0]) / len(v)))
    env.ensure("rejected", (exc is not None) == (not good))
    if not good:
        return
    (tag, key), inliers = out
    env.ensure("accepted", key in [k for k, _ in good])
    mine = [m for k, m in good if k == key][0]
    for k, m in good:
        env.le("best", mine, m)
    e = M.tables[key]
    want = [i for i in range(size) if bool(e[i] <= limit)]
    env.ensure("inliers", len(inliers) == len(want) and all(int(a) == b for a, b in zip(inliers, want)))


@contract("O05", [OPT + "_ransac_samples", OPT + "ransac"], sym=False, samples=200)
def distinct_samples(env):
    """Different combinations of the requested size, as many as asked for or possible."""
    np, O = env.np, env.g.optimize
    size = env.int("size", ge=2, le=9)
    n = env.int("n", ge=1, le=size - 1)
    most = env.int("iterations", ge=0, le=60)
    np.random.seed(env.int("seed", ge=0, le=10**6))
    got = [tuple(sorted(int(i) for i in s)) for s in O._ransac_samples(n=n, size=size, iterations=most)]
    env.ensure("count", len(got) == min(most, math.comb(size, n)), f"{len(got)}")
    env.ensure("distinct", len(set(got)) == len(got))
    env.ensure("valid", all(len(set(s)) == n and 0 <= s[0] and s[-1] < size for s in got))
    big = env.int("big", ge=10, le=3000)
    for s in O._ransac_samples(n=env.int("few", ge=1, le=9), size=big, iterations=2):
        env.ensure("valid", all(0 <= i < big for i in s))
    for bad in (size, size + 1):
        exc, _ = env.raises(lambda: list(O._ransac_samples(n=bad, size=size)), ValueError)
        env.ensure("too-large", exc is not None)


@contract("O05", [OPT + "Polynomial.fit", OPT + "Polynomial.errors", OPT + "Polynomial.predict", OPT + "ransac"], sym=False, samples=60)
def polynomials(env):
    """Coefficients that minimise the squared error; consensus ignores gross outliers."""
    np, O = env.np, env.g.optimize
    deg = env.int("deg", ge=0, le=3)
    n = env.int("n", ge=deg + 6, le=14)
    x = np.arange(n) + env.array("x", (n,), ge=-0.4, le=0.4)
    c = env.array("c", (deg + 1,), scale=3)
    P = O.Polynomial(np.column_stack((x, np.polyval(c, x))), deg=deg)
    env.ensure("size", P.size == n)
    env.eq("exact", P.fit(), c, tol=1e-4, scale=100)
    y = env.array("y", (n,), scale=5)
    Q = O.Polynomial(np.column_stack((x, y)), deg=deg)
    pick = sorted(set(int(i) for i in np.linspace(0, n - 1, deg + 3)))
    p = Q.fit(pick)
    e = Q.errors(p, pick)
    env.ensure("errors", np.allclose(e, np.abs(np.polyval(p, x[pick]) - y[pick]), atol=1e-9))
    for d in env.array("step", (deg + 1,), scale=1), np.eye(deg + 1)[0] * 1e-3:
        env.ensure("least", (Q.errors(p + d, pick) ** 2).sum() >= (e**2).sum() - 1e-7)
    bad = sorted({env.int("bad0", ge=0, le=n - 1), env.int("bad1", ge=0, le=n - 1)})
    z = np.polyval(c, x)
    z[bad] += 1e3 * (1 + np.arange(len(bad)) ** 2)
    np.random.seed(env.int("seed", ge=0, le=1000))
    R = O.Polynomial(np.column_stack((x, z)), deg=deg)
    params, inliers = O.ransac(R, n=deg + 1, max_error=1e-3, min_inliers=n - len(bad) - deg - 2, iterations=10**4)
    env.ensure("inliers", list(inliers) == [i for i in range(n) if i not in bad])
    env.eq("params", params, c, tol=1e-3, scale=100)


# -- O06 keypoints ----------------------------------------------------------------


def points(env, name, n, dim=8):
    """Keypoints with distinct descriptors and arbitrary coordinates."""
    import cv2

    np = env.np
    xy = env.array(name + "_xy", (n, 2), ge=0, le=99)
    d = env.array(name + "_d", (n, dim), ge=0, le=9).astype(np.float32)
    return [cv2.KeyPoint(float(x), float(y), 1) for x, y in xy], d


@contract("O06", [OPT + "match_keypoints"], sym=False, samples=200)
def keypoint_matches(env):
    """Nearest descriptors, filtered by each criterion; rows of all results aligned."""
    import cv2

    np, O = env.np, env.g.optimize
    na, nb = env.int("na", ge=0, le=7), env.int("nb", ge=0, le=7)
    a, b = points(env, "a", na), points(env, "b", nb)
    if nb > 1 and env.choice("repeated", [False, False, True]):
        b[1][1] = b[1][0]
    if na and nb and env.choice("same", [False, True]):
        a[1][0] = b[1][0]
    k = {"cross_check": env.choice("cross", [False, True]), "return_ratios": env.choice("ratios", [False, True])}
    if env.choice("by_ratio", [False, True]):
        k["max_ratio"] = env.real("max_ratio", gt=0.01, le=1)
    if env.choice("by_distance", [False, True]):
        k["max_distance"] = env.real("max_distance", gt=0, scale=50)
    out = O.match_keypoints(a, b, matcher=cv2.BFMatcher(), **k)
    env.ensure("arity", len(out) == (3 if k["return_ratios"] else 2))
    need = 2 if "max_ratio" in k or k["return_ratios"] else 1
    D = np.sqrt(((a[1][:, None].astype(float) - b[1][None]) ** 2).sum(axis=2)) if na and nb else np.zeros((na, nb))
    want = []
    for i in range(na if na >= need and nb >= need else 0):
        j = int(np.argmin(D[i]))
        order = np.sort(D[i])
        close = lambda x, y: abs(x - y) < 1e-4 * max(1, abs(x))
        # (ties and values at a limit may fall either way)
        env.assume(nb < 2 or not close(order[0], order[1]) or (need == 2 and order[0] == order[1] == 0))
        if k["cross_check"]:
            col = D[:, j]
            env.assume(sum(close(v, col.min()) for v in col) == 1)
            if int(np.argmin(col)) != i:
                continue
        ratio = None if need < 2 else 1.0 if order[1] == 0 else order[0] / order[1]
        if "max_ratio" in k:
            env.assume(not close(ratio, k["max_ratio"]))
            if not ratio < k["max_ratio"]:
                continue
        p, q = np.array(a[0][i].pt), np.array(b[0][j].pt)
        if "max_distance" in k:
            dist = np.hypot(*(p - q))
            env.assume(not close(dist, k["max_distance"]))
            if not dist < k["max_distance"]:
                continue
        if need == 2 and order[1] == 0:
            q = None
        want.append((p, q, ratio))
    env.ensure("shape", out[0].shape == out[1].shape == (len(want), 2), f"{out[0].shape} {len(want)}")
    for r, (p, q, ratio) in enumerate(want):
        env.ensure("first", np.allclose(out[0][r], p))
        env.ensure("second", q is None or np.allclose(out[1][r], q))
        if k["return_ratios"]:
            env.ensure("ratio", abs(out[2][r] - ratio) < 1e-4)
    if k["return_ratios"]:
        env.ensure("ratio", out[2].shape == (len(want),))


@contract("O06", [OPT + "match_keypoints"], budget=150, paths=6000, shards=6, samples=200, bounded="at most 2 x 3 or 3 x 2 keypoints (any positions and descriptor distances)")
def matched_features(env):
    """Any distances between descriptors; the matcher returns the nearest of each."""
    np, O = env.np, env.g.optimize
    na, nb = env.choice("size", [(0, 2), (1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (3, 2)])
    D = [[env.real(f"D{i}{j}", ge=0, scale=4) for j in range(nb)] for i in range(na)]
    a = [[env.real(f"a{i}{c}", scale=20) for c in "uv"] for i in range(na)]
    b = [[env.real(f"b{i}{c}", scale=20) for c in "uv"] for i in range(nb)]
    # (ties may fall either way)
    for row in D + [list(c) for c in zip(*D)]:
        for i in range(len(row)):
            for j in range(i):
                env.assume(env.lor(row[i] < row[j], row[j] < row[i]))
    mode = env.choice("mode", ["", "cross", "ratios", "max_ratio", "max_distance", "all"])
    k = {"return_ratios": mode in ("ratios", "all"), "cross_check": mode in ("cross", "all")}
    if mode in ("max_ratio", "all"):
        k["max_ratio"] = env.real("max_ratio", gt=0.01, le=1)
    if mode in ("max_distance", "all"):
        k["max_distance"] = env.real("max_distance", gt=0, scale=50)
    keys = lambda p: [Seen(pt=tuple(x)) for x in p]
    ka, kb = (keys(a), Seen(who="a")), (keys(b), Seen(who="b"))

    def order(row):
        out = []
        for j in range(len(row)):
            i = 0
            while i < len(out) and bool(row[out[i]] < row[j]):
                i += 1
            out.insert(i, j)
        return out

    def knn(query, train, k, mask=None):
        env.ensure("matcher.mask", mask is None)
        if query.who == train.who or k < 1:
            raise AssertionError("matching keypoints to themselves")
        M = D if query.who == "a" else [list(c) for c in zip(*D)]
        return [tuple(Seen(queryIdx=i, trainIdx=j, imgIdx=0, distance=row[j]) for j in order(row)[:k]) for i, row in enumerate(M)]

    out = O.match_keypoints(ka, kb, matcher=Seen(knnMatch=knn), **k)
    env.ensure("arity", len(out) == (3 if k["return_ratios"] else 2))
    need = 2 if "max_ratio" in k or k["return_ratios"] else 1
    want = []
    for i in range(na if na >= need and nb >= need else 0):
        best = order(D[i])
        j = best[0]
        if k["cross_check"] and order([D[l][j] for l in range(na)])[0] != i:
            continue
        ratio = D[i][j] / D[i][best[1]] if need == 2 else None
        if "max_ratio" in k and not bool(ratio < k["max_ratio"]):
            continue
        if "max_distance" in k and not bool(sum((p - q) ** 2 for p, q in zip(a[i], b[j])) < k["max_distance"] ** 2):
            continue
        want.append((i, j, ratio))
    env.ensure("shape", tuple(out[0].shape) == tuple(out[1].shape) == (len(want), 2), f"{out[0].shape} {len(want)}")
    if k["return_ratios"]:
        env.ensure("ratios.shape", tuple(out[2].shape) == (len(want),))
    for r, (i, j, ratio) in enumerate(want):
        for c in range(2):
            env.eq("first", out[0][r, c], a[i][c])
            env.eq("second", out[1][r, c], b[j][c])
        if k["return_ratios"]:
            env.eq("ratio", out[2][r], ratio)


def pictures(env, n):
    """Images one camera each, at arbitrary ascending times, on no files."""
    g = env.g
    hours = [0]
    for i in range(1, n):
        hours.append(hours[-1] + env.int(f"gap{i}", ge=0, le=3))
    t0 = env.dt.datetime(2020, 1, 1)
    return [
        g.image.Image(f"picture{i}.png", cam={"imgsz": (100, 80), "f": 100}, datetime=t0 + env.dt.timedelta(hours=h)) for i, h in enumerate(hours)
    ], hours


def matcher(env, n, sizes=True):
    O = env.g.optimize
    imgs, hours = pictures(env, n)
    K = O.KeypointMatcher(imgs)
    K.keypoints = [("keypoints", i) for i in range(n)]
    calls = []

    def match(a, b, **k):
        i, j = a[1], b[1]
        calls.append((i, j, k))
        m = 1 + (3 * i + j) % 4 if sizes else 2
        u = env.np.arange(2.0 * m).reshape(m, 2)
        return u + i, u + j, env.np.linspace(0.2, 0.8, m)

    env.patch(O, "match_keypoints", match)
    return K, imgs, hours, calls


@contract("O06", [OPT + "KeypointMatcher.build_matches", OPT + "KeypointMatcher.convert_matches", OPT + "KeypointMatcher.filter_matches"], sym=False, samples=150)
def matched_pairs(env):
    """The requested image pairs and no others, each at its row and column."""
    import contextlib
    import io

    np, O = env.np, env.g.optimize
    n = env.int("n", ge=2, le=6)
    K, imgs, hours, calls = matcher(env, n)
    k = {"clear_keypoints": env.choice("clear", [False, True]), "weights": env.choice("weights", [False, True])}
    near = env.choice("maxdt", [None, 0, 1, 2.5, 100])
    seq = env.choice("seq", [None, [1], [1, 3], [2, 0, -1, 2], [9], [2, 1], [3, 9, 1, 2]])
    req = env.choice("imgs", [None, [0], [n - 1], [1, n // 2], []])
    if near is not None:
        k["maxdt"] = env.dt.timedelta(hours=near)
    if seq is not None:
        k["seq"] = seq
    if req is not None:
        k["imgs"] = req
    kinds_ = [None, O.RotationMatches, O.RotationMatchesXYZ]
    k["mtype"] = env.choice("type", kinds_)
    if k["weights"] and env.choice("filter", [False, True]):
        k["filter"] = {"min_weight": 2}
    want = []
    for i in range(n):
        for j in range(i + 1, n):
            hit = near is None and seq is None
            hit |= near is not None and hours[j] - hours[i] <= near
            hit |= seq is not None and (j - i) in seq
            if hit and (req is None or i in req or j in req):
                want.append((i, j))
    with contextlib.redirect_stdout(io.StringIO()):
        K.build_matches(option=7, **k)
    M = K.matches
    env.ensure("shape", M.shape == (n, n))
    env.ensure("pairs", list(zip(map(int, M.row), map(int, M.col))) == want, f"{want}")
    env.ensure("computed", [c[:2] for c in calls] == want and all(c[2]["option"] == 7 and c[2]["return_ratios"] == k["weights"] for c in calls))
    env.ensure("cleared", all(x is None for x in K.keypoints) if k["clear_keypoints"] else True)

    def check(mtype, kept):
        for m, (i, j) in zip(K.matches.data, want):
            env.ensure("cameras", m.cams[0] is imgs[i].cam and m.cams[1] is imgs[j].cam)
            size = 1 + (3 * i + j) % 4
            w = 1 / np.linspace(0.2, 0.8, size)
            keep = w >= 2 if kept else w > 0
            env.ensure("type", type(m) is (mtype or O.Matches) and m.size == keep.sum())
            u = np.arange(2.0 * size).reshape(size, 2)[keep]
            env.ensure("uvs", np.array_equal(m.uvs[0], u + i) and np.array_equal(m.uvs[1], u + j))
            env.ensure("weights", m.weights is None if not k["weights"] else np.allclose(m.weights, w[keep]))
            if hasattr(m, "xys"):
                env.ensure("xys", np.allclose(m.xys[0], m.cams[0]._uv_to_xy(u + i)) and np.allclose(m.xys[1], m.cams[1]._uv_to_xy(u + j)))

    if not want:
        return
    kept = "filter" in k
    check(k["mtype"], kept)
    K.convert_matches(O.RotationMatches)
    check(O.RotationMatches, kept)
    if k["weights"]:
        K.filter_matches(min_weight=2)
        check(O.RotationMatches, True)
    K.convert_matches(O.RotationMatchesXY, clear_uvs=True)
    env.ensure("clear-uvs", all(m.uvs is None for m in K.matches.data))
    K.filter_matches(clear_weights=True)
    env.ensure("clear-weights", all(m.weights is None for m in K.matches.data))


class Pool:
    """Stand-in for a pool of processes: maps in order."""

    def __init__(self, np=None):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, func, sequence, reduce=None, star=False, **k):
        out = []
        for x in sequence:
            r = func(*x) if star else func(x)
            out.append(reduce(r) if reduce else r)
        return out


@contract("O06", [OPT + "KeypointMatcher.build_matches", OPT + "KeypointMatcher.__init__"], budget=150, paths=6000, shards=6, samples=150, bounded="at most 4 images (any times and separations)")
def pairs_in_time(env):
    """Pairs for any times of the images and maximum separation, with or without sequences."""
    np, O = env.np, env.g.optimize
    n = env.choice("n", [1, 2, 3, 4])
    times = [env.date("t0")]
    for i in range(1, n):
        times.append(times[-1] + env.delta(f"gap{i}", ge=0))
    images = [Seen(path=f"d/picture{i}.png", datetime=t, cam=("camera", i)) for i, t in enumerate(times)]
    if n > 1 and env.choice("disordered", [False, True]):
        other = list(images)
        other[0], other[1] = Seen(path="d/a.png", datetime=times[1], cam=None), Seen(path="d/b.png", datetime=times[0], cam=None)
        exc, _ = env.raises(lambda: O.KeypointMatcher(other), ValueError)
        env.ensure("order", env.iff(exc is not None, times[0] < times[1]))
        return
    near = env.delta("maxdt") if env.choice("by_time", [False, True]) else None
    seq = env.choice("seq", [None, [1], [2, 1, 2], [3, 0, -1]])
    req = env.choice("imgs", [None, [0], [n - 1, 1], []])
    weights = env.choice("weights", [False, True])
    calls, made = [], []

    def match(a, b, **k):
        calls.append((a[1], b[1]))
        env.ensure("options", set(k) == {"option", "return_ratios"} and k["option"] == 7 and bool(k["return_ratios"]) == weights)
        u = np.array([[1.0 * a[1], 1.0 * b[1]]])
        return (u, u + 0.5, np.array([0.25])) if weights else (u, u + 0.5)

    def Matches(cams, uvs, weights=None):
        made.append(Seen(cams=cams, uvs=uvs, weights=weights))
        return made[-1]

    env.patch(O, "match_keypoints", match)
    env.patch(O, "Matches", Matches)
    env.patch(env.g.config, "backend", Pool)
    K = O.KeypointMatcher(images)
    K.keypoints = [("keypoints", i) for i in range(n)]
    clear = env.choice("clear", [False, True])
    k = {"option": 7, "weights": weights, "clear_keypoints": clear}
    for name, v in (("maxdt", near), ("seq", seq), ("imgs", req)):
        if v is not None:
            k[name] = v
    if env.symbolic:
        K.build_matches(**k)
    else:
        import contextlib
        import io

        with contextlib.redirect_stdout(io.StringIO()):
            K.build_matches(**k)
    want = []
    for i in range(n):
        for j in range(i + 1, n):
            hit = near is None and seq is None or seq is not None and (j - i) in seq
            if (req is None or i in req or j in req) and (hit or near is not None and bool(times[j] - times[i] <= near)):
                want.append((i, j))
    M = K.matches
    env.ensure("shape", tuple(M.shape) == (n, n))
    env.ensure("pairs", [(int(M.row[r]), int(M.col[r])) for r in range(len(M.row))] == want, f"{want}")
    env.ensure("once", sorted(calls) == want)
    env.ensure("data", len(M.data) == len(want))
    for m, (i, j) in zip(M.data, want):
        env.ensure("cameras", m.cams[0] == ("camera", i) and m.cams[1] == ("camera", j))
        for c in range(2):
            env.eq("uvs", m.uvs[0][0, c], (i, j)[c])
            env.eq("uvs", m.uvs[1][0, c], (i, j)[c] + 0.5)
        if weights:
            env.eq("weight", m.weights[0], 4)
        else:
            env.ensure("weight", m.weights is None)
    env.ensure("keypoints", all(x is None for x in K.keypoints) if clear else K.keypoints == [("keypoints", i) for i in range(n)])


@contract("O06", [OPT + f"KeypointMatcher.{m}" for m in ("drop_images", "matches_per_image", "images_per_image", "match_breaks", "_images_mask")], sym=False, samples=200)
def matched_images(env):
    """Counts per image, breaks, and removal of images with what remains intact."""
    import contextlib
    import io

    np = env.np
    n = env.int("n", ge=2, le=6)
    K, imgs, hours, calls = matcher(env, n)
    seq = env.choice("seq", [[1], [1, 2], [2], [3, 1], [1, 2, 3, 4, 5]])
    with contextlib.redirect_stdout(io.StringIO()):
        K.build_matches(seq=seq, clear_keypoints=False)
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n) if j - i in seq]
    env.assume(len(pairs) > 0)
    data = dict(zip(pairs, K.matches.data))
    env.ensure("points", [int(x) for x in K.matches_per_image()] == [sum(data[p].size for p in pairs if i in p) for i in range(n)])
    env.ensure("images", [int(x) for x in K.images_per_image()] == [sum(i in p for p in pairs) for i in range(n)])
    env.ensure("breaks", [int(x) for x in K.match_breaks()] == [i for i in range(n - 1) if not any(p[0] == i for p in pairs)])
    least = env.int("least", ge=1, le=4)
    got = [int(x) for x in K.match_breaks(least)]
    count = [sum(p[0] == i for p in pairs) for i in range(n)]
    for i in range(n - 1):
        if count[i] == 0 or count[i] < min(least, n - 1 - i):
            env.ensure("few", i in got)
        elif count[i] >= least:
            env.ensure("few", i not in got)
    drop = [i for i in range(n) if env.choice(f"drop{i}", [False, False, True])]
    one = len(drop) == 1 and env.choice("one", [False, True])
    K.drop_images(drop[0] if one else drop)
    left = [p for p in pairs if not set(p) & set(drop)]
    keep = sorted({i for p in left for i in p})
    env.ensure("kept", len(K.images) == len(keep) and all(a is imgs[i] for a, i in zip(K.images, keep)))
    env.ensure("keypoints", K.keypoints == [("keypoints", i) for i in keep])
    env.ensure("shape", K.matches.shape == (len(keep), len(keep)))
    got = [(keep[int(i)], keep[int(j)]) for i, j in zip(K.matches.row, K.matches.col)]
    env.ensure("pairs", got == left)
    env.ensure("matches", all(a is data[p] for a, p in zip(K.matches.data, left)))


@contract("O06", [OPT + "KeypointMatcher.build_keypoints", OPT + "KeypointMatcher.build_matches", OPT + "KeypointMatcher._prepare_image", OPT + "KeypointMatcher.__init__"], sym=False, samples=120)
def keypoint_files(env):
    """Keypoints and matches are computed once, stored where asked, and recomputed on demand."""
    import contextlib
    import io
    import os
    import pickle
    import tempfile

    np, O = env.np, env.g.optimize
    n = env.int("n", ge=1, le=3)
    imgs, _ = pictures(env, n)
    color = env.choice("color", [False, True])
    arrays = [np.full((3, 4, 3) if color else (3, 4), 10 * i + 1.0) for i in range(n)]
    reads = []
    for i, im in enumerate(imgs):
        im.read = lambda *a, i=i, **k: reads.append(i) or arrays[i]
    calls = []

    def detect(array, mask=None, **k):
        i = int(array.flat[0]) // 10
        env.ensure("array", array.ndim == 2 and array.dtype == np.uint8 and (array == 10 * i + 1).all())
        calls.append((i, mask, k))
        return [], [i, len(calls)]

    env.patch(O, "detect_keypoints", detect)
    K = O.KeypointMatcher(imgs)
    masks = env.choice("masks", [None, "one", "each"])
    one = np.ones((3, 4))
    arg = None if masks is None else one if masks == "one" else [one * i for i in range(n)]
    on_disk, in_memory = {}, {i: None for i in range(n)}
    with tempfile.TemporaryDirectory() as d:
        for step in range(env.int("steps", ge=1, le=4)):
            use = env.choice(f"path{step}", [False, True])
            over = env.choice(f"overwrite{step}", [False, False, True])
            clear = use and env.choice(f"clear{step}", [False, True])
            event = env.choice(f"event{step}", [None, None, "forget", "delete"])
            if event == "forget":
                K.keypoints = None
                in_memory = {i: None for i in range(n)}
            if event == "delete":
                for i in list(on_disk):
                    os.remove(os.path.join(d, f"picture{i}.pkl"))
                on_disk = {}
            calls.clear()
            with contextlib.redirect_stdout(io.StringIO()):
                K.build_keypoints(masks=arg, path=d if use else None, overwrite=over, clear_keypoints=clear, option=3)
            todo = [i for i in range(n) if over or (in_memory[i] is None and not (use and i in on_disk))]
            env.ensure("computed", [c[0] for c in calls] == todo, f"{[c[0] for c in calls]} {todo}")
            for i, mask, k in calls:
                env.ensure("mask", mask is (arg[i] if masks == "each" else arg) and k == {"option": 3})
            new = {c[0]: ([], [c[0], q + 1]) for q, c in enumerate(calls)}
            for i in range(n):
                known = new.get(i) or in_memory[i]
                if known is None and use:
                    known = on_disk[i]
                if use and (i in new or i not in on_disk):
                    on_disk[i] = known
                in_memory[i] = None if clear else known
            env.ensure("memory", list(K.keypoints) == [in_memory[i] for i in range(n)], f"{K.keypoints} {in_memory}")
            for i in range(n):
                f = os.path.join(d, f"picture{i}.pkl")
                env.ensure("files", os.path.exists(f) == (i in on_disk))
                if i in on_disk:
                    with open(f, "rb") as fh:
                        env.ensure("files", pickle.load(fh) == on_disk[i])
    exc, _ = env.raises(lambda: K.build_keypoints(clear_keypoints=True), ValueError)
    env.ensure("nowhere", exc is not None)
    if n > 1:
        imgs[0].datetime = imgs[-1].datetime + env.dt.timedelta(1)
        exc, _ = env.raises(lambda: O.KeypointMatcher(imgs), ValueError)
        env.ensure("order", exc is not None)


@contract("O06", [OPT + "KeypointMatcher.build_matches"], sym=False, samples=80)
def match_files(env):
    """Existing match files are read instead of recomputed, unless overwritten."""
    import contextlib
    import io
    import os
    import tempfile

    np, O = env.np, env.g.optimize
    n = env.int("n", ge=2, le=4)
    K, imgs, hours, calls = matcher(env, n)
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    with tempfile.TemporaryDirectory() as d:
        name = lambda p: os.path.join(d, f"picture{p[0]}-picture{p[1]}.pkl")
        have = set()
        for step in range(env.int("steps", ge=1, le=3)):
            over = env.choice(f"over{step}", [False, False, True])
            clear = env.choice(f"clear{step}", [False, True])
            if have and env.choice(f"delete{step}", [False, True]):
                gone = sorted(have)[env.int(f"which{step}", ge=0, le=len(have) - 1)]
                os.remove(name(gone))
                have.remove(gone)
            mtype = env.choice(f"type{step}", [None, O.RotationMatchesXYZ])
            calls.clear()
            with contextlib.redirect_stdout(io.StringIO()):
                K.build_matches(path=d, overwrite=over, clear_matches=clear, mtype=mtype, clear_keypoints=False)
            todo = [p for p in pairs if over or p not in have]
            env.ensure("computed", [c[:2] for c in calls] == todo)
            have = set(pairs)
            env.ensure("files", sorted(os.listdir(d)) == sorted(os.path.basename(name(p)) for p in pairs))
            env.ensure("kept", (K.matches is None) == clear)
            if clear:
                continue
            env.ensure("pairs", list(zip(K.matches.row, K.matches.col)) == pairs)
            for m, (i, j) in zip(K.matches.data, pairs):
                env.ensure("cameras", m.cams[0] is imgs[i].cam and m.cams[1] is imgs[j].cam)
                size = 1 + (3 * i + j) % 4
                u = np.arange(2.0 * size).reshape(size, 2)
                env.ensure("uvs", type(m) is (mtype or O.Matches) and np.array_equal(m.uvs[0], u + i) and np.array_equal(m.uvs[1], u + j))


# -- O07 fits ---------------------------------------------------------------------


def quiet(f, *a, **k):
    import contextlib
    import io
    import warnings

    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


class Result:
    """Result of a stand-in for the solver."""

    def __init__(self, x, success):
        self.success, self.message = success, "message"
        self.params = Seen(valuesdict=lambda: {f"p{i}": v for i, v in enumerate(x)})


@contract("O07", [CAMS + "fit"], budget=200, paths=3000, shards=4, samples=150)
def fit_arguments(env):
    """The solver gets the residuals, parameters, scales and sparsity of the chosen observations."""
    np, O = env.np, env.g.optimize
    n, p = env.size("n", ge=3, sample=9), 3
    scales = env.array("scales", (p,), gt=0) if env.choice("scaled", [True, False]) else None
    S = env.array("S", (2 * n, p)) if env.choice("sparse", [True, False]) else None
    how = env.choice("index", ["default", "all", "slice", "array", "list"])
    k = env.size("k", sample=5)
    if how == "array":
        index = env.array("index", (k,), dtype="i", ge=0, le=n - 1)
    elif how == "list":
        index = [env.int(f"i{j}", ge=0, le=n - 1) for j in range(2)]
    else:
        index = {"default": None, "all": slice(None), "slice": slice(1, 3)}[how]
    method = env.choice("method", ["least_squares", "leastsq", "nelder"])
    extra = env.choice("extra", [{}, {"x_scale": 5, "jac_sparsity": None, "diag": 7}, {"nan_policy": "raise", "max_nfev": 4}])
    params = ["parameters"]
    calls = []
    x = vec(env, "x", p)
    success = env.choice("success", [True, False])
    full = env.choice("full", [True, False])
    done = Result(x, success)

    def minimize(fcn, params, method="leastsq", args=None, kws=None, iter_cb=None, nan_policy="raise", **kw):
        calls.append((fcn(params, *(args or ()), **(kws or {})), params, method, {**kw, "nan_policy": nan_policy}))
        return done

    M = instance(
        O.Cameras, scales=scales, sparsity=S, size=n, params=params, cam_params="cp", group_params="gp", cams=[], controls=[],
        weights=None, group_indices=None, residuals=lambda params=None, index=slice(None): ("residuals", params, index),
    )
    M.residuals = type(M).__dict__["residuals"]
    env.patch(O.lmfit, "minimize", minimize)
    kw = {} if how == "default" else {"index": index}
    out = quiet(M.fit, method=method, full=full, **kw, **extra)
    env.ensure("once", len(calls) == 1)
    (name, par, idx), par2, meth, got = calls[0]
    env.ensure("parameters", par is params and par2 is params)
    env.ensure("method", meth == method)
    env.ensure("index", idx is index or how == "default" and idx == slice(None))
    want = {"nan_policy": "omit", **extra}
    if method == "leastsq" and scales is not None:
        want.setdefault("diag", scales)
    if method == "least_squares" and scales is not None:
        want.setdefault("x_scale", scales)
    rows = None
    if method == "least_squares" and S is not None and "jac_sparsity" not in extra:
        rows = got.pop("jac_sparsity", None)
        env.ensure("sparsity", rows is not None)
    env.ensure("options", sorted(got) == sorted(want))
    for key in want:
        if key in got and key not in ("diag", "x_scale"):
            env.ensure("option", got[key] == want[key])
        elif key in got:
            v, w = np.ravel(got[key]), np.ravel(want[key])
            env.ensure("option", len(v) == len(w))
            for a, b in zip(v, w):
                env.eq("scale", a, b)
    if rows is not None:
        m = {"default": n, "all": n, "slice": 2, "array": k, "list": 2}[how]
        env.ensure("rows", rows.shape[0] == 2 * m)
        for q in env.each(m):
            o = q + 1 if how == "slice" else q if how in ("default", "all") else index[q] if how == "array" else env.ite(q == 0, index[0], index[1])
            for j in range(p):
                env.eq("row", rows[2 * q, j], S[2 * o, j])
                env.eq("row", rows[2 * q + 1, j], S[2 * o + 1, j])
    if full:
        env.ensure("result", out is done)
    elif not success:
        env.ensure("failed", out is None)
    else:
        env.ensure("values", len(out) == p)
        for a, b in zip(out, x):
            env.eq("value", a, b)


@contract("O07", [CAMS + "fit"], budget=120, paths=4000, samples=150, bounded="at most two preliminary rounds")
def fit_rounds(env):
    """Preliminary rounds fit their own selections in order, each starting where the last ended."""
    np, O = env.np, env.g.optimize
    rounds = env.choice("rounds", [1, 2])
    cp = [["c", i] for i in range(rounds)]
    gp = [["g", i] for i in range(rounds)]
    given = env.choice("given", ["both", "cam", "group"])
    method = env.choice("method", ["least_squares", "leastsq"])
    index = env.choice("index", [slice(None), slice(0, 2)])
    lost = env.choice("lost", [None, 0, 1])
    scaled, sparse = env.choice("scaled", [True, False]), env.choice("sparse", [True, False])
    full, success = env.choice("outcome", [(True, True), (False, True), (False, False)])
    log = []
    done = Result(vec(env, "x", 2), success)
    cams, controls, w, gi = ["cams"], ["controls"], ["weights"], ["groups"]

    def model(cams, controls, cam_params=None, group_indices=None, group_params=None, weights=None, scales=True, sparsity=True):
        i = len([e for e in log if e[0] == "model"])
        log.append(("model", cams, controls, cam_params, group_indices, group_params, weights, scales, sparsity))

        def fit(index=slice(None), method="least_squares", **k):
            log.append(("fit", i, index, method, k))
            return None if i == lost else ["values", i]

        def set_cameras(params):
            log.append(("set", i, params))

        return Seen(fit=fit, set_cameras=set_cameras)

    def minimize(fcn, params, method="leastsq", args=None, kws=None, iter_cb=None, nan_policy="raise", **kw):
        log.append(("minimize", params, method, kws, kw))
        return done

    M = instance(
        O.Cameras, scales=np.ones(2) if scaled else None, sparsity=np.ones((8, 2)) if sparse else None, size=4, params=["start"],
        cam_params="own c", group_params="own g", cams=cams, controls=controls, weights=w, group_indices=gi,
        residuals=lambda params=None, index=slice(None): None,
    )
    M.update_params = lambda: (log.append(("update",)), setattr(M, "params", ["updated", len(log)]))
    M.reset_cameras = lambda: log.append(("reset",))
    fit = M.fit
    env.patch(O, "Cameras", model)
    env.patch(O.lmfit, "minimize", minimize)
    kw = {"cam_params": cp} if given == "cam" else {"group_params": gp} if given == "group" else {"cam_params": cp, "group_params": gp}
    out = quiet(fit, index=index, method=method, full=full, max_nfev=9, **kw)
    want = []
    for i in range(rounds):
        want.append("model")
        e = [x for x in log if x[0] == "model"]
        env.ensure("models", len(e) == rounds)
        if len(e) == rounds:
            _, c, o, a, g, b, ww, sc, sp = e[i]
            env.ensure("same-cameras", c is cams and o is controls and ww is w and g is gi)
            env.ensure("scaling", sc == scaled and sp == sparse)
            env.ensure("selection", a == (cp[i] if given != "group" else "own c") and b == (gp[i] if given != "cam" else "own g"))
        want.append("fit")
        if i != lost:
            want.append("set")
    want += ["update", "minimize", "reset", "update"]
    env.ensure("sequence", [e[0] for e in log] == want, f"{log}")
    for e in log:
        if e[0] == "fit":
            env.ensure("round", e[2] == index and e[3] == method and e[4] == {"max_nfev": 9})
        if e[0] == "set":
            env.ensure("moved", e[2] == ["values", e[1]])
        if e[0] == "minimize":
            env.ensure("from-there", e[1][0] == "updated" and e[2] == method and e[3] == {"index": index} and e[4]["max_nfev"] == 9)
    if full:
        env.ensure("result", out is done)
    else:
        env.ensure("result", (out is not None) == success)


@contract("O07", [OPT + "ObserverCameras." + a for a in ("fit", "set_cameras", "reset_cameras", "__init__")], budget=150, samples=100, bounded="2 or 3 images, at most 2 pairs of matches")
def observer_objective(env):
    """The solver sees the weighted anchors and all match differences at its directions, and starts from the cameras."""
    np, O = env.np, env.g.optimize
    n = env.choice("n", [2, 3])
    pairs = env.choice("pairs", [[(0, 1)]] + ([[(0, 2), (1, 2)], [(1, 0)]] if n == 3 else []))
    start = [vec(env, f"s{i}", 3) for i in range(n)]
    cams = [Seen(viewdir=np.array(v)) for v in start]
    obs = Seen(images=[Seen(cam=c) for c in cams])
    trial = [vec(env, f"t{i}", 3) for i in range(n)]
    anchors = env.choice("anchors", [None, [n - 1], [0, 1], []])
    weight = env.real("weight", gt=0)
    k = 2
    data, seen = [], []
    for q, (i, j) in enumerate(pairs):
        P = [env.array(f"P{q}{c}", (k, 3)) for c in range(2)]
        rp = env.array(f"R{q}", (3, 3, 3))
        xys = [env.array(f"xy{q}{c}", (k, 2)) for c in range(2)]

        def predicted(cam, P=P):
            # (predictions are those of the cameras in the trial state)
            seen.append([[c.viewdir[e] for e in range(3)] for c in cams])
            return np.copy(P[cam])

        m = Seen(predicted=predicted, xys=xys, size=k, cams=[Seen(Rprime=rp), Seen(Rprime=rp)])
        data.append((m, P, i, j))
    calls = []

    def minimize(fun, x0, jac=None, method=None, **kw):
        calls.append((x0, jac, method, kw, fun(np.array(sum(trial, [])))))
        return Seen(success=env.choice("success", [True, False]), message="", x=x0)

    grid = Seen(data=[d[0] for d in data], row=[d[2] for d in data], col=[d[3] for d in data])
    env.patch(O, "KeypointMatcher", lambda images: Seen(images=images))
    OC = O.ObserverCameras(obs, matches=grid, anchors=anchors)
    env.patch(O.scipy.optimize, "minimize", minimize)
    env.patch(O.scipy.sparse, "coo_matrix", lambda m: m)
    quiet(OC.fit, anchor_weight=weight, options={"maxiter": 3})
    env.ensure("once", len(calls) == 1)
    x0, jac, method, kw, (objective, gradients) = calls[0]
    env.ensure("arguments", jac is True and method == "bfgs" and kw == {"options": {"maxiter": 3}})
    for i in range(n):
        for c in range(3):
            env.eq("start", x0[3 * i + c], start[i][c])
            env.eq("reset", cams[i].viewdir[c], start[i][c])
            for state in seen:
                env.eq("trial", state[i][c], trial[i][c])
    held = [0] if anchors is None else anchors
    want = sum((weight / 2 * (trial[i][c] - start[i][c]) ** 2 for i in held for c in range(3)), 0)
    for m, P, i, j in data:
        want = want + sum(abs(P[0][a, c] - P[1][a, c]) for a in range(k) for c in range(3))
    env.eq("objective", objective, want, scale=1000)
    env.ensure("gradients", len(gradients) == 3 * n)
    for c in range(3):
        total = sum((weight * (trial[i][c] - start[i][c]) for i in held), 0)
        env.eq("gradient", sum(gradients[3 * i + c] for i in range(n)), total, scale=1000)
        for i in range(n):
            if not any(i in q for q in pairs):
                env.eq("gradient-anchor", gradients[3 * i + c], weight * (trial[i][c] - start[i][c]) if i in held else 0, scale=1000)


@contract("O07", [CAMS + "fit", CAMS + "camera_scales", CAMS + "set_cameras", OPT + "ransac"], sym=False, samples=25)
def recovered_cameras(env):
    """From exact observations the fit recovers the cameras, and leaves them as they were."""
    np, O, C = env.np, env.g.optimize, env.g.camera.Camera
    np.random.seed(env.int("seed", ge=0, le=10**6))
    pos = np.random.rand(3)
    true, cams, controls = [], [], []
    m = env.choice("cameras", [1, 2])
    f = env.real("f", ge=80, le=120)
    for i in range(m):
        v = vec(env, f"v{i}", 3, ge=-3, le=3)
        true.append(C(imgsz=(100, 80), f=f, viewdir=v, xyz=pos))
        cams.append(C(imgsz=(100, 80), f=100, viewdir=[a + b for a, b in zip(v, vec(env, f"d{i}", 3, ge=-0.5, le=0.5))], xyz=pos))
    xyz = pos + np.column_stack((np.random.uniform(-2, 2, 24), np.random.uniform(5, 9, 24), np.random.uniform(-1.5, 1.5, 24)))
    for i in range(m):
        if i == 0 or env.choice("points", [True, False]):
            controls.append(O.Points(cams[i], true[i].xyz_to_uv(xyz), xyz))
    if m == 2:
        kind = env.choice("kind", [O.Matches, O.RotationMatches])
        shared = env.choice("group", [True, False])
        if kind is O.Matches:
            controls.append(kind(cams, [t.xyz_to_uv(xyz) for t in true]))
        else:
            f0 = [setattr(c, "f", f) for c in cams]
            controls.append(kind(cams, [t.xyz_to_uv(xyz) for t in true]))
            shared = False
        known = kind is O.RotationMatches
    else:
        known = env.choice("known", [True, False])
        shared = True
        if known:
            cams[0].f = f
    k = {"cam_params": [{"viewdir": True}] * m, "group_params": [{"f": True} if shared and not known else {}]}
    if not known and not shared:
        k["cam_params"] = [{"viewdir": True, "f": True}] * m
    size = sum(c.size for c in controls)
    if env.choice("weights", [True, False]):
        k["weights"] = env.array("w", (size,), ge=0.5, le=2)
    M = O.Cameras(cams, controls, scales=env.choice("scales", [True, False]), sparsity=env.choice("sparsity", [True, False]), **k)
    start = [c.to_array() for c in cams]
    how = env.choice("how", ["plain", "leastsq", "iterated", "subset"])
    opt = {"plain": {}, "leastsq": {"method": "leastsq"}, "iterated": {"cam_params": [[{"viewdir": [0, 1]}] * m], "group_params": [[{}]]}, "subset": {"index": np.arange(0, size, 2)}}[how]
    x = quiet(M.fit, **opt)
    for c, s in zip(cams, start):
        env.ensure("unchanged", np.array_equal(c.to_array(), s))
    env.ensure("fitted", x is not None and len(x) == len(M.params))
    env.ensure("residuals", np.abs(M.residuals(x)).max() < 1e-2, f"{np.abs(M.residuals(x)).max()}")
    M.set_cameras(x)
    for c, t in zip(cams, true):
        env.ensure("viewdir", np.allclose(c.viewdir, t.viewdir, atol=1e-2), f"{c.viewdir} {t.viewdir}")
        env.ensure("f", np.allclose(c.f, t.f, atol=0.2))
        env.ensure("others", np.array_equal(c._vector[[0, 1, 2, 6, 7]], t._vector[[0, 1, 2, 6, 7]]) and not c._vector[10:].any())
    M.reset_cameras()
    for c, s in zip(cams, start):
        env.ensure("reset", np.array_equal(c.to_array(), s))


@contract("O07", [OPT + "ObserverCameras.fit", OPT + "ObserverCameras.set_cameras", OPT + "ObserverCameras.reset_cameras", OPT + "ObserverCameras.__init__"], sym=False, samples=10)
def aligned_observer(env):
    """Anchors keep their direction, other images align with them; cameras end as they were."""
    import scipy.sparse

    np, O, g = env.np, env.g.optimize, env.g
    np.random.seed(env.int("seed", ge=0, le=10**6))
    n = env.int("n", ge=2, le=3)
    anchor = env.int("anchor", ge=0, le=n - 1)
    true = [g.camera.Camera(imgsz=(100, 80), f=100, viewdir=vec(env, f"v{i}", 3, ge=-3, le=3)) for i in range(n)]
    t0 = env.dt.datetime(2020, 1, 1)
    imgs = []
    for i, t in enumerate(true):
        v = t.viewdir + (0 if i == anchor else 1) * env.array(f"d{i}", (3,), ge=-0.3, le=0.3)
        imgs.append(g.image.Image(f"picture{i}.png", cam={"imgsz": (100, 80), "f": 100, "viewdir": v}, datetime=t0 + env.dt.timedelta(hours=i)))
    obs = g.track__observer.Observer(imgs)
    rays = np.column_stack((np.random.uniform(-0.3, 0.3, 25), np.ones(25), np.random.uniform(-0.25, 0.25, 25)))
    data, row, col = [], [], []
    for i in range(n):
        for j in range(i + 1, n):
            data.append(O.RotationMatchesXYZ([imgs[i].cam, imgs[j].cam], [true[k].xyz_to_uv(rays, directions=True) for k in (i, j)]))
            row.append(i)
            col.append(j)
    grid = env.choice("matches", ["sparse", "array"])
    if grid == "sparse":
        matches = scipy.sparse.coo_matrix(([1] * len(data), (row, col)), shape=(n, n))
        matches.data = np.array(data, dtype=object)
    else:
        matches = np.zeros((n, n), dtype=object)
        matches[row, col] = data
    OC = O.ObserverCameras(obs, matches=matches, anchors=[anchor])
    start = [im.cam.to_array() for im in imgs]
    r = quiet(OC.fit)
    for im, s in zip(imgs, start):
        env.ensure("unchanged", np.array_equal(im.cam.to_array(), s))
    x = r.x.reshape(-1, 3)
    for i in range(n):
        env.ensure("aligned", np.allclose(x[i], true[i].viewdir, atol=0.02), f"{x[i]} {true[i].viewdir}")
    OC.set_cameras(x)
    for im, v, s in zip(imgs, x, start):
        w = im.cam.to_array()
        env.ensure("set", np.array_equal(w[3:6], v) and np.array_equal(np.delete(w, [3, 4, 5]), np.delete(s, [3, 4, 5])))
    OC.reset_cameras()
    imgs[0].cam.viewdir[0] += 1
    OC.reset_cameras()
    for im, s in zip(imgs, start):
        env.ensure("reset", np.array_equal(im.cam.to_array(), s))

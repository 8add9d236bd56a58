"""Contracts on glimpse.svg: vertices of annotations in image coordinates."""
import io

from ..core import SNum
from ..harness import contract

SVG = "glimpse/svg.py:"
PTS = SVG + "Points."

# parameters per vertex, and which of them (from the end) are the vertex
COMMANDS = {"M": 2, "L": 2, "T": 2, "H": 1, "V": 1, "C": 6, "S": 4, "Q": 4, "A": 7, "Z": 0}


# tokens are numbered from here, which no number of the code reaches
FIRST = 7000000


class Tokens:
    """Writes values as numbered tokens that the parser reads back as the values."""

    def __init__(self, env):
        self.env, self.values = env, []
        if env.symbolic:
            num = env.g.svg._num
            env.patch(env.g.svg, "_num", lambda x: self.values[int(x) - FIRST] if isinstance(x, str) and x.isdigit() and int(x) >= FIRST else num(x))
            # numbers written by the code itself
            env.patch(SNum, "WRITER", [self])

    def __call__(self, x):
        if not self.env.symbolic:
            return repr(x)
        if not isinstance(x, SNum):
            return str(x)
        self.values.append(x)
        return str(FIRST + len(self.values) - 1)


def vertices(commands, values):
    """Vertices of a path, by the standard: current point, start of the subpath."""
    xy, start, values = [], None, iter(values)
    for letter, times in commands:
        kind, rel = letter.upper(), letter.islower()
        if kind == "Z":
            xy.append(start)
            continue
        for t in range(times):
            args = [next(values) for _ in range(COMMANDS[kind])]
            now = xy[-1] if xy else (0, 0)
            if kind == "H":
                p = (args[0] + (now[0] if rel else 0), now[1])
            elif kind == "V":
                p = (now[0], args[0] + (now[1] if rel else 0))
            else:
                p = (args[-2] + (now[0] if rel else 0), args[-1] + (now[1] if rel else 0))
            if kind == "M" and t == 0:
                start = p
            xy.append(p)
    return xy


def text(env, commands, token, sep):
    out = []
    vals = []
    for i, (letter, times) in enumerate(commands):
        n = times * COMMANDS[letter.upper()]
        new = [env.real(f"p{i}.{j}", scale=20) for j in range(n)]
        vals += new
        gap = sep if isinstance(sep, str) else sep()
        out.append(letter + (" " if gap != "" else "") + (gap if gap.strip() or gap == " " else " ").join(token(x) for x in new) + gap.replace(",", " "))
    return "".join(out), vals


def path_contract(env, first, second, third):
    commands = [(first, env.choice("n0", [1, 2])), (second, env.choice("n1", [1, 2]))]
    if third is not None:
        commands.append((third, 1))
    commands = [(c, 1 if c.upper() == "Z" else n) for c, n in commands]
    sep = env.choice("sep", [" ", ","])
    token = Tokens(env)
    d, vals = text(env, commands, token, sep)
    got = env.g.svg.Points.from_element("path", d=d).xy
    want = vertices(commands, vals)
    env.ensure("number", len(got) == len(want), f"{d} {got}")
    for a, b in zip(got, want):
        env.eq("x", a[0], b[0])
        env.eq("y", a[1], b[1])


LETTERS = [c for k in COMMANDS if k != "Z" for c in (k, k.lower())]


@contract("S01", [PTS + "_from_path", PTS + "from_element", SVG + "_chunks"], budget=200, paths=5000, shards=4, bounded="paths of three commands with one or two vertices each (all numbers)")
def path_vertices(env):
    """Vertices of every command, absolute or relative, in its own subpath."""
    first = env.choice("first", ["M", "m"])
    second = env.choice("second", LETTERS + ["z"])
    third = env.choice("third", ["L", "l", "h", "v", "m", "M", "Z", "c", "a"])
    path_contract(env, first, second, third)


@contract("S01", [PTS + "_from_path"], sym=False, samples=300)
def path_text(env):
    """Paths of any length, with any separators between numbers and commands."""
    n = env.int("n", ge=0, le=8)
    commands = [("M", 1)] if n else []
    for i in range(1, n):
        c = env.choice(f"c{i}", LETTERS + ["Z", "z"])
        commands.append((c, 1 if c in "Zz" else env.int(f"n{i}", ge=1, le=3)))
    fmt = env.choice("format", ["repr", "exp", "int", "compact"])
    vals, parts = [], []
    for i, (letter, times) in enumerate(commands):
        new = []
        for j in range(times * COMMANDS[letter.upper()]):
            x = env.real(f"p{i}.{j}", scale=20)
            if fmt == "int":
                x = int(x)
            elif fmt == "exp":
                x = float(f"{x:.6e}")
            new.append(x)
        vals += new
        txt = [f"{x:.6e}" if fmt == "exp" else repr(x) for x in new]
        gap = env.choice(f"gap{i}", [" ", ",", "  ", "\n", ", "])
        if fmt == "compact":
            # a sign separates numbers
            body = "".join(t if t[0] == "-" or k == 0 else gap + t for k, t in enumerate(txt))
            parts.append(letter + body)
        else:
            parts.append(letter + env.choice(f"lead{i}", ["", " "]) + gap.join(txt) + env.choice(f"tail{i}", ["", " ", "\n"]))
    d = "".join(parts)
    got = env.g.svg.Points.from_element("path", d=d).xy
    want = vertices(commands, vals)
    env.ensure("number", len(got) == len(want), f"{d!r} {len(got)} {len(want)}")
    for a, b in zip(got, want):
        env.eq("x", a[0], b[0], scale=100)
        env.eq("y", a[1], b[1], scale=100)
    bad = env.choice("bad", ["", "b", "X", "R"])
    if bad:
        exc, _ = env.raises(lambda: env.g.svg.Points.from_element("path", d="M 0,0 " + bad + " 1,1"), ValueError)
        env.ensure("invalid", exc is not None)


def points(env, n, name="q"):
    return [(env.real(f"{name}{i}x", scale=20), env.real(f"{name}{i}y", scale=20)) for i in range(n)]


def same(env, name, got, want):
    env.ensure(name, len(got) == len(want), f"{len(got)} {len(want)}")
    for a, b in zip(got, want):
        env.eq(name, a[0], b[0])
        env.eq(name, a[1], b[1])


@contract("S02", [PTS + m for m in ("scale", "translate", "matrix", "transform", "bbox", "closed", "from_element", "to_element")], budget=150, paths=3000, shards=2, bounded="up to three points, two transform functions (all numbers)")
def point_transforms(env):
    """Transform functions apply in the order they are written."""
    P = env.g.svg.Points
    n = env.choice("n", [0, 1, 3])
    xy = points(env, n)
    token = Tokens(env)
    txt, want = "", [tuple(p) for p in xy]
    for i in range(env.choice("functions", [0, 1, 2])):
        f = env.choice(f"f{i}", ["translate1", "translate", "scale1", "scale", "matrix"])
        a = [env.real(f"a{i}.{j}", scale=4) for j in range({"translate1": 1, "scale1": 1, "matrix": 6}.get(f, 2))]
        gap = env.choice("gap", [",", " "])
        txt += f.rstrip("1") + ("(" if gap == "," else " (") + gap.join(token(x) for x in a) + ")" + gap
        if f.startswith("translate"):
            dx, dy = a if len(a) == 2 else (a[0], 0)
            want = [(x + dx, y + dy) for x, y in want]
        elif f.startswith("scale"):
            sx, sy = a if len(a) == 2 else (a[0], a[0])
            want = [(x * sx, y * sy) for x, y in want]
        else:
            want = [(a[0] * x + a[2] * y + a[4], a[1] * x + a[3] * y + a[5]) for x, y in want]
    p = P(list(xy))
    same(env, "transformed", p.transform(txt).xy, want)
    same(env, "unchanged", p.xy, xy)
    box = p.bbox()
    env.ensure("empty", (box is None) == (n == 0))
    if n:
        for x, y in xy:
            env.ensure("within", env.land(box["x"] <= x, x <= box["x"] + box["width"], box["y"] <= y, y <= box["y"] + box["height"]) if env.symbolic else (box["x"] <= x <= box["x"] + box["width"] + 1e-9))
        env.ensure("tight", env.land(env.lor(*[box["x"] == x for x, _ in xy]), env.lor(*[box["y"] == y for _, y in xy])))
        if env.symbolic:
            env.ensure("tight", env.land(env.lor(*[box["x"] + box["width"] == x for x, _ in xy]), env.lor(*[box["y"] + box["height"] == y for _, y in xy])))
    env.ensure("closed", env.iff(p.closed(), env.land(xy[0][0] == xy[-1][0], xy[0][1] == xy[-1][1]) if n > 1 else True))
    exc, _ = env.raises(lambda: p.transform("rotate(1)"), ValueError)
    env.ensure("unsupported", exc is not None)


@contract("S02", [PTS + m for m in ("_from_polyline", "_to_polyline", "_from_polygon", "_to_polygon", "_from_line", "_to_line", "_from_circle", "_to_circle", "_from_rect", "_to_rect", "_from_svg", "_to_svg", "_from_image", "_to_image", "_to_path", "_points_to_xy", "_xy_to_points", "from_element", "to_element")], budget=150, paths=4000, samples=300, bounded="up to four vertices, two for boxes (all numbers)")
def element_round_trip(env):
    """Shapes written as elements are read back with the same vertices."""
    P = env.g.svg.Points
    Tokens(env)
    tag = env.choice("tag", ["path", "polyline", "polygon", "line", "circle", "rect", "image", "svg"])
    n = env.choice("n", range(3 if tag in ("rect", "image", "svg") else 5)) if env.symbolic else env.int("n", ge=0, le=5)
    xy = points(env, n)
    if not env.symbolic and env.choice("ints", [False, True]):
        xy = [(int(x), int(y)) for x, y in xy]
    if n > 1 and env.choice("closed", [False, True]):
        xy[-1] = xy[0]
    closed = n < 2 or bool(xy[0] == xy[-1])
    pts = P(list(xy))
    el = pts.to_element(tag)
    env.ensure("text", all(isinstance(v, str) for v in el.values()))
    if tag == "polygon" and n:
        # (of several equal points at the end one is left out)
        want = xy + [xy[0]] if not closed else xy[:-1] if n > 1 and bool(xy[-2] == xy[0]) else xy
    elif tag in ("path", "polyline", "polygon"):
        want = xy
    elif tag == "line":
        want = [xy[0], xy[-1]] if n else [(0, 0), (0, 0)]
    elif tag == "circle":
        want = [xy[0]] if n else [(0, 0)]
    elif n or tag != "svg":
        xs, ys = [x for x, _ in xy] or [0], [y for _, y in xy] or [0]
        a, b, c, d = min(xs), min(ys), max(xs), max(ys)
        want = [(a, b), (c, b), (c, d), (a, d), (a, b)]
    else:
        want = []
    got = P.from_element(tag, **el, id="x", stroke="red").xy
    same(env, "vertex", got, want)
    same(env, "unchanged", pts.xy, xy)
    exc, _ = env.raises(lambda: P(xy).to_element("magic"), ValueError)
    env.ensure("unsupported", exc is not None)


@contract("S02", [PTS + m for m in ("_from_polyline", "_from_polygon", "_from_line", "_from_circle", "_from_rect", "_from_image", "_from_svg", "_from_path", "from_element")], budget=60)
def element_defaults(env):
    """Coordinates that an element leaves out are zero, and elements without points empty."""
    P = env.g.svg.Points
    token = Tokens(env)
    tag = env.choice("tag", ["line", "circle", "rect", "image", "polyline", "polygon", "path", "svg"])
    names = {"line": ["x1", "y1", "x2", "y2"], "circle": ["cx", "cy"], "rect": ["x", "y"], "image": ["x", "y"]}.get(tag, [])
    v = {k: env.real(k) if env.choice(f"has.{k}", [True, False]) else None for k in names}
    if tag in ("rect", "image"):
        v.update({k: env.real(k, gt=0) for k in ("width", "height")})
    number = env.choice("number", [False, True])
    kw = {k: x if number else token(x) for k, x in v.items() if x is not None}
    got = P.from_element(tag, **kw).xy
    a = {k: 0 if x is None else x for k, x in v.items()}
    if tag == "line":
        want = [(a["x1"], a["y1"]), (a["x2"], a["y2"])]
    elif tag == "circle":
        want = [(a["cx"], a["cy"])]
    elif tag in ("rect", "image"):
        x, y, w, h = a["x"], a["y"], a["width"], a["height"]
        want = [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]
    else:
        want = []
    same(env, "vertex", got, want)


def random_transform(env, name, write=repr):
    """Random transform text and its effect on a point."""
    txt, fs = "", []
    for i in range(env.choice(name, [1] if name[0] == "g" else [0, 1]) if env.symbolic else env.int(name, ge=0, le=2)):
        f = {"t": "translate", "g0": "matrix", "g1": "scale", "img": "matrix"}[name] if env.symbolic else env.choice(f"{name}f{i}", ["translate", "scale", "matrix"])
        if f == "matrix":
            a = [env.real(f"{name}a{i}", ge=0.5, le=2), 0, 0, env.real(f"{name}d{i}", ge=0.5, le=2), env.real(f"{name}e{i}"), env.real(f"{name}g{i}")]
            fs.append(lambda p, a=a: (a[0] * p[0] + a[4], a[3] * p[1] + a[5]))
        elif f == "scale":
            a = [env.real(f"{name}a{i}", ge=0.5, le=2), env.real(f"{name}b{i}", ge=0.5, le=2)]
            fs.append(lambda p, a=a: (a[0] * p[0], a[1] * p[1]))
        else:
            a = [env.real(f"{name}a{i}"), env.real(f"{name}b{i}")]
            fs.append(lambda p, a=a: (a[0] + p[0], a[1] + p[1]))
        txt += f"{f}({','.join(map(write, a))})"

    def apply(p):
        for f in fs:
            p = f(p)
        return p

    return txt, apply


@contract("S03", [SVG + f for f in ("read", "write", "svg", "g", "image", "path", "_indent_etree", "_etree_to_string", "_strip_etree_namespaces", "_num")], sym=False, samples=250)
def annotated_image(env):
    """Vertices relative to the image as displayed, in pixels of the target size."""
    S = env.g.svg
    import os
    import tempfile
    import warnings

    W, H = env.int("W", ge=1, le=900), env.int("H", ge=1, le=900)
    key = env.choice("key", [None, "id"])
    count = [0]

    def name(tag):
        """Whether to give the element a name, and the key it then gets."""
        count[0] += 1
        if env.choice(f"named{count[0]}", [True, False]):
            return {"id": f"e{count[0]}"}, f"e{count[0]}" if key else tag
        return {}, tag

    def tree(depth, outer):
        """Children of a group, and what is expected of them."""
        es, want = [], {}
        for _ in range(env.int(f"children{count[0]}", ge=0, le=3)):
            if depth < 2 and env.choice(f"group{count[0]}", [True, False, False]):
                attr, k = name("g")
                txt, f = random_transform(env, f"t{count[0]}")
                sub, w = tree(depth + 1, lambda p, f=f: f(outer(p)))
                if txt:
                    attr["transform"] = txt
                es.append(S.g(*sub, **attr))
                want.setdefault(k, []).append(w)
            else:
                attr, k = name("path")
                c = count[0]
                xy = points(env, env.int(f"n{c}", ge=1, le=3), f"v{c}.")
                txt, f = random_transform(env, f"t{c}")
                if txt:
                    attr["transform"] = txt
                es.append(S.path(xy, **attr))
                want.setdefault(k, []).append([f(outer(p)) for p in xy])
        return es, {k: v[0] if len(v) == 1 else v for k, v in want.items()}

    # groups: outermost transform first
    es, want = tree(0, lambda p: p)
    has = env.choice("image", [True, True, False])
    box = None
    if has:
        txt, f = random_transform(env, "img")
        place = {"x": repr(env.real("ix")), "y": repr(env.real("iy"))} if env.choice("placed", [True, False]) else {}
        x0, y0 = [float(place.get(k, 0)) for k in "xy"]
        attr = {**place, **({"transform": txt} if txt else {})}
        es.append(S.image(W, H, href="photo.jpg", **attr))
        a, b = f((x0, y0)), f((x0 + W, y0 + H))
        box = (a, (b[0] - a[0], b[1] - a[1]))
    target = (env.int("tw", ge=1, le=900), env.int("th", ge=1, le=900)) if env.choice("target", [True, False]) else None
    root = S.svg(*es)
    txt = S.write(root, indent=env.choice("indent", [None, 0, 2, "\t"]))
    if env.choice("file", [False, True]):
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "a.svg")
            S.write(root, path=p, indent=4)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                exc, got = env.raises(lambda: S.read(p, key=key, imgsz=target), ValueError)
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exc, got = env.raises(lambda: S.read(io.StringIO(txt), key=key, imgsz=target), ValueError)
    env.ensure("image needed", (exc is not None) == (target is not None and not has))
    if exc is not None:
        return
    size = target or (W, H)

    def place_(p):
        if not has:
            return p
        (ox, oy), (w, h) = box
        return ((p[0] - ox) * size[0] / w, (p[1] - oy) * size[1] / h)

    def check(got, want):
        if isinstance(want, dict):
            env.ensure("keys", isinstance(got, dict) and list(got) == list(want), f"{got} {want}")
            for k in want:
                check(got[k], want[k])
        elif want and not isinstance(want[0], tuple):
            env.ensure("several", len(got) == len(want))
            for a, b in zip(got, want):
                check(a, b)
        else:
            env.ensure("number", len(got) == len(want))
            for a, b in zip(got, want):
                env.eq("vertex", a, place_(b), scale=2000)

    if has:
        corner = got.pop("image")
        for a, b in zip(corner, [(0, 0), (size[0], 0), size, (0, size[1]), (0, 0)]):
            env.eq("corner", a, b, scale=2000)
    check(got, want)
    env.ensure("size", root.get("width") == (str(W) if has else None) and root.get("height") == (str(H) if has else None))


@contract("S03", [SVG + f for f in ("read", "write", "svg", "g", "image", "path", "_etree_to_string", "_strip_etree_namespaces")], budget=200, paths=4000, samples=60, shards=4, bounded="one image, up to two paths, in up to two groups (all numbers)")
def image_coordinates(env):
    """Vertices in nested groups, relative to the image as displayed, for any numbers."""
    S = env.g.svg
    token = Tokens(env)
    write = token if env.symbolic else repr
    W, H = env.real("W", gt=0, scale=300), env.real("H", gt=0, scale=300)
    depth = env.choice("depth", [0, 2] if env.symbolic else [0, 1, 2])
    p = (env.real("px"), env.real("py"))
    q = (env.real("qx"), env.real("qy"))
    two = env.choice("two", [False, True])
    key = ("id" if two else None) if env.symbolic and depth else env.choice("key", [None, "id"])
    txt, f = ("", lambda c: c) if env.symbolic and depth else random_transform(env, "t", write)
    es = [S.path(f"M {write(p[0])} {write(p[1])}", **({"transform": txt} if txt else {}), id="a")]
    maps = [f]
    for i in range(depth):
        txt, f = random_transform(env, f"g{i}", write)
        es = [S.g(*es, **({"transform": txt} if txt else {}))]
        maps.append(f)
    # (outermost first)
    want = p
    for f in reversed(maps):
        want = f(want)
    has = env.choice("image", ["under" if two else "over", "none"] if env.symbolic else ["under", "over", "none"])
    if has != "none":
        # (a group of its own moves the image too)
        inside = depth > 0 and env.choice("inside", [False, True])
        txt, f = ("", lambda c: c) if env.symbolic and inside else random_transform(env, "img", write)
        placed = key is None if env.symbolic else env.choice("placed", [True, False])
        x0, y0 = (env.real("ix"), env.real("iy")) if placed else (0, 0)
        attr = {"x": write(x0), "y": write(y0)} if placed else {}
        href = "photo.jpg" if two else None
        im = S.image(W, H, href=href, **attr, **({"transform": txt} if txt else {}))
        env.ensure("link", im.get("xlink:href") == href and ("xlink:href" in im.attrib) == (href is not None))
        corners = [(x0, y0), (x0 + W, y0 + H)]
        corners = [f(maps[-1](c) if inside else c) for c in corners]
        if inside:
            es[0].insert(0 if has == "under" else 1, im)
        else:
            es.insert(0 if has == "under" else 1, im)
    if two:
        es.append(S.path(f"M {write(q[0])},{write(q[1])}"))
    target = (env.int("tw", ge=1, le=900), env.int("th", ge=1, le=900)) if has != "none" and env.choice("target", [True, False]) else None
    got = S.read(io.StringIO(S.write(S.svg(*es), indent=2 if two else None)), key=key, imgsz=target)
    first = "a" if key else "path"

    def place(v):
        if has == "none":
            return v
        (ox, oy), (ex, ey) = corners
        size = target or (W, H)
        return (v[0] - ox) * size[0] / (ex - ox), (v[1] - oy) * size[1] / (ey - oy)

    box = got
    for i in range(depth):
        env.ensure("groups", "g" in got, f"{list(got)}")
        got = got["g"]
    node = got[first]
    if two and depth == 0 and first == "path":
        env.ensure("several", len(node) == 2)
        same(env, "second", node[1], [place(q)])
        node = node[0]
    elif two:
        same(env, "second", box["path"], [place(q)])
    same(env, "vertex", node, [place(want)])

"""Contracts on glimpse.image, glimpse.exif and the file helpers."""
import datetime
import json
import os
import pickle
import shutil
import tempfile

from ..harness import Seen, contract, instance
from .optimize import vec

IMG = "glimpse/image.py:Image."
EXIF = "glimpse/exif.py:Exif."
HELP = "glimpse/helpers.py:"


class scratch:
    """A scratch folder, removed afterwards."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="dv")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path)


# -- I01 images --------------------------------------------------------------------


@contract("I01", [IMG + "__init__", IMG + "size"], budget=120, paths=3000, samples=300)
def construction(env):
    """Given settings win over metadata, which is read only when needed, once."""
    loaded = []
    meta = {
        "imgsz": tuple(env.int(f"mz{i}", ge=1, scale=20) for i in range(2)),
        "sensorsz": tuple(env.real(f"ms{i}", gt=0) for i in range(2)),
        "fmm": env.real("mf", gt=0), "datetime": "photographed",
    }
    source = lambda path: loaded.append(path) or Seen(path=path, **meta)
    env.patch(env.g.image, "Exif", source)
    keys = {
        "imgsz": [env.int(f"z{i}", ge=1, scale=20) for i in range(2)], "f": vec(env, "f", 2, gt=0),
        "fmm": vec(env, "fmm", 2, gt=0), "sensorsz": vec(env, "s", 2, gt=0), "xyz": vec(env, "x", 3), "k": vec(env, "k", 2),
    }
    kind = env.choice("cam", ["none", "dict", "camera"])
    if kind == "none":
        cam, given = None, {}
    else:
        names = env.choice("names", [
            [], ["imgsz"], ["f"], ["fmm"], ["sensorsz"], ["imgsz", "f"], ["imgsz", "fmm"], ["imgsz", "sensorsz"],
            ["fmm", "sensorsz"], ["f", "sensorsz"], ["imgsz", "fmm", "sensorsz"], ["imgsz", "f", "sensorsz"],
        ])
        given = {n: keys[n] for n in names}
        if env.choice("more", [False, True]):
            given.update(xyz=keys["xyz"], k=keys["k"])
        cam = dict(given)
        if kind == "camera":
            env.assume("imgsz" in given and ("f" in given or "fmm" in given and "sensorsz" in given))
            cam = env.g.camera.Camera(**given)
    before = dict(given)
    exif = Seen(path="given", **meta) if env.choice("exif", [False, True]) else None
    when = env.choice("datetime", [None, "given"])
    img = env.g.image.Image("a.jpg", cam=cam, datetime=when, exif=exif)
    enough = kind == "camera" or "imgsz" in given and ("f" in given or "fmm" in given and "sensorsz" in given)
    need = not (enough and when)
    env.ensure("exif.read-once", len(loaded) == (1 if need and exif is None else 0) and all(p == "a.jpg" for p in loaded))
    env.ensure("exif.kept", img.exif is exif if exif is not None else (img.exif is None) != need)
    env.ensure("datetime", img.datetime == (when or "photographed"))
    env.ensure("path", img.path == "a.jpg" and img.array is None)
    if kind == "camera":
        env.ensure("camera", img.cam is cam)
    elif kind == "dict":
        env.ensure("frame.cam", list(cam) == list(before) and all(cam[k] is before[k] for k in cam))
    want = {**meta, **given} if not enough else given
    for i in range(2):
        env.ensure("imgsz", img.cam.imgsz[i] == want["imgsz"][i])
        env.ensure("size", img.size[i] == img.cam.imgsz[i])
        if "f" in given:
            env.eq("f", img.cam.f[i], given["f"][i])
        else:
            mm = given["fmm"][i] if "fmm" in given else meta["fmm"]
            env.eq("fmm", img.cam.f[i] * want["sensorsz"][i], mm * want["imgsz"][i], scale=1000)
        env.ensure("k", img.cam.k[i] == (given["k"][i] if "k" in given else 0))
    for i in range(3):
        env.ensure("xyz", img.cam.xyz[i] == (given["xyz"][i] if "xyz" in given else 0))


@contract("I01", [IMG + "xyz_to_uv", IMG + "uv_to_xyz", IMG + "inbounds"], budget=30)
def forwarding(env):
    """Projections are those of the camera; image points cast to positions by default."""
    seen = []

    def method(name):
        return lambda *a, **k: seen.append((name, a, k)) or name

    img = instance(env.g.image.Image)
    img.cam = Seen(**{n: method(n) for n in ("xyz_to_uv", "uv_to_xyz", "inframe")})
    extra = env.choice("extra", [{}, {"depth": 3}])
    env.ensure("xyz_to_uv", img.xyz_to_uv("p", **extra) == "xyz_to_uv" and seen[-1][1:] == (("p",), extra))
    env.ensure("uv_to_xyz", img.uv_to_xyz("p", **extra) == "uv_to_xyz" and seen[-1][1:] == (("p",), {"directions": False, **extra}))
    img.uv_to_xyz("p", directions=True)
    env.ensure("directions", seen[-1][2] == {"directions": True})
    env.ensure("inbounds", img.inbounds("p") == "inframe" and seen[-1][1:] == (("p",), {}))


@contract("I01", [IMG + "read", IMG + "_path_imgsz", IMG + "_cache_imgsz"], budget=200, paths=3000, shards=4, samples=0)
def read_step(env):
    """One read from any state: the slice of the image at the camera size; the cache stays valid."""
    if not env.symbolic:
        return
    np = env.np
    W, H = env.int("W", ge=1), env.int("H", ge=1)
    bands = env.choice("bands", [1, 3])
    native = [env.array(f"file{b}", (H, W)) for b in range(bands)]
    w, h = env.int("w", ge=1), env.int("h", ge=1)
    fits = bool(env.land(w == W, h == H))
    # GDAL: resampling to a size is a function of the size, the identity at the size of the file
    scaled = native if fits else [env.array(f"scaled{b}", (h, w)) for b in range(bands)]
    opened = []

    def read_band(b):
        def ReadAsArray(xoff=0, yoff=0, win_xsize=None, win_ysize=None, buf_xsize=None, buf_ysize=None):
            a = native[b]
            if buf_xsize is not None:
                env.ensure("gdal.size", env.land(buf_xsize == w, buf_ysize == h))
                env.ensure("gdal.whole", win_xsize is None and win_ysize is None)
                a = scaled[b]
            elif win_xsize is not None:
                env.ensure("gdal.window", env.land(xoff >= 0, yoff >= 0, win_xsize >= 1, win_ysize >= 1, xoff + win_xsize <= W, yoff + win_ysize <= H))
                a = a[yoff : yoff + win_ysize, xoff : xoff + win_xsize]
            return np.array(a)

        return Seen(ReadAsArray=ReadAsArray)

    dataset = Seen(RasterXSize=W, RasterYSize=H, RasterCount=bands, GetRasterBand=lambda i: read_band(i - 1))
    env.patch(env.g.image, "osgeo", Seen(gdal=Seen(Open=lambda path: opened.append(path) or dataset)))
    env.patch(env.g.image, "sharedmem", Seen(copy=lambda a: np.array(a)))

    def image(parts):
        a = np.dstack(parts)
        return a if bands > 1 else a[:, :, 0]

    img = instance(env.g.image.Image)
    img.path = "a.jpg"
    img.cam = Seen(imgsz=np.array([w, h]))
    # the invariant: the cache is empty, or the image at its own size
    state = env.choice("cache", ["empty", "current", "other"])
    img.array = None
    if state == "current":
        img.array = image(scaled)
    elif state == "other":
        cw, ch = env.int("cw", ge=1), env.int("ch", ge=1)
        env.assume(env.lor(cw != w, ch != h))
        img.array = image([env.array(f"stale{b}", (ch, cw)) for b in range(bands)])
    old = img.array
    box, cache = None, env.choice("keep", [True, False])
    if env.choice("box", [False, True]):
        l, t, r, b = env.int("left", ge=0), env.int("top", ge=0), env.int("right"), env.int("bottom")
        env.assume(env.land(l < r, r <= w, t < b, b <= h))
        box = (l, t, r, b)
    out = img.read(box, cache=cache)
    full = image(scaled)
    want = full if box is None else full[box[1] : box[3], box[0] : box[2]]
    env.ensure("shape", len(out.shape) == len(want.shape) and bool(env.land(*[a == b for a, b in zip(out.shape, want.shape)])))
    for i in env.each(want.shape[0]):
        for j in env.each(want.shape[1]):
            for k in range(bands):
                ix = (i, j, k) if bands > 1 else (i, j)
                env.ensure("pixel", out[ix] == want[ix])
    if state == "current" or not cache:
        env.ensure("cache.kept", img.array is old)
    else:
        env.ensure("cache.size", env.land(img.array.shape[0] == h, img.array.shape[1] == w))
        for i in env.each(h):
            for j in env.each(w):
                for k in range(bands):
                    ix = (i, j, k) if bands > 1 else (i, j)
                    env.ensure("cache.pixel", img.array[ix] == full[ix])
    if state == "current":
        env.ensure("cache.used", not opened)


def picture(env, path, w, h, bands, dtype="uint8"):
    np = env.np
    a = env.array("pixels", (h, w) if bands == 1 else (h, w, bands), dtype="i", ge=0, le=255).astype(dtype)
    env.g.helpers.write_raster(a, path)
    return a


@contract("I01", [IMG + "read", IMG + "write", HELP + "write_raster"], sym=False, samples=150)
def read_history(env):
    """Any sequence of resizes and reads gives slices of the image at the current size."""
    np = env.np
    with scratch() as d:
        ext = env.choice("ext", [".tif", ".png"])
        path = os.path.join(d, "a" + ext)
        w, h = env.int("w", ge=2, le=12), env.int("h", ge=2, le=12)
        a = picture(env, path, w, h, env.choice("bands", [1, 3, 4]), env.choice("dtype", ["uint8", "uint16"]))
        Image = env.g.image.Image
        new = lambda: Image(path, cam={"imgsz": (w, h), "f": (9, 9)}, datetime=datetime.datetime(2020, 1, 1))
        img = new()
        env.ensure("whole", np.array_equal(img.read(cache=env.choice("first", [True, False])), a))
        for step in range(env.int("steps", ge=1, le=5)):
            size = env.choice(f"size{step}", [0.5, 1, 2, None])
            if size is not None:
                img.cam.resize(size)
            cw, ch = (int(x) for x in img.cam.imgsz)
            box = None
            if env.bool(f"crop{step}"):
                l, t = env.int(f"l{step}", ge=0, le=cw - 1), env.int(f"t{step}", ge=0, le=ch - 1)
                box = (l, t, env.int(f"r{step}", ge=l + 1, le=cw), env.int(f"b{step}", ge=t + 1, le=ch))
                if env.bool(f"float{step}") and env.bool(f"array{step}"):
                    box = np.array(box)
            got = img.read(box, cache=env.bool(f"cache{step}"))
            fresh = new()
            fresh.cam.resize(tuple(img.cam.imgsz), force=True)
            full = fresh.read()
            env.ensure("size", full.shape[:2] == (ch, cw))
            if (cw, ch) == (w, h):
                env.ensure("native", np.array_equal(full, a))
            want = full if box is None else full[box[1] : box[3], box[0] : box[2]]
            env.ensure("pixels", got.shape == want.shape and np.array_equal(got, want), f"{step} {box}")
        out = os.path.join(d, "b" + env.choice("out", [".tif", ".png"]))
        given = env.bool("given")
        img.write(out, array=a if given else None)
        back = Image(out, cam=img.cam, datetime=img.datetime)
        if given:
            back.cam.resize(1)
        env.ensure("written", np.array_equal(back.read(), a if given else img.read()))


@contract("I01", [IMG + "project"], budget=120)
def projection(env):
    """Each target pixel samples the source image where the target ray falls."""
    if not env.symbolic:
        return
    np = env.np
    sizes = [[env.int(f"n{c}{i}", ge=2) for i in range(2)] for c in range(2)]
    same_size = env.choice("same", [True, False])
    if same_size:
        sizes[1] = sizes[0]
    Camera = env.g.camera.Camera
    pos = vec(env, "pos", 3)
    cams = [Camera(imgsz=s, f=1, xyz=pos) for s in sizes]
    bands = env.choice("bands", [1, 2])
    method = env.choice("method", ["linear", "nearest"])
    w, h = sizes[0]
    src = env.array("src", (h, w) if bands == 1 else (h, w, bands))
    tw, th = sizes[1]
    n = tw * th
    rays, uv, calls = env.array("rays", (n, 3)), env.array("uv", (n, 2)), []

    def uv_to_xyz(this, uv, **k):
        calls.append(("rays", this, uv, k))
        return rays

    def xyz_to_uv(this, xyz, **k):
        calls.append(("image", this, xyz, k))
        return uv

    env.patch(Camera, "uv_to_xyz", uv_to_xyz)
    env.patch(Camera, "xyz_to_uv", xyz_to_uv)
    fits, values = [], [env.array(f"value{b}", (n,)) for b in range(bands)]

    def rgi(points, vals, method="linear", bounds_error=True, fill_value=np.nan):
        fits.append((points, vals, method, bounds_error, fill_value))
        return lambda at: calls.append(("sample", at)) or values[len(fits) - 1]

    env.patch(env.g.image, "scipy", Seen(interpolate=Seen(RegularGridInterpolator=rgi)))
    img = instance(env.g.image.Image)
    img.cam, img.array, img.path = cams[0], None, ""
    env.patch(type(img), "read", lambda this, *a, **k: src)
    out = img.project(cams[1], **({} if method == "linear" else {"method": method}))
    env.ensure("rays", calls[0][1] is cams[1] and calls[0][3].get("directions", True) is True)
    asked = calls[0][2]
    env.ensure("grid.shape", asked.shape[0] == n)
    for k in env.each(n):
        # row-major: the pixel of column k % tw in row k // tw
        env.eq("grid.u", asked[k, 0], k % tw + 0.5)
        env.eq("grid.v", asked[k, 1], k // tw + 0.5)
    for i in env.each(th):
        for j in env.each(tw):
            for b in range(bands):
                env.ensure("value", env.same(out[i, j, b], values[b][i * tw + j]))
    env.ensure("image", calls[1][1] is cams[0] and calls[1][3].get("directions") is True)
    for k in env.each(n):
        for j in range(3):
            env.ensure("image", calls[1][2][k, j] == rays[k, j])
    env.ensure("shape", env.land(out.shape[0] == th, out.shape[1] == tw, out.shape[2] == bands))
    for b, (points, vals, m, err, fill) in enumerate(fits):
        env.ensure("method", m == method and err is False)
        at = calls[2 + b][1]
        for k in env.each(n):
            env.ensure("at", env.land(at[k, 0] == uv[k, 1], at[k, 1] == uv[k, 0]))
        for axis, size in ((0, h), (1, w)):
            env.ensure("centres.number", points[axis].shape[0] == size)
            for i in env.each(size):
                env.eq("centres", points[axis][i], i + 0.5)
        for i in env.each(h):
            for j in env.each(w):
                env.ensure("band", vals[i, j] == (src[i, j] if bands == 1 else src[i, j, b]))


@contract("I01", [IMG + "project"], sym=False, samples=60)
def projected_image(env):
    """Pixels are the interpolated source values, or missing outside; other positions are refused."""
    np = env.np
    sizes = [(env.int(f"w{c}", ge=2, le=9), env.int(f"h{c}", ge=2, le=9)) for c in range(2)]
    Camera = env.g.camera.Camera
    pos = [env.real(f"p{i}") for i in range(3)]
    cams = [
        Camera(imgsz=s, f=[env.real(f"f{c}{i}", ge=5, le=12) for i in range(2)], xyz=pos, k=[env.real(f"k{c}", scale=0.05)],
               viewdir=[env.real(f"v{c}{i}", scale=8) for i in range(3)])
        for c, s in enumerate(sizes)
    ]
    bands = env.choice("bands", [1, 3])
    w, h = sizes[0]
    src = env.array("src", (h, w) if bands == 1 else (h, w, bands), ge=0)
    img = env.g.image.Image("", cam=cams[0], datetime=1)
    img.array = src.copy()
    method = env.choice("method", ["linear", "nearest"])
    out = img.project(cams[1], method=method)
    env.eq("frame", img.array, src)
    full = src.reshape(h, w, bands)
    env.ensure("shape", out.shape == (sizes[1][1], sizes[1][0], bands))
    for i, j in np.ndindex(*out.shape[:2]):
        uv = cams[0].xyz_to_uv(cams[1].uv_to_xyz(np.array([(j + 0.5, i + 0.5)])), directions=True)[0] - 0.5
        inside = not np.isnan(uv).any() and 0 <= uv[0] <= w - 1 and 0 <= uv[1] <= h - 1
        if not inside:
            close = not np.isnan(uv).any() and -1e-9 <= uv[0] <= w - 1 + 1e-9 and -1e-9 <= uv[1] <= h - 1 + 1e-9
            env.ensure("outside", close or bool(np.isnan(out[i, j]).all()))
            continue
        c, r = min(int(uv[0]), w - 2), min(int(uv[1]), h - 2)
        s, t = uv[0] - c, uv[1] - r
        if method == "nearest":
            if abs(s - 0.5) < 1e-6 or abs(t - 0.5) < 1e-6:
                continue
            env.eq("nearest", out[i, j], full[r + (t > 0.5), c + (s > 0.5)])
            continue
        env.eq("linear", out[i, j], (full[r, c] * (1 - s) + full[r, c + 1] * s) * (1 - t) + (full[r + 1, c] * (1 - s) + full[r + 1, c + 1] * s) * t, tol=1e-6)
    cams[1].xyz = (pos[0], pos[1], pos[2] + env.choice("move", [1e-3, 5]))
    exc, _ = env.raises(lambda: img.project(cams[1]), ValueError)
    env.ensure("position", exc is not None)


# -- E01 metadata ----------------------------------------------------------------


def exif(env, tags):
    e = instance(env.g.exif.Exif)
    e.tags = tags
    return e


@contract("E01", [EXIF + m for m in ("parse_tag", "exposure", "aperture", "iso", "fmm", "imgsz")], budget=60, samples=300)
def numbers(env):
    """Rational tags are quotients; unknown, missing or zero values are missing."""
    num, den = env.int("num", ge=0, scale=300), env.int("den", ge=0, scale=300)
    name, tag = env.choice("tag", [("exposure", "ExposureTime"), ("aperture", "FNumber"), ("fmm", "FocalLength")])
    e = exif(env, {"Exif": {tag: (num, den)}, "0th": {}, "GPS": {tag: 5}})
    got, raw = getattr(e, name), e.parse_tag(tag)
    if bool(den == 0):
        env.ensure("unknown", raw is None and got is None)
    else:
        env.eq("quotient", raw * den, num, scale=300)
        if bool(num == 0):
            env.ensure("zero", got is None)
        else:
            env.ensure("number", got == raw)
    x = env.int("x", ge=0, scale=4000)
    y = env.int("y", ge=0, scale=4000)
    e = exif(env, {"Exif": {"PixelXDimension": x, "PixelYDimension": y, "ISOSpeedRatings": x}})
    if bool(env.lor(x == 0, y == 0)):
        env.ensure("no-size", e.imgsz is None)
    else:
        env.ensure("size", env.land(e.imgsz[0] == x, e.imgsz[1] == y))
    env.ensure("iso", (e.iso is None) if bool(x == 0) else e.iso == x)
    env.ensure("plain", e.parse_tag("ISOSpeedRatings") == x)
    for missing in ({}, {"Exif": {}}, {"0th": {tag: (1, 2)}}):
        e = exif(env, missing)
        env.ensure("missing", getattr(e, name) is None and e.imgsz is None and e.iso is None and e.datetime is None and e.make is None and e.sensorsz is None)
    env.ensure("group", exif(env, {"0th": {tag: (6, 3)}}).parse_tag(tag, group="0th") == 2)


@contract("E01", [EXIF + m for m in ("datetime", "make", "model", "sensorsz", "parse_tag")], sym=False, samples=200)
def texts(env):
    """Dates, makes, models and sensors as written."""
    t = datetime.datetime(1900 + env.int("year", ge=0, le=199), env.int("month", ge=1, le=12), env.int("day", ge=1, le=28), env.int("hour", ge=0, le=23), env.int("minute", ge=0, le=59), env.int("second", ge=0, le=59))
    tags = {"DateTimeOriginal": t.strftime("%Y:%m:%d %H:%M:%S").encode()}
    digits = env.int("digits", ge=0, le=6)
    if digits:
        ss = env.int("sub", ge=0, le=10**digits - 1)
        tags["SubSecTimeOriginal"] = f"{ss:0{digits}d}".encode()
        t += datetime.timedelta(microseconds=ss * 10 ** (6 - digits))
    mod = env.g.exif
    make, model = env.choice("camera", [("NIKON CORPORATION", "NIKON D200"), ("NIKON", "E8700"), ("Canon", "Canon EOS 20D"), ("Canon ", " Canon EOS 40D"), ("Other", "D1"), (None, "NIKON D200"), ("NIKON CORPORATION", None)])
    zeroth = {k: v.encode() for k, v in (("Make", make), ("Model", model)) if v is not None}
    e = exif(env, {"Exif": tags, "0th": zeroth})
    env.ensure("datetime", e.datetime == t, f"{e.datetime} {t}")
    env.ensure("make", e.make == make and e.model == model)
    want = mod.SENSOR_SIZES.get(f"{make.strip()} {model.strip()}") if make and model else None
    env.ensure("sensor", e.sensorsz == want)


TAGS = {
    "0th": [("Make", b"ACME"), ("Model", b"M 1"), ("Orientation", 3), ("XResolution", (72, 1)), ("DateTime", b"2001:02:03 04:05:06")],
    "Exif": [("ISOSpeedRatings", 400), ("FocalLength", (35, 2)), ("ExposureTime", (1, 80)), ("DateTimeOriginal", b"2001:02:03 04:05:06"), ("SubSecTimeOriginal", b"07"), ("PixelXDimension", 7), ("PixelYDimension", 5)],
    "GPS": [("GPSLatitudeRef", b"N"), ("GPSLatitude", ((61, 1), (7, 1), (3, 2))), ("GPSAltitude", (100, 3))],
    "Interop": [("InteroperabilityIndex", b"R98")],
}


@contract("E01", [EXIF + m for m in ("dump", "insert", "__init__")], sym=False, samples=80)
def written_tags(env):
    """Tags inserted into an image are read back; pixels and the given tags stay as they are."""
    import copy
    import piexif
    import PIL.Image

    np = env.np
    with scratch() as d:
        path = os.path.join(d, "a.jpg")
        a = env.array("pixels", (5, 7, 3), dtype="i", ge=0, le=255).astype("uint8")
        PIL.Image.fromarray(a).save(path)
        pixels = np.array(PIL.Image.open(path))
        tags = {}
        for group, items in TAGS.items():
            tags[group] = {k: v for k, v in items if env.bool(f"{group}.{k}")}
        if tags["Exif"].get("ISOSpeedRatings"):
            tags["Exif"]["ISOSpeedRatings"] = env.int("iso", ge=1, le=9999)
        thumb = env.bool("thumbnail")
        if thumb:
            small = os.path.join(d, "t.jpg")
            PIL.Image.fromarray(a).save(small)
            tags["thumbnail"], tags["1st"] = open(small, "rb").read(), {"Compression": 6}
        E = env.g.exif.Exif
        e = E(path)
        env.ensure("none", not any(e.tags.get(g) for g in e.tags))
        e.tags = tags
        before = copy.deepcopy(tags)
        code = e.dump()
        env.ensure("frame.tags", e.tags == before)
        env.ensure("bytes", code == e.dump() and piexif.load(code) is not None)
        e.insert(path)
        env.ensure("frame.pixels", np.array_equal(np.array(PIL.Image.open(path)), pixels))
        back = E(path, thumbnail=True)
        for group in TAGS:
            got = {k: v for k, v in back.tags.get(group, {}).items() if k not in ("ExifTag", "GPSTag", "InteroperabilityTag")}
            if group == "Interop" and not before["Exif"] and not before[group]:
                continue
            env.ensure("tags." + group, got == before[group], f"{got} {before[group]}")
        env.ensure("thumbnail", (back.tags.get("thumbnail") is not None) == thumb)
        back = E(path)
        env.ensure("no-thumbnail", "thumbnail" not in back.tags and "1st" not in back.tags)
        if thumb:
            env.ensure("image", env.g.image.Image(path, cam={"imgsz": (7, 5), "f": 1}, datetime=1, exif=back).exif is back)
        e.tags = {env.choice("bad", ["exif", "Unknown", "2nd"]): {}}
        exc, _ = env.raises(e.dump, ValueError)
        env.ensure("bad-group", exc is not None)
        e.tags = {env.choice("in", list(TAGS)): {"Nothing": 1}}
        exc, _ = env.raises(e.dump, ValueError)
        env.ensure("bad-tag", exc is not None)


# -- J01 files of other objects ------------------------------------------------------


def thing(env, name, depth=3):
    """An object that JSON can hold."""
    kind = env.choice(name, ["int", "float", "text", "none", "bool"] + (["list", "dict", "list"] if depth else []))
    if kind == "int":
        return env.int(name + ".i", scale=1000)
    if kind == "float":
        return env.real(name + ".f", scale=1000)
    if kind == "none":
        return None
    if kind == "bool":
        return bool(env.bool(name + ".b"))
    if kind == "text":
        return env.choice(name + ".t", ["", "a", "[1,  2]", "x,  y", '"q" , [', "{", "}, ]", "back\\", "tab\t]", "é ,\n"])
    n = env.int(name + ".n", ge=0, le=4)
    if kind == "list":
        return [thing(env, f"{name}.{i}", depth - 1) for i in range(n)]
    return {env.choice(f"{name}.k{i}", ["a", "b, [", 'c"', "d]", "e {"]) + str(i): thing(env, f"{name}.{i}", depth - 1) for i in range(n)}


@contract("J01", [HELP + "write_json", HELP + "read_json"], sym=False, samples=600)
def json_files(env):
    """What is written is read back; flat arrays of scalars take one line."""
    H = env.g.helpers
    obj = thing(env, "o")
    options = {}
    if env.bool("indented"):
        options["indent"] = env.choice("indent", [None, 0, 1, 2, 4, "\t"])
    if env.bool("separated"):
        options["separators"] = env.choice("separators", [(",", ":"), (", ", ": "), (",  ", " : ")])
    if env.bool("plain"):
        options["ensure_ascii"] = False
    if env.bool("sorted"):
        options["sort_keys"] = True
    flat = bool(env.bool("flat"))
    txt = H.write_json(obj, flat_arrays=flat, **options)
    env.ensure("meaning", json.loads(txt) == obj, txt)
    if not flat or not isinstance(options.get("indent"), (int, str)):
        env.ensure("plain", txt == json.dumps(obj, **options))
    with scratch() as d:
        path = os.path.join(d, "new", "deep", "x.json")
        # (what was there is replaced)
        H.write_json(["x" * 999], path)
        env.ensure("silent", H.write_json(obj, path, flat_arrays=flat, **options) is None)
        env.ensure("read", H.read_json(path) == obj)
    # an array of scalars in an object
    scalars = [thing(env, f"s{i}", 0) for i in range(env.int("ns", ge=1, le=4))]
    indent = env.choice("depth", [0, 2, "\t"])
    k = {"separators": options["separators"]} if "separators" in options else {}
    txt = H.write_json({"s": scalars, "t": 1}, flat_arrays=True, indent=indent, **k)
    lines = [json.dumps(s) for s in scalars]
    sep = k["separators"][0] if k else ", "
    if k:
        lines = [json.dumps(s, **k) for s in scalars]
    env.ensure("one-line", "[" + sep.join(lines) + "]" in txt, txt)


@contract("J01", [HELP + "write_pickle", HELP + "read_pickle"], sym=False, samples=120)
def pickles(env):
    """Objects come back from pickles of every kind."""
    np, H = env.np, env.g.helpers
    a = env.array("a", (env.int("n", ge=0, le=5), 2))
    obj = {"a": a, "b": thing(env, "o", 2), "t": datetime.datetime(2001, 2, 3)}
    gz, binary = bool(env.bool("gz")), bool(env.bool("binary"))
    k = {"protocol": env.choice("protocol", [0, 2, 4])} if env.bool("given") else {}
    with scratch() as d:
        path = os.path.join(d, "new", "deep", "x.pkl")
        H.write_pickle(["x" * 999], path)
        H.write_pickle(obj, path, gz=gz, binary=binary, **k)
        back = H.read_pickle(path, gz=gz, binary=binary)
        env.ensure("same", np.array_equal(back["a"], a) and back["b"] == obj["b"] and back["t"] == obj["t"])
        raw = open(path, "rb").read()
        env.ensure("gz", (raw[:2] == b"\x1f\x8b") == gz)
        if not binary and not gz and not k:
            env.ensure("text", pickle.loads(raw)["b"] == obj["b"])


@contract("J01", [HELP + m for m in ("strip_path", "numpy_to_native", "numpy_dtype_minmax", "gdal_driver_from_path", "crs_to_wkt")], sym=False, samples=200)
def names(env):
    """Names, types, drivers and reference systems."""
    np, H = env.np, env.g.helpers
    stem = env.choice("stem", ["a", "img_1", "a b", "é"])
    exts = [env.choice(f"e{i}", ["jpg", "tar", "gz", "1", ""]) for i in range(env.int("n", ge=0, le=3))]
    base = ".".join([stem] + exts)
    folder = env.choice("folder", ["", "/x/y.z/", "rel.d/", "./"])
    for drop in (True, False, 0, 1, 2, 5):
        keep = len(exts) if not drop else 0 if drop is True else max(len(exts) - drop, 0)
        env.ensure("stripped", H.strip_path(folder + base, extensions=drop) == ".".join([stem] + exts[:keep]), f"{base} {drop}")
    x = env.choice("value", [np.float32(2), np.int64(3), np.array([[1, 2]]), np.bool_(True), [1], "a", None, 4, np.array(5.0)])
    y = H.numpy_to_native(x)
    env.ensure("native", not isinstance(y, (np.generic, np.ndarray)) and (y == x if not isinstance(x, np.ndarray) else y == x.tolist()))
    name = env.choice("dtype", ["i1", "u1", "i2", "u2", "i4", "u8", "f2", "f4", "f8", "?"])
    lo, hi = H.numpy_dtype_minmax(np.dtype(name))
    if name == "?":
        env.ensure("bool", lo is False and hi is True)
    else:
        bits = 8 * int(name[1])
        if name[0] == "f":
            with np.errstate(over="ignore"):
                env.ensure("largest", np.isfinite(hi) and lo == -hi and np.isinf(np.nextafter(np.array(hi, dtype=name), np.array(np.inf, dtype=name))))
        else:
            env.ensure("whole", (lo, hi) == ((0, 2**bits - 1) if name[0] == "u" else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)))
    exc, _ = env.raises(lambda: H.numpy_dtype_minmax(np.dtype(env.choice("odd", ["c8", "S1", "O"]))), ValueError)
    env.ensure("no-bounds", exc is not None)
    ext, driver = env.choice("driver", [("tif", "GTiff"), ("TIF", "GTiff"), ("tiff", "GTiff"), ("png", "PNG"), ("jpg", "JPEG"), ("nothing", None), ("shp", "ESRI Shapefile")])
    got = H.gdal_driver_from_path("/x/a.b." + ext)
    env.ensure("driver", (got.ShortName if got else None) == driver)
    if ext == "shp":
        env.ensure("vector", H.gdal_driver_from_path("a.shp", vector=False) is None)
    if driver in ("PNG", "GTiff"):
        env.ensure("raster", H.gdal_driver_from_path("a." + ext, raster=False) is None)
    code = env.choice("crs", [4326, 32606, 3413])
    wkt = H.crs_to_wkt(code)
    import osgeo.osr

    ref = osgeo.osr.SpatialReference()
    ref.ImportFromEPSG(code)
    for how in (wkt, H.crs_to_wkt(wkt), H.crs_to_wkt(ref.ExportToProj4())):
        other = osgeo.osr.SpatialReference()
        other.ImportFromWkt(how)
        env.ensure("crs", bool(other.IsSame(ref)) or other.ExportToProj4() == ref.ExportToProj4())
    for bad in ("WGS84", 1.5, None):
        exc, _ = env.raises(lambda: H.crs_to_wkt(bad), ValueError)
        env.ensure("bad-crs", exc is not None)


@contract("J01", [HELP + "elevation_corrections", HELP + "_parse_parallel"], budget=30)
def corrections(env):
    """Corrections fall with the square of the distance, by curvature less refraction."""
    H = env.g.helpers
    n = env.size("n", ge=1)
    d2 = env.array("d2", (n,), ge=0, scale=1000)
    r, k = env.real("radius", gt=0, scale=1000), env.real("refraction", ge=0, le=1)
    out = H.elevation_corrections(d2, radius=r, refraction=k)
    default = H.elevation_corrections(d2)
    for i in env.each(n):
        env.eq("drop", out[i] * (2 * r), -d2[i] * (1 - k), scale=1000)
        env.ensure("never-up", out[i] <= 0)
        env.eq("default", default[i] * (2 * 6.3781e6), -d2[i] * (1 - 0.13), scale=1000)
    env.ensure("none", H._parse_parallel(False) == 0)
    m = env.int("m", ge=1)
    env.ensure("number", H._parse_parallel(m) == m)
    if not env.symbolic:
        env.ensure("all", H._parse_parallel(True) == os.cpu_count())

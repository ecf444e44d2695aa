"""RGB-D files: histories over three paths of saves (whole, refused, interrupted), loads, cut files and files of other writers."""
import ctypes
import hashlib
import resource
import shutil
import signal
import numpy as np
from common import *
import tiffparse
from sumo.images import rgbd_tiff
from sumo.images.multi_image_tiff import MultiImageTiff
from sumo.images.rgbd_360 import Rgbd360
from sumo.images.rgbdci_360 import Rgbdci360

for _l in [x.split()[-1] for x in open("/proc/self/maps") if "libtiff.so" in x][:1]:       # quiet
    _t = ctypes.CDLL(_l)
    _t.TIFFSetWarningHandler(None)
    _t.TIFFSetErrorHandler(None)
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
P = rgbd_tiff.MultiImagePageType
NEARS = [(3, 10), (1, 2), (1, 1), (1, 4), (5, 8), (7, 64), (1, 10), (2, 1)]
BIG = 200            # larger images are logged as one token
toks = {}


def tok(a):
    return toks.setdefault(np.ascontiguousarray(a).tobytes() + str(a.shape).encode(), len(toks) + 1)


def img(t, a):
    """an integer image as logged"""
    a = np.asarray(a)
    h, w = a.shape[:2]
    flat = a.astype(np.int64).reshape(-1)
    return dict(t=t, w=w, h=h, px=flat.tolist() if h * w <= BIG else [tok(a.astype(np.int64).reshape(-1))])


def depth_out(a, near):
    """a loaded depth image: scaled (k > 0), or its codes as a token"""
    p, q = near
    h, w = a.shape
    if h * w <= BIG:
        k = max(1, min(20000, 19 * 10 ** 8 // (p * 65535)))
        return dict(t="depth", w=w, h=h, k=k, p=p, q=q, px=[fx(x, q * k) for x in a.reshape(-1).tolist()])
    with np.errstate(divide="ignore"):
        c = np.where(np.isinf(a), 0, np.floor(np.float32(p / q).astype(float) * 65535 / a.astype(float) + .5)).astype(np.int64)
    return dict(t="depth", w=w, h=h, k=0, p=p, q=q, px=[tok(c.reshape(-1))])


def parsed(path, near):
    try:
        with open(path, "rb") as f:
            ps = tiffparse.pages(f.read())
        d = json.loads(ps[0]["desc"])
        out = []
        for p in ps:
            tiffparse.need((p["ch"], p["bits"]) == ((3, 8) if p["name"] == "rgb" else (1, 16)), "page format")
            n = p["w"] * p["h"]
            out.append(dict(t={"inv_depth": "invdepth", "depth": "invdepth", "semantic": "category"}.get(p["name"], p["name"]), w=p["w"], h=p["h"], px=p["px"].tolist() if n <= BIG else [tok(p["px"])]))
        return dict(err="", pages=out, near=bool(np.float32(d["near"]) == np.float32(near[0] / near[1])), version=d["version"] == 1,
                    numbers=[p["number"] for p in ps] == [[i, len(ps)] for i in range(len(ps))])
    except Exception as e:  # noqa
        return dict(err="%s: %s" % (type(e).__name__, e), pages=[], near=False, version=False, numbers=False)


class Run:
    def __init__(self, k):
        self.dir = os.path.join(WORK, "i%d" % k)
        os.makedirs(self.dir)
        self.path = [os.path.join(self.dir, x) for x in ("a.tif", rnd.choice(["b c.tiff", "é.tif"]), "c")]
        self.first = True
        self.near = [(1, 1)] * 3
        self.other = [False] * 3         # written by another writer

    def ev(self, op, f, **kw):
        if self.first:
            kw["new"] = True
            self.first = False
        here = []
        for p in self.path:
            if os.path.exists(p):
                with open(p, "rb") as h:
                    here.append(hashlib.sha1(h.read()).hexdigest())
            else:
                here.append("")
        log.ev(op, f=f + 1, files=here, extra=sorted(os.listdir(self.dir)) == sorted(os.path.basename(p) for p in self.path if os.path.exists(p)), **kw)

    # -------------------------------------------------------------- saving
    def save(self, f, types, limit=None, strided=False):
        h, w = shape()
        near = rnd.choice(NEARS)
        sizes = rnd.random() < .15
        ims, rec = {}, []
        api = "raw"
        if not sizes and rnd.random() < .6:
            api = rnd.choice(["multi"] + (["r360"] if set(types) == {"rgb", "invdepth"} else []) + (["rci"] if len(types) == 4 else []))
        exact = near[1] & (near[1] - 1) == 0
        for t in types:
            if sizes:
                h, w = shape()
            if t == "rgb":
                a = bytes3(h, w)
                ims[P.RGB] = a
                rec.append(img("rgb", a))
            elif t == "invdepth":
                if api in ("r360", "rci") or (h * w <= BIG and rnd.random() < .6):
                    if h * w > BIG:                      # exact codes
                        c = codes(h, w)
                        n32 = np.float32(near[0] / near[1])
                        a = rgbd_tiff.id.depth_image_of_inverse_depth_map(c, n32)
                        rec.append(img("invdepth", c))
                    else:
                        m = rnd.choice([64, 8, 1])
                        nn = near[0] * m // near[1]
                        top = min(10 ** 8 // (near[1] * 3), rnd.choice([m * 3, m * 40, m * 100000, nn * 300 + 1]))
                        ns = [[rnd.choice([0, -1, 1, nn, nn + 1, max(nn - 1, 0)] + [rnd.randrange(top + 1)] * 9) for _ in range(w)] for _ in range(h)]
                        a = np.array([[np.float32(np.inf) if n < 0 else np.float32(n / m) for n in r] for r in ns], np.float32)
                        rec.append(dict(t="depth", w=w, h=h, m=m, px=[n for r in ns for n in r]))
                    ims[P.Depth] = a
                else:
                    a = codes(h, w)
                    ims[P.InverseDepth] = a
                    rec.append(img("invdepth", a))
            else:
                a = codes(h, w)
                ims[P.Category if t == "category" else P.Instance] = a
                rec.append(img(t, a))
        items = list(ims.items())
        rnd.shuffle(items)
        ims = dict(items)
        if strided:
            k = rnd.choice(list(ims))
            a = ims[k]
            b = np.repeat(a, 2, axis=1)[:, ::2] if rnd.random() < .5 else np.asfortranarray(a)
            ims[k] = b
        keep = {k: v.copy() for k, v in ims.items()}
        default = near == (3, 10) and rnd.random() < .5
        kw = {} if default else {"near": near[0] / near[1]}
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
        try:
            x = self.api_save(api, ims, self.path[f], kw)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        if x.ok or limit is not None:
            self.other[f] = False
        if x.ok:
            self.near[f] = near
        self.ev("save", f, types=list(types), ims=rec, p=near[0], q=near[1], exact=exact, limited=limit is not None, strided=strided, ok=x.ok, err=x.err,
                kept=all(np.array_equal(keep[k], ims[k]) for k in ims), file=parsed(self.path[f], near))

    def api_save(self, api, ims, path, kw):
        if api == "raw":
            return call(rgbd_tiff.save, ims, path, **kw)
        if api == "multi":
            return call(MultiImageTiff(ims).save, path, **kw)
        if api == "r360":
            return call(Rgbd360(ims[P.RGB], ims[P.Depth]).save, path, **kw) if P.Depth in ims else call(rgbd_tiff.save, ims, path, **kw)
        return call(Rgbdci360(ims[P.RGB], ims[P.Depth], ims[P.Category], ims[P.Instance]).save, path, **kw) if P.Depth in ims else call(rgbd_tiff.save, ims, path, **kw)

    def refuse(self, f):
        h, w = 2, 12
        rgb, dep, cat = bytes3(h, w), np.ones((h, w), np.float32), codes(h, w)
        good = {P.RGB: rgb, P.Depth: dep, P.Category: cat, P.Instance: cat}
        what = rnd.choice(["rgb", "depth", "invdepth", "category", "instance", "no-rgb", "no-depth", "unknown", "folder", "is-folder", "new-rgb", "new-range", "new-category", "new-instance", "new360-rgb", "new360-range"])
        path = self.path[f]
        bad = {"rgb": [rgb.astype(np.float32), rgb[:, :, 0].copy(), np.zeros((h, w, 4), np.uint8), rgb.astype(np.uint16)],
               "depth": [dep.astype(np.float64), cat, np.zeros((h, w, 1), np.float32), rgb], "invdepth": [dep, cat.astype(np.uint8), cat.astype(np.int32), rgb],
               "category": [dep, cat.astype(np.uint8), cat.astype(np.int32), rgb, cat.astype(np.int16)]}
        kind = what.split("-")[-1]
        kind = {"instance": "category", "range": "depth"}.get(kind, kind)
        b = rnd.choice(bad[kind]) if kind in bad else None
        if what.startswith("new"):
            names = ["rgb", "range", "category", "instance"]
            a = [rgb, dep, cat, cat]
            a[names.index(what.split("-")[1])] = b
            x = call(Rgbdci360, *a) if what.startswith("new-") else call(Rgbd360, *a[:2])
        else:
            if what == "no-rgb":
                del good[P.RGB]
            elif what == "no-depth":
                del good[P.Depth]
            elif what == "unknown":
                good[rnd.choice(["x", "Rgb", None])] = cat
            elif what == "folder":
                path = os.path.join(self.dir, "none", "x.tif")
            elif what == "is-folder":
                path = self.dir
            elif what == "invdepth":
                del good[P.Depth]
                good[P.InverseDepth] = b
            else:
                good[{"rgb": P.RGB, "depth": P.Depth, "category": P.Category, "instance": P.Instance}[what]] = b
            x = call(rgbd_tiff.save, good, path) if rnd.random() < .7 else call(MultiImageTiff(good).save, path)
        self.ev("refuse", f, what=what, ok=x.ok, err=x.err, value=isa(x, "ValueError"), type=isa(x, "TypeError"))

    # -------------------------------------------------------------- files
    def cut(self, f, page=None, what=None):
        if not os.path.exists(self.path[f]) or self.other[f]:       # (their pages need not be counted)
            return
        with open(self.path[f], "rb") as h:
            b = h.read()
        if not b:
            return
        n = rnd.randrange(len(b))
        try:
            _, ds = tiffparse.ifds(b)
            if page is None:
                page, what = rnd.randint(1, len(ds)), rnd.choice(["data", "dir", "link", "name"])
            k = min(page, len(ds)) - 1
            o, end, t = ds[k]
            lo, hi = {"data": (t[273][0], o - 1), "dir": (o, end - 5), "link": (end - 4, end - 1), "name": (end, end + len(t[285]) - 1)}[what]
            if rnd.random() < .9:
                n = min(rnd.randint(lo, hi), len(b) - 1)
        except Exception:  # noqa: not one of our files
            pass
        os.truncate(self.path[f], n)
        self.ev("cut", f)

    def remove(self, f):
        if os.path.exists(self.path[f]):
            os.remove(self.path[f])
            self.ev("remove", f)

    def foreign(self, f):
        h, w = rnd.choice([(1, 6), (2, 3), (3, 18)])
        rgb, d16, d8 = bytes3(h, w), codes(h, w), np.array([[rnd.choice([0, 1, 254, 255, rnd.randrange(256)]) for _ in range(w)] for _ in range(h)], np.uint8)
        near, desc, bad = (1, 1), None, False
        x = rnd.random()
        deep = dict(name=rnd.choice([None, "depth", "inv_depth"]), a=d16)
        ps = [dict(name=rnd.choice([None, "rgb"]), a=rgb), deep]
        if rnd.random() < .5:
            ps += [dict(name=rnd.choice(["category", "semantic"]), a=codes(h, w))] + ([dict(name="instance", a=codes(h, w))] if rnd.random() < .5 else [])
        if x < .25:
            deep["a"] = d8
        elif x < .6:
            desc, near, bad = rnd.choice([('{"version":1,"near":0.25}', (1, 4), False), ('{"near":0.5}', (1, 2), False), ('{"near": 2}', (2, 1), False), ('{"version":1}', (1, 1), False),
                                          ("{}", (1, 1), False), ("hello", (1, 1), True), ("[1]", (1, 1), True), ('{"near":"x"}', (1, 1), True), ('7', (1, 1), True)])
        elif x < .8:
            bad = True
            y = rnd.randrange(7)
            if y == 0:
                deep["name"] = rnd.choice(["bogus", "", "RGB"])
            elif y == 1:
                ps[0]["a"] = rgb.astype(np.uint16)
            elif y == 2:
                ps[0]["planar"] = True
            elif y == 3:
                ps[0]["a"] = np.concatenate([rgb, rgb[:, :, :1]], axis=2)
            elif y == 4:
                ps = [p for p in ps if p is not deep]
            elif y == 5:
                t = rnd.choice(["category", "instance", "inv_depth"])
                ps = [q for q in ps if q["name"] not in ([t, "semantic"] if t == "category" else [t]) and (t != "inv_depth" or q is not deep)]
                ps.append(dict(name=t, a=bytes3(h, w)))
            else:
                deep["a"] = d16.astype(np.uint32)
        ps[0]["number"] = rnd.choice([None, [0, len(ps)], [0, 0]]) if len(ps) == 2 else rnd.choice([None, [0, 0]])
        names = [p["name"] for p in ps]
        if None not in names and rnd.random() < .5:
            for i, p in enumerate(ps):
                p["number"] = [i, len(ps)]
        if rnd.random() < .3:
            rnd.shuffle(ps)
        for p in ps:
            p["rows"] = rnd.choice([None, 1])
        ps[0]["desc"] = desc
        self.other[f] = True
        tiffparse.write(self.path[f], ps, big=rnd.random() < .3)
        self.near[f] = near if deep["a"].dtype != np.uint8 else (3, 10)
        self.ev("foreign", f, bad=bad, p=self.near[f][0], q=self.near[f][1],
                pages=[dict(name=p["name"] or "", ch=p["a"].shape[2] if p["a"].ndim == 3 else 1, bits=p["a"].dtype.itemsize * 8,
                            im=img("?", p["a"]) if p["a"].dtype != np.uint32 else img("?", d16)) for p in ps])

    # -------------------------------------------------------------- loading
    def near_of(self, f):
        """the near plane a file declares, or the one it is known to have"""
        try:
            with open(self.path[f], "rb") as h:
                d = json.loads(tiffparse.first_desc(h.read()))
            return next(n for n in NEARS if np.float32(n[0] / n[1]) == np.float32(d["near"]))
        except Exception:  # noqa
            return self.near[f]

    def load(self, f, api=None):
        api = api or rnd.choice(["raw", "multi", "r360", "rci"])
        p = self.path[f]
        x = call({"raw": rgbd_tiff.load, "multi": MultiImageTiff.load, "r360": Rgbd360.load, "rci": Rgbdci360.load}[api], p)
        ims, types = [], True
        if x.ok:
            v = x.val
            if api == "raw":
                d = {"rgb": v.get(P.RGB), "depth": v.get(P.Depth), "category": v.get(P.Category), "instance": v.get(P.Instance)}
                types = set(v) <= {P.RGB, P.Depth, P.Category, P.Instance}
            else:
                d = {"rgb": v.rgb, "depth": v.range, "category": getattr(v, "category", None), "instance": getattr(v, "instance", None)}
            for t, dt in (("rgb", np.uint8), ("depth", np.float32), ("category", np.uint16), ("instance", np.uint16)):
                a = d[t]
                if a is None:
                    continue
                types = types and isinstance(a, np.ndarray) and a.dtype == dt and a.ndim == (3 if t == "rgb" else 2)
                if types:
                    ims.append(depth_out(a, self.near_of(f)) if t == "depth" else img(t, a))
            for a in d.values():       # what was loaded is the caller's own
                if a is not None and a.flags.writeable:
                    a += a.dtype.type(1)
        self.ev("load", f, api=api, ok=x.ok, err=x.err, ims=ims, types=bool(types))

    def resave(self, f, g):
        if not os.path.exists(self.path[f]):
            return
        x = call(rgbd_tiff.load, self.path[f])
        if not x.ok:
            return
        near = self.near[f]
        y = call(rgbd_tiff.save, x.val, self.path[g], near=np.float32(near[0] / near[1]))
        self.near[g] = near
        self.other[g] = self.other[g] and not y.ok
        self.ev("resave", f, g=g + 1, ok=y.ok, err=y.err, file=parsed(self.path[g], near))

    def end(self):
        shutil.rmtree(self.dir)


def shape():
    return rnd.choice([(1, 1), (1, 6), (2, 12), (3, 18), (2, 5), (5, 3), (7, 2), (4, 24)] + ([(12, 72), (40, 240)] if rnd.random() < .2 else []))


def bytes3(h, w):
    return np.frombuffer(rnd.randbytes(h * w * 3), np.uint8).reshape(h, w, 3).copy()


def codes(h, w):
    c = np.frombuffer(rnd.randbytes(h * w * 2), np.uint16).reshape(h, w).copy()
    for _ in range(2):
        c[rnd.randrange(h), rnd.randrange(w)] = rnd.choice([0, 1, 255, 256, 32767, 32768, 65534, 65535])
    return c


SETS = [["rgb", "invdepth"], ["rgb", "invdepth", "category"], ["rgb", "invdepth", "instance"], ["rgb", "invdepth", "category", "instance"]]
for n, h in enumerate(IN["histories"]):
    r = Run(n)
    f = rnd.randrange(3)
    for s in h:
        if s["op"] == "save":
            r.save(f, s["types"])
        elif s["op"] == "refuse":
            r.refuse(f)
        elif s["op"] == "cut":
            r.cut(f, s["page"], s["what"])
        else:
            r.load(f)
    r.load(f)
    r.end()
for n in range(IN["random"]):
    r = Run(10 ** 6 + n)
    for _ in range(rnd.randint(3, 14)):
        f = rnd.randrange(3)
        x = rnd.random()
        if x < .25:
            r.save(f, rnd.choice(SETS))
        elif x < .32:
            r.save(f, rnd.choice(SETS), limit=rnd.choice([0, 8, rnd.randrange(3000), rnd.randrange(1500)]))
        elif x < .36:
            r.save(f, rnd.choice(SETS), strided=True)
        elif x < .45:
            r.refuse(f)
        elif x < .52:
            r.cut(f)
        elif x < .55:
            r.remove(f)
        elif x < .68:
            r.foreign(f)
        elif x < .74:
            r.resave(f, rnd.randrange(3))
        else:
            r.load(f)
        if rnd.random() < .4:
            r.load(f)
    r.end()

"""Packing glTF files: sources of the specification and random ones, edited, with missing files; models as other tools write them."""
import contextlib
import io
import shutil
import struct
from common import *
from gltfgen import *
import gltfparse
from sumo.threedee.glb_converter import gltf2glb
from sumo.threedee.gltf_model import GltfModel

OUTS = ["scene.glb", "other.glb", "sub/out.glb", "../beside.glb"]      # 1: the default


def canon(js):
    """everything but buffers, views, images, and the other fields of views and images"""
    js = dict(js)
    views = js.pop("bufferViews", [])
    imgs = js.pop("images", [])
    js.pop("buffers", None)
    meta = [tok_json({k: v for k, v in x.items() if k not in ("buffer", "byteOffset", "byteLength")}) for x in views]
    rest = dict(js=js, imgs=[{k: v for k, v in x.items() if k not in ("uri", "bufferView", "mimeType")} for x in imgs])
    return tok_json(rest), meta


jtable = {}


def tok_json(x):
    return jtable.setdefault(json.dumps(x, sort_keys=True), len(jtable) + 1)


def packed(path):
    """what a glb file holds (parsed here, not by the code under test)"""
    try:
        with open(path, "rb") as f:
            b = f.read()
        magic, ver, total = struct.unpack("<4sII", b[:12])
        jlen, jt = struct.unpack("<I4s", b[12:20])
        blen, bt = struct.unpack("<I4s", b[20 + jlen:28 + jlen])
        gltfparse.need(magic == b"glTF" and ver == 2 and jt == b"JSON" and bt == b"BIN\0" and len(b) == 28 + jlen + blen, "chunks")
        j = b[20:20 + jlen]
        js = json.loads(j.decode("utf-8"))
        rest, meta = canon(js)
        bs = js["buffers"]
        vs = js.get("bufferViews", [])
        im = js.get("images", [])
        return dict(err="", total=total, size=len(b), jlen=jlen, blen=blen, jpad=j.rstrip(b" ")[-1:] == b"}" and len(j) - len(j.rstrip(b" ")) < 4,
                    nbuf=len(bs), uri=any("uri" in x for x in bs + im), byteLength=bs[0]["byteLength"], rest=rest, meta=meta, body=list(b[28 + jlen:]),
                    views=[dict(off=v.get("byteOffset", 0), len=v["byteLength"]) if v["buffer"] == 0 else dict(off=-1, len=-1) for v in vs],
                    imgs=[x["bufferView"] + 1 for x in im], types=True, mime=[x.get("mimeType", "") for x in im])
    except Exception as e:  # noqa
        return dict(err="%s: %s" % (type(e).__name__, e), total=0, size=0, jlen=0, blen=0, jpad=False, nbuf=0, uri=False, byteLength=0, rest=0, meta=[], body=[],
                    views=[], imgs=[], types=False, mime=[])


class Run:
    def __init__(self, k):
        self.dir = os.path.join(WORK, "p%d" % k, rnd.choice(["src", "a b", "x.gltf.d", "é"]))
        os.makedirs(os.path.join(self.dir, "sub"))
        self.first = True
        self.want = {}       # every file but the outputs -> content (None: removed)
        self.img = []

    def path(self, f):
        return os.path.join(self.dir, f)

    def put(self, f, b):
        os.makedirs(os.path.dirname(self.path(f)), exist_ok=True)
        with open(self.path(f), "wb") as h:
            h.write(b)
        self.want[f] = bytes(b)

    def ev(self, op, outs=True, **kw):
        here = {}
        top = os.path.dirname(self.dir)
        for d, _, fs in os.walk(top):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f), self.dir)
                with open(os.path.join(d, f), "rb") as h:
                    here[p] = h.read()
        rec = []
        for i, o in enumerate(OUTS):
            if o in here:
                f = packed(self.path(o))
                f["types"] = f["mime"] == [{"png": "image/png", "jpg": "image/jpeg", "jpeg": "image/jpeg"}[n.rsplit(".", 1)[1]] for n in self.img]
                del f["mime"]
                rec.append(dict(out=i + 1, f=f))
        kept = {f: b for f, b in here.items() if f not in OUTS} == {f: b for f, b in self.want.items() if b is not None}
        if self.first:
            kw["new"] = True
            self.first = False
        log.ev(op, outs=rec, kept=kept, **kw)

    def source(self, bufs, views, imgs, other):
        """bufs, imgs: (name, bytes); views: (buffer from 0, offset or None, length, other fields)"""
        self.bufs, self.imgs = [n for n, _ in bufs], [n for n, _ in imgs]
        self.img = self.imgs
        js = dict(other)
        js["buffers"] = [{"uri": n, "byteLength": len(b) - rnd.choice([0, 0, min(1, len(b) - 1)])} for n, b in bufs]
        need = [0] * len(bufs)
        vs = []
        for b, o, n, x in views:
            v = dict(x, buffer=b, byteLength=n)
            if o is not None:
                v["byteOffset"] = o
            need[b] = max(need[b], (o or 0) + n)
            vs.append(v)
        for k, x in enumerate(js["buffers"]):
            x["byteLength"] = max(x["byteLength"], need[k])
        js["bufferViews"] = vs
        if imgs or rnd.random() < .5:
            js["images"] = [dict({"uri": n}, **({"name": "picture é %d" % i} if rnd.random() < .5 else {})) for i, (n, _) in enumerate(imgs)]
        for n, b in bufs + imgs:
            self.put(n, b)
        self.put("scene.gltf", json.dumps(js, ensure_ascii=rnd.random() < .5, indent=rnd.choice([None, 1])).encode("utf-8"))
        rest, meta = canon(js)
        self.files = self.bufs + self.imgs
        self.ev("source", src=dict(bufs=[list(b) for _, b in bufs], imgs=[list(b) for _, b in imgs], rest=rest, meta=meta,
                                   views=[dict(b=b + 1, off=o or 0, len=n) for b, o, n, _ in views]))

    def pack(self, out):
        cwd = os.getcwd()
        try:
            inp = self.path("scene.gltf")
            if rnd.random() < .4:
                os.chdir(self.dir)
                inp = rnd.choice(["scene.gltf", "./scene.gltf"])
            x = run(inp, *([] if out == 1 else [self.path(OUTS[out - 1])]))
        finally:
            os.chdir(cwd)
        self.ev("pack", out=out, ok=x.ok, err=x.err)

    def edit(self, k):
        n = self.files[k]
        b = bytes(rnd.randrange(256) for _ in self.want[n])
        self.put(n, b)
        i = k - len(self.bufs)
        self.ev("edit", img=int(i >= 0), k=(i if i >= 0 else k) + 1, bytes=list(b))

    def remove(self, k):
        n = self.files[k]
        self.saved = getattr(self, "saved", {})
        self.saved[k] = self.want[n]
        os.remove(self.path(n))
        self.want[n] = None
        self.ev("remove", k=k + 1)

    def restore(self, k):
        self.put(self.files[k], self.saved.pop(k))
        self.ev("restore", k=k + 1)

    def junk(self):
        what = rnd.choice(["name", "missing", "text", "cut", "empty-uri"])
        f = {"name": "scene.json", "missing": "none.gltf"}.get(what, "junk.gltf")
        if what != "missing":
            b = self.want["scene.gltf"]
            if what == "text":
                b = rnd.choice([b"", b"{", b"glTF\2\0\0\0", b"\xff\xfe{}", b"[]"])
            elif what == "cut":
                b = b[:rnd.randrange(len(b) - 1)]
            elif what == "empty-uri":
                js = json.loads(b.decode("utf-8"))
                js["images"] = [{"uri": ""}]
                b = json.dumps(js).encode()
            self.put(f, b)
        x = run(self.path(f), self.path("never.glb"))
        self.ev("junk", what=what, ok=x.ok, err=x.err)

    def end(self):
        shutil.rmtree(os.path.dirname(self.dir))


def run(*a):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return call(gltf2glb, *a)
    except SystemExit as e:        # "input is not *.gltf"
        return type("R", (), dict(ok=e.code in (0, None), err="SystemExit"))


def data(n):
    return bytes(rnd.randrange(256) for _ in range(n))


def names(nb, ni):
    return ([rnd.choice(["%d.bin", "b %d.bin", "data/%d.bin", "%d.bin.bin", "é%d.bin"]) % i for i in range(nb)],
            [rnd.choice(["%d.png", "t %d.png", "tex/%d.jpg", "x%d.y.jpeg"]) % i for i in range(ni)])


def other():
    x = {"asset": {"version": "2.0", "generator": rnd.choice(["x", "é \\ \"", "\U0001f600"])}}
    if rnd.random() < .5:
        x["nodes"] = [{"name": "n%d" % i, "translation": [rnd.uniform(-1, 1), .1, 1e-30]} for i in range(rnd.randint(0, 3))]
    if rnd.random() < .5:
        x["extras"] = {"a": None, "b": [1, 2.5, True], "pad": "x" * rnd.randrange(4)}
    return x


def fields():
    return rnd.choice([{}, {"target": 34962}, {"byteStride": 12, "target": 34962}, {"name": "v"}])


def spec_case(k, c):
    r = Run(k)
    bn, im = names(len(c["bufs"]), len(c["imgs"]))
    views = [(v["b"] - 1, v["off"] if v["off"] or rnd.random() < .5 else None, v["len"], fields()) for v in c["views"]]
    r.source([(bn[i], data(n)) for i, n in enumerate(c["bufs"])], views, [(im[i], data(n)) for i, n in enumerate(c["imgs"])], other())
    if c["miss"]:
        if rnd.random() < .5:
            r.pack(rnd.choice([1, 2]))
        r.remove(c["miss"] - 1)
        r.pack(rnd.choice([1, 2, 3, 4]))
        r.restore(c["miss"] - 1)
    r.pack(rnd.choice([1, 2, 3, 4]))
    r.end()


def random_case(k):
    r = Run(k)
    nb, ni = rnd.randint(1, 4), rnd.choice([0, 0, 1, 2, 4])
    bn, im = names(nb, ni)
    bufs = [(n, data(rnd.choice([1, 2, 3, 4, 5, 8, 13, 30, rnd.randint(1, 60)]))) for n in bn]
    views = []
    for _ in range(rnd.randint(0, 6)):
        b = rnd.randrange(nb)
        o = rnd.randrange(len(bufs[b][1]))
        n = rnd.randint(1, len(bufs[b][1]) - o)
        views.append((b, o if o or rnd.random() < .5 else None, n, fields()))
    r.source(bufs, views, [(n, data(rnd.choice([1, 3, 4, 7, rnd.randint(1, 40)]))) for n in im], other())
    gone = set()
    for _ in range(rnd.randint(2, 8)):
        x = rnd.random()
        k = rnd.randrange(len(r.files))
        if x < .5:
            r.pack(rnd.choice([1, 2, 3, 4]))
        elif x < .7:
            if k not in gone:
                r.edit(k)
        elif x < .8 and k not in gone:
            r.remove(k)
            gone.add(k)
        elif x < .92 and gone:
            k = gone.pop()
            r.restore(k)
        else:
            r.junk()
    r.end()


def model_case(k):
    """a model as another tool writes it: what is packed loads, and holds the same"""
    r = Run(k)
    lit = write_foreign(r.dir)
    js = json.load(open(r.path("scene.gltf")))
    bufs = [x["uri"] for x in js["buffers"]]
    imgs = [x["uri"] for x in js.get("images", [])]
    for f in bufs + imgs + ["scene.gltf"]:
        with open(r.path(f), "rb") as h:
            r.put(f, h.read())
    r.img = imgs
    rest, meta = canon(js)
    r.files, r.bufs, r.imgs = bufs + imgs, bufs, imgs
    r.ev("source", src=dict(bufs=[list(r.want[n]) for n in bufs], imgs=[list(r.want[n]) for n in imgs], rest=rest, meta=meta,
                            views=[dict(b=v["buffer"] + 1, off=v.get("byteOffset", 0), len=v["byteLength"]) for v in js["bufferViews"]]))
    r.pack(2)
    a, b = file_desc(r.path("scene.gltf")), file_desc(r.path("other.glb"))
    one = call(GltfModel.load_from_gltf, r.path("scene.gltf"))
    two = call(GltfModel.load_from_glb, r.path("other.glb"))
    same = a == b and a["err"] == ""
    if one.ok and two.ok:
        same = same and [mesh_desc(m) for m in one.val.primitive_meshes()] == [mesh_desc(m) for m in two.val.primitive_meshes()]
    r.ev("model", ok=one.ok and two.ok, same=bool(same))
    r.end()


for k, c in enumerate(IN["cases"]):
    spec_case(k, c)
for k in range(IN["random"]):
    random_case(10 ** 6 + k)
for k in range(IN["models"]):
    model_case(2 * 10 ** 6 + k)

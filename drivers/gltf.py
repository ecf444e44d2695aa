"""glTF models: histories over registers of models and meshes, saved, loaded, copied; foreign models; failures."""
import cv2
import shutil
import tempfile
import numpy as np
from common import *
import gltfparse
from gltfgen import *
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh

R, Q = 4, 4


class Run:
    def __init__(self, k):
        self.dir = os.path.join(WORK, "g%d" % k)
        os.makedirs(self.dir)
        self.regs = [GltfModel() for _ in range(R)]
        self.n = [0] * R                  # primitives
        self.meshes = [None] * Q
        self.kind = [None] * Q
        self.files = []
        self.tmp = os.path.join(self.dir, "tmp")
        os.makedirs(self.tmp)
        tempfile.tempdir = self.tmp
        self.cwd = os.path.join(self.dir, "here")
        os.makedirs(self.cwd)
        os.chdir(self.cwd)
        self.first = True
        self.texdir = os.path.join(self.dir, "tex")
        os.makedirs(self.texdir)
        self.num = 0

    def name(self):
        self.num += 1
        return "%s%d" % (rnd.choice(["m", "a b", "x.y", "$HOME ", "é", "o'k", "a#"]), self.num)

    def ev(self, op, touched, filed=True, **kw):
        dumps = []
        others = [r for r in range(R) if r not in touched and self.n[r]]
        for r in list(touched) + (rnd.sample(others, 1) if others else []):
            m = self.regs[r]
            d = dict(r=r + 1, api=[mesh_desc(x) for x in m.primitive_meshes()], cnt=[int(m.num_primitive_meshes()), int(m.num_nodes()), int(m.num_images())],
                     urid=len(set(m.image_uri(i) for i in range(m.num_images()))) == m.num_images(), file=[])
            if self.n[r] and filed and rnd.random() < 0.6:
                f = os.path.join(self.dir, "dump")
                os.makedirs(f)
                m.save_as_gltf(f, "d")
                d["file"] = [file_desc(os.path.join(f, "d.gltf"))]
                shutil.rmtree(f)
            dumps.append(d)
        if self.first:
            kw["new"] = True
            self.first = False
        kw.setdefault("ok", True)
        kw.setdefault("err", "")
        log.ev(op, dumps=dumps, clean=os.getcwd() == self.cwd and os.listdir(self.tmp) == [] and os.listdir(self.cwd) == [], **kw)

    # ---------------------------------------------------------------- meshes
    def mesh(self, q, textured):
        n, t = rnd.randint(1, 6), rnd.randint(1, 4)
        v = np.array([[rnd.uniform(-9, 9) for _ in range(n)] for _ in range(3)], np.float32)
        nn = np.array([[rnd.uniform(-1, 1) for _ in range(n)] for _ in range(3)], np.float32)
        if rnd.random() < .1:
            v[:, 0] = [rnd.choice([0.0, -0.0, 1e-40, 1e30, -3e9, 3e9]) for _ in range(3)]
        idx = np.array([rnd.randrange(n) for _ in range(3 * t)], np.uint32)
        if textured:
            uv = np.array([[rnd.uniform(-2, 2) for _ in range(n)] for _ in range(2)], np.float32)
            base = picture()
            mr = picture() if rnd.random() < .7 else np.zeros((0, 0, 3), np.uint8)
            m = TexturedMesh(idx, v, nn, uv, base, mr)
            x = dict(geo=geo(idx, v.T, nn.T, uv.T), tex=True, base=pic(base), mr=pic(mr))
        else:
            m = Mesh(idx, v, nn)
            x = dict(geo=geo(idx, v.T, nn.T, None), tex=False, base=0, mr=0)
        self.meshes[q], self.kind[q] = m, textured
        self.ev("mesh", [], q=q + 1, x=x)

    def add(self, r, q):
        m = self.regs[r]
        if rnd.random() < .5:
            m.add_mesh(self.meshes[q])
        elif self.kind[q]:
            m.add_textured_primitive_mesh(self.meshes[q])
        else:
            m.add_primitive_mesh(self.meshes[q])
        self.n[r] += 1
        self.ev("add", [r], r=r + 1, q=q + 1)

    def start(self, r, q):
        self.regs[r] = GltfModel.from_textured_mesh(self.meshes[q])
        self.n[r] = 1
        self.ev("from", [r], r=r + 1, q=q + 1)

    def extract(self, r, q, i, must):
        m = self.regs[r]
        x = call(m.extract_textured_primitive_mesh if must else m.extract_primitive_mesh, i) if i or rnd.random() < .5 else \
            call(m.extract_textured_primitive_mesh if must else m.extract_primitive_mesh)
        got = []
        if x.ok:
            self.meshes[q] = x.val
            self.kind[q] = isinstance(x.val, TexturedMesh)
            got = [mesh_desc(x.val)]
        self.ev("extract", [r], r=r + 1, q=q + 1, i=i + 1, must=must, ok=x.ok, err=x.err, got=got)

    def mutate(self, q):
        m = self.meshes[q]
        m.merge(m)
        if rnd.random() < .5:
            m.merge(m)
        self.ev("mutate", list(range(R)), filed=False, q=q + 1, x=mesh_desc(m))

    # ---------------------------------------------------------------- materials
    def update(self, r, us, fail):
        arg, rec = [], []
        base = self.texdir
        for k, u in enumerate(us):
            if u is None:
                arg.append(None)
                rec.append(dict(skip=True, rgb=[], pix=0))
                continue
            rgb, pix = u
            uri, p = "", 0
            if pix is not None:
                self.num += 1
                sub = rnd.choice(["", "in/", "a.b/"])
                uri = sub + rnd.choice(["%d.png", "t %d.png", "1.%d.png"]) % self.num
                os.makedirs(os.path.join(base, sub), exist_ok=True)
                if k + 1 != fail:
                    cv2.imwrite(os.path.join(base, uri), with_alpha(pix) if pix.shape[0] % 2 else np.ascontiguousarray(pix[:, :, ::-1]))
                p = pic(pix)
            elif k + 1 == fail:
                uri = "missing.png"
            arg.append({"color": np.array(rgb if rgb else [0., 0., 0.]), "uri": uri})
            rec.append(dict(skip=False, rgb=fxs(list(rgb) + [1], 1000000) if rgb else [], pix=p))
        x = call(self.regs[r].update_materials, base, arg)
        self.ev("update", [r], r=r + 1, us=rec, fail=fail, ok=x.ok, err=x.err)

    def colour(self, r):
        rgb = [rnd.choice([0, 1, .5, rnd.random()]) for _ in range(3)]
        met, rou, name = rnd.choice([0., 1., rnd.random()]), rnd.choice([0., .95, rnd.random()]), rnd.choice(["red", "my material", "é"])
        i = self.regs[r].add_colored_material(name, np.array(rgb), met, rou)
        self.ev("colour", [r], r=r + 1, got=int(i), look=dict(name=name, rgb=fxs(rgb + [1], 1000000), met=fx(met, 1000000), rou=fx(rou, 1000000)))

    # ---------------------------------------------------------------- models
    def copy(self, r, t):
        self.regs[t] = self.regs[r].deepcopy()
        self.n[t] = self.n[r]
        self.ev("copy", [r, t], r=r + 1, t=t + 1)

    def same(self, r, t):
        self.ev("same", [], r=r + 1, t=t + 1, got=bool(self.regs[r].same_size(self.regs[t])))

    def save(self, r, fmt):
        folder = os.path.join(self.dir, self.name())
        os.makedirs(folder)
        root = self.name()
        if rnd.random() < .3:     # whatever was there before is replaced
            for f in (".gltf", ".bin", ".glb"):
                with open(os.path.join(folder, root + f), "wb") as h:
                    h.write(b"old" * 5000)
        arg = folder if rnd.random() < .5 else os.path.relpath(folder, self.cwd)
        if fmt == "gltf":
            ret = self.regs[r].save_as_gltf(arg, root)
            good = ret == os.path.join(arg, root + ".gltf")
        else:
            ret = self.regs[r].save_as_glb(os.path.join(arg, root + ".glb"))
            good = ret is None and (os.listdir(folder) == [root + ".glb"] or os.path.exists(os.path.join(folder, root + ".bin")))
        path = os.path.join(folder, root + "." + fmt)
        self.files.append((path, fmt, self.n[r]))
        self.ev("save", [r], filed=False, r=r + 1, f=len(self.files), ret=bool(good), file=[file_desc(path)])

    def load(self, f, t):
        path, fmt, n = self.files[f]
        if rnd.random() < .5:
            path = os.path.relpath(path, self.cwd)
        self.regs[t] = GltfModel.load_from_gltf(path) if fmt == "gltf" else GltfModel.load_from_glb(path)
        self.n[t] = n
        self.ev("load", [t], f=f + 1, t=t + 1)

    def foreign(self, t):
        folder = os.path.join(self.dir, self.name())
        os.makedirs(folder)
        lit = write_foreign(folder)
        self.regs[t] = GltfModel.load_from_gltf(os.path.join(folder, "scene.gltf"))
        self.n[t] = len(lit["prims"])
        self.ev("foreign", [t], t=t + 1, lit=lit, own=file_desc(os.path.join(folder, "scene.gltf")))

    # ---------------------------------------------------------------- failures
    def bad(self, r, what):
        m = self.regs[r]
        d = os.path.join(self.dir, self.name())
        if what == "add":
            x = call(m.add_mesh, rnd.choice([None, 5, "mesh", m]))
        elif what == "save-nodir":
            x = call(m.save_as_gltf, d, "x")
        elif what == "save-nodir-glb":
            x = call(m.save_as_glb, os.path.join(d, "x.glb"))
        elif what in ("save-blocked", "save-blocked-bin", "save-blocked-image", "save-blocked-glb"):
            os.makedirs(d)
            n = {"save-blocked": "x.gltf", "save-blocked-bin": "x.bin", "save-blocked-image": m.image_uri(0) if m.num_images() else "x.bin", "save-blocked-glb": "x.glb"}[what]
            os.makedirs(os.path.join(d, n))
            x = call(m.save_as_glb, os.path.join(d, "x.glb")) if what.endswith("glb") else call(m.save_as_gltf, d, "x")
        else:
            os.makedirs(d)
            ext = rnd.choice(["gltf", "glb"])
            path = os.path.join(d, "x." + ext)
            if what == "load-junk":
                with open(path, "wb") as f:
                    f.write(rnd.choice([b"", b"{", b"glTF", b"null", b"x" * 50, b"glTF" + b"\0" * 60, b"[1,2,3]"]))
            elif what in ("load-cut", "load-gone"):
                if ext == "gltf":
                    m.save_as_gltf(d, "x")
                    f = rnd.choice(["x.gltf", "x.bin"])
                else:
                    m.save_as_glb(path)
                    f = "x.glb"
                f = os.path.join(d, f)
                if what == "load-cut":
                    k = os.path.getsize(f)
                    os.truncate(f, rnd.choice([0, 1, 11, 12, 19, 20, k // 2, k - 4, k - 2, rnd.randrange(k - 1)]))
                else:
                    os.remove(f)
            x = call(GltfModel.load_from_gltf if ext == "gltf" else GltfModel.load_from_glb, path)
        self.ev("bad", [r], r=r + 1, what=what, ok=x.ok, err=x.err, io=isa(x, "IOError"), value=isa(x, "ValueError"))

    def end(self):
        os.chdir(WORK)
        shutil.rmtree(self.dir)


def colour():
    return rnd.choice([None, [1., 0., 0.], [0., .5, 0.], [0., 0., 1.], [.25, .5, .75], [rnd.random() for _ in range(3)]])


def step(r, op, reg=0):
    """one step of an emitted history, with anything else for its data"""
    q = rnd.randrange(Q)
    if op in ("addt", "addp"):
        r.mesh(q, op == "addt")
        r.add(reg, q)
    elif op in ("upt1", "uptn", "upc1", "upcn"):
        n = r.n[reg]
        i = 0 if op[-1] == "1" else n - 1
        us = [None] * i + [(colour() if op[2] == "c" else None, picture() if op[2] == "t" else None)]
        r.update(reg, us, 0)
    elif op in ("gltf", "glb"):
        r.save(reg, op)
        r.load(len(r.files) - 1, reg)
    elif op == "foreign":
        r.foreign(reg)


def texturable(r, reg):
    """the length of the initial block of primitives that have texture coordinates"""
    k = 0
    for x in r.regs[reg].primitive_meshes():
        if not x.is_textured():
            break
        k += 1
    return k


def history(k, length):
    r = Run(k)
    for _ in range(length):
        full = [i for i in range(R) if r.n[i]]
        have = [q for q in range(Q) if r.meshes[q] is not None]
        a = rnd.randrange(R)
        x = rnd.random()
        if x < .15 or not have:
            r.mesh(rnd.randrange(Q), rnd.random() < .6)
        elif x < .35:
            r.add(a, rnd.choice(have))
        elif x < .4:
            r.foreign(a)
        elif not full:
            continue
        elif x < .48:
            f = rnd.choice(full)
            r.extract(f, rnd.randrange(Q), rnd.choice(list(range(r.n[f])) * 3 + [r.n[f], r.n[f] + 7]), rnd.random() < .3)
        elif x < .6:
            f = rnd.choice(full)
            k = texturable(r, f)
            us = [rnd.choice([None, (colour(), None), (colour(), picture() if i < k else None)]) for i in range(rnd.randint(0, r.n[f] + 2))]
            fail = 0
            if us and rnd.random() < .3:
                fail = rnd.randint(1, len(us))
                if us[fail - 1] is None:
                    us[fail - 1] = (colour(), None)
                if fail <= r.n[f]:
                    us = us[:fail]
            r.update(f, us, fail)
        elif x < .63:
            r.colour(rnd.choice(full))
        elif x < .7:
            r.copy(rnd.choice(full), a)
        elif x < .74:
            r.same(a, rnd.randrange(R))
        elif x < .8:
            r.save(rnd.choice(full), rnd.choice(["gltf", "glb"]))
        elif x < .86:
            if r.files:
                r.load(rnd.randrange(len(r.files)), a)
        elif x < .9:
            r.mutate(rnd.choice(have))
        elif x < .93:
            t = [q for q in have if r.kind[q]]
            if t:
                r.start(a, rnd.choice(t))
        else:
            r.bad(rnd.choice(full), rnd.choice(["add", "save-nodir", "save-nodir-glb", "save-blocked", "save-blocked-bin", "save-blocked-image", "save-blocked-glb",
                                                "load-junk", "load-missing", "load-cut", "load-cut", "load-gone"]))
    r.end()


for k, h in enumerate(IN["histories"]):
    r = Run(k)
    for i, op in enumerate(h):
        step(r, op)
        if rnd.random() < .2 and r.n[0]:
            r.copy(0, 1 + i % 3)
    r.end()
for k in range(IN["random"]):
    history(100000 + k, rnd.randint(3, 25))

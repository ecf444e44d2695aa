"""Random histories of project scenes: create, edit, transform, convert, save, load, stopped saves."""
import ctypes
import hashlib
import shutil
from common import *  # noqa
import numpy as np
from eval_toy import quat_R, sym, VALID, CUBE
from sumo.base.vector import Vector3
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.semantic.project_converter import ProjectConverter
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.mesh import Mesh
from sumo.threedee.voxel_grid import VoxelGrid

NINTHS = [[1, 2, 2, 0], [1, 2, 0, 2], [1, 0, 2, 2], [2, 1, 2, 0], [2, 2, 0, 1], [2, 0, 1, 2], [0, 1, 2, 2], [0, 2, 1, 2],
          [1, -2, 2, 0], [2, 1, -2, 0], [2, 0, -1, 2], [0, 2, -1, 2]]
IDS = ["1", "2", "chair 7", "a.b", "stühl", "x-y_z", "obj", "obj ", " obj", "OBJ", "1 "]
CATS = ["chair", "a & b <c>", 'qu"ote\'s', "table lamp", "größe", "unknown"]
SCORES = [-1, 0, 0.5, 0.57, 1e-9, 123456.789, 1.0 / 3, 0.1 + 0.2, 1e300, -2.5, 7, float(np.float32(0.1))]
U = 10 ** 5
TYPES = ["bounding_box", "voxels", "meshes"]


def h(*parts):
    m = hashlib.sha1()
    for p in parts:
        m.update(repr(p).encode())
    return m.hexdigest()[:12]


def arr(a, scale=10 ** 6):
    a = np.asarray(a, dtype=float)
    return [a.shape, np.round(a * scale).astype(np.int64).tolist()]


def mesh_digest(model):
    out = []
    for m in model.primitive_meshes():
        d = [type(m).__name__, arr(m.vertices()), arr(m.normals()), np.asarray(m.indices()).tolist()]
        if isinstance(m, TexturedMesh):
            d += [arr(m.uv_coords()), np.asarray(m.base_color()).tolist(), np.asarray(m.metallic_roughness()).tolist()]
        out.append(d)
    return h(out)


def voxel_digest(v):
    c = np.asarray(v.voxel_centers(), dtype=float).reshape(-1, 3)
    rows = sorted(map(tuple, np.round(c * 10 ** 5).astype(np.int64).tolist()))
    return h(round(v.voxel_size, 9), rows)


def shape_of(o):
    if o.meshes is not None:
        return mesh_digest(o.meshes)
    if o.voxels is not None:
        return voxel_digest(o.voxels)
    return "box"


def box6(b):
    return [] if b is None else fxs(list(b.min_corner) + list(b.max_corner), 10 ** 4)


def obj_obs(key, o):
    m = o.pose.rotation().matrix()
    s = o.symmetry
    return dict(key=key, id=o.id, type=o.project_type, cat=o.category, rot=[fxs(m[:, j], U) for j in range(3)],
                t=fxs(o.pose.translation(), U),
                sym=[x.name for x in (s.x_symmetry, s.y_symmetry, s.z_symmetry)] if s is not None else [],
                score=repr(float(o.score)), ev=bool(o.evaluated), bounds=box6(o.bounds), shape=shape_of(o))


def settings_obs(s):
    return dict(version=s.get("version", ""), cid=s.get("categories_id", ""), url=s.get("categories_url", ""))


def scene_obs(s):
    return dict(type=s.project_type, settings=settings_obs(s.settings), dict=isinstance(s.elements, ProjectObjectDict),
                objs=[obj_obs(k, s.elements[k]) for k in sorted(s.elements.keys())])


def files_of(path):
    out = {}
    for d, dirs, files in os.walk(path):
        for f in files:
            p = os.path.join(d, f)
            out[os.path.relpath(p, path)] = open(p, "rb").read()
    return out


def dir_digest(path):
    return h(sorted((k, hashlib.sha1(v).hexdigest()) for k, v in files_of(path).items()))


def rint(a, b):
    return rnd.randint(a, b)


def make_shape(kind):
    """(kwargs, bounds, box, shape)"""
    if kind == "bounding_box":
        lo = [rint(-50000, 50000) for _ in range(3)]
        hi = [v + rint(0, 20000) for v in lo]
        b = Box3d(np.array(lo) / 1e4, np.array(hi) / 1e4)
        return dict(bounds=b), lo + hi, lo + hi, "box"
    if kind == "voxels":
        size = rnd.choice([1000, 2500, 10000])
        corner = [rint(-20000, 20000) for _ in range(3)]
        cells = {tuple(rint(0, 5) for _ in range(3)) for _ in range(rint(1, 6))}
        pts = np.array([[corner[i] + (c[i] + .5) * size for i in range(3)] for c in sorted(cells)]) / 1e4
        vg = VoxelGrid(size / 1e4, np.array(corner) / 1e4)
        for chunk in np.array_split(pts, rint(1, min(3, len(pts)))):
            vg.add_points(chunk)
        box = [corner[i] + min(c[i] for c in cells) * size for i in range(3)] + \
              [corner[i] + (max(c[i] for c in cells) + 1) * size for i in range(3)]
        rows = sorted(tuple(int(round((corner[i] + (c[i] + .5) * size) * 10)) for i in range(3)) for c in cells)
        return dict(voxels=vg), None, box, h(round(size / 1e4, 9), rows)
    model = GltfModel()
    lo, hi = [10 ** 9] * 3, [-10 ** 9] * 3
    for _ in range(rint(1, 2)):
        a = [rint(-8000, 8000) for _ in range(3)]
        b = [v + rint(100, 8000) for v in a]
        lo = [min(x, y) for x, y in zip(lo, a)]
        hi = [max(x, y) for x, y in zip(hi, b)]
        box = Box3d(np.array(a) / 1e4, np.array(b) / 1e4)
        if rnd.random() < .5:
            model.add_mesh(box.to_textured_mesh(color=np.array([rint(0, 255) for _ in range(3)], dtype=np.uint8)))
        else:
            model.add_mesh(box.to_mesh())
    return dict(meshes=model), None, lo + hi, mesh_digest(model)


class World:
    def __init__(self, k, base):
        self.scenes, self.objs = [], []
        self.base = os.path.join(base, "w%d" % k)
        os.makedirs(self.base)
        self.turns = {}
        log.ev("start", new=True)

    def ev(self, op, r=None, **kw):
        disk = []
        for n in sorted(os.listdir(self.base)):
            disk.append([n, dir_digest(os.path.join(self.base, n))])
        kw.update(obs=[scene_obs(s) for s in self.scenes], disk=disk, ok=r is None or r.ok,
                  err="" if r is None else r.err, mro=[] if r is None or r.ok else r.mro)
        log.ev(op, **kw)

    # ---- operations
    def new(self, kind=None):
        kind = kind or rnd.choice(TYPES)
        share, own, st = 0, False, None
        if self.scenes and rnd.random() < .2:
            share = rint(1, len(self.scenes))
            st = self.scenes[share - 1].settings
        elif rnd.random() < .4:
            own = True
            st = dict(version="v%d" % rint(1, 99), categories_id="c <%d>" % rint(1, 9), categories_url="https://x/%d?a&b" % rint(1, 9))
        so = settings_obs(st) if own else settings_obs({})
        r = call(ProjectScene, kind, None, st) if rnd.random() < .5 else call(ProjectScene, project_type=kind, settings=st)
        if r.ok:
            self.scenes.append(r.val)
            self.turns[len(self.scenes)] = 0
        self.ev("new", r, type=kind, share=share, own=own, settings=so)

    def add(self, hd=None):
        hd = hd or rint(1, len(self.scenes))
        s = self.scenes[hd - 1]
        if len(s.elements) >= 3:
            return
        kind = s.project_type
        kw, bounds, box, shape = make_shape(kind)
        if kind != "bounding_box":
            bounds = list(box) if rnd.random() < .5 else []
            if bounds and rnd.random() < .5:    # given bounds that are not those of the shape
                bounds = [v - rint(0, 9000) for v in box[:3]] + [v + rint(0, 9000) for v in box[3:]] if rnd.random() < .6 else [0, 0, 0, 10000, 10000, 10000]
            kw["bounds"] = Box3d(np.array(bounds[:3]) / 1e4, np.array(bounds[3:]) / 1e4) if bounds else None
        oid = rnd.choice(IDS)
        q = rnd.choice(CUBE + NINTHS)
        t = [rint(-6000000, 6000000) for _ in range(3)]
        sy, cat, score, evd = rnd.choice(VALID), rnd.choice(CATS), rnd.choice(SCORES), rnd.random() < .5
        args = dict(id=oid, pose=Pose3(Rot3(quat_R(q)), Vector3(*[v / U for v in t])), category=cat,
                    symmetry=sym(sy), score=score, evaluated=evd)
        if rnd.random() < .15:
            q, t, cat, sy, score, evd = [1, 0, 0, 0], [0, 0, 0], "unknown", ["none"] * 3, -1, True
            args = dict(id=oid)
        args.update(kw)
        gen = dict(bounding_box=ProjectObject.gen_bounding_box_object, voxels=ProjectObject.gen_voxels_object,
                   meshes=ProjectObject.gen_meshes_object)[kind]
        r = call(gen, **args) if rnd.random() < .7 else call(ProjectObject, project_type=kind, **args)
        if r.ok:
            s.elements[oid] = r.val
        self.ev("add", r, h=hd, o=dict(id=oid, type=kind, cat=cat, q=q, t=t, sym=sy, score=repr(float(score)), ev=evd,
                                       bounds=bounds, box=box, shape=shape))

    def some(self):
        c = [(i + 1, k) for i, s in enumerate(self.scenes) for k in s.elements]
        return rnd.choice(c) if c else None

    def edit(self):
        kind = rnd.choice(["setting", "setpose", "nudge", "attr", "remove"])
        if kind == "setting":
            hd = rint(1, len(self.scenes))
            s = self.scenes[hd - 1].settings
            key = rnd.choice(["version", "categories_id", "categories_url"])
            s[key] = "edit %d" % rint(1, 999)
            self.ev("setting", h=hd, settings=settings_obs(s))
            return
        c = self.some()
        if not c:
            return
        hd, oid = c
        o = self.scenes[hd - 1].elements[oid]
        if kind == "setpose":
            q, t = rnd.choice(CUBE + NINTHS), [rint(-6000000, 6000000) for _ in range(3)]
            o.pose = Pose3(Rot3(quat_R(q)), Vector3(*[v / U for v in t]))
            self.ev("setpose", h=hd, id=oid, q=q, t=t)
        elif kind == "nudge":
            # the pose object itself, changed in place (default poses share their zero vector)
            if not np.any(o.pose.t):
                return
            t = [rint(-1000, 1000) for _ in range(3)]
            o.pose.t += np.array(t) / U
            self.ev("nudge", h=hd, id=oid, t=t)
        elif kind == "attr":
            o.category, o.score, o.evaluated = rnd.choice(CATS), rnd.choice(SCORES), rnd.random() < .5
            self.ev("attr", h=hd, id=oid, cat=o.category, score=repr(float(o.score)), ev=o.evaluated)
        else:
            del self.scenes[hd - 1].elements[oid]
            self.ev("remove", h=hd, id=oid)

    def transform(self):
        hd = rint(1, len(self.scenes))
        if self.turns[hd] >= 2:
            q = rnd.choice(CUBE)
        else:
            q = rnd.choice(CUBE + NINTHS)
        t = [rint(-3000000, 3000000) for _ in range(3)]
        p = Pose3(Rot3(quat_R(q)), Vector3(*[v / U for v in t]))
        r = call(self.scenes[hd - 1].transform_pose, p)
        if r.ok:
            self.scenes.append(r.val)
            self.turns[len(self.scenes)] = self.turns[hd] + (q not in CUBE)
        self.ev("transform", r, h=hd, q=q, t=t)

    def convert(self):
        hd = rint(1, len(self.scenes))
        target = rnd.choice(TYPES + ["bounding_box", "voxels", "cubes"])
        np.random.seed(rint(1, 10 ** 6))
        r = call(ProjectConverter().run, self.scenes[hd - 1], target)
        if r.ok:
            self.scenes.append(r.val)
            self.turns[len(self.scenes)] = self.turns[hd]
        self.ev("convert", r, h=hd, target=target)
        c = self.some()
        if c and rnd.random() < .3:
            hd, oid = c
            o = self.scenes[hd - 1].elements[oid]
            target = rnd.choice(TYPES)
            r = call(ProjectConverter().convert_element, o, target)
            self.ev("convertobj", r, h=hd, id=oid, target=target)

    def cwd_call(self, fn, name):
        """absolute or relative path"""
        if rnd.random() < .5:
            return call(fn, self.base, name)
        old = os.getcwd()
        os.chdir(os.path.dirname(self.base))
        try:
            r = call(fn, os.path.basename(self.base), name)
            if os.getcwd() != os.path.dirname(self.base):
                log.ev("cwd-changed")
            return r
        finally:
            os.chdir(old)

    def save(self):
        ok = [i + 1 for i, s in enumerate(self.scenes) if all(k for k in settings_obs(s.settings).values())]
        if not ok:
            return
        hd = rnd.choice(ok)
        name = rnd.choice(["proj", "my scene", "ü", "p2", "p3"])
        r = self.cwd_call(self.scenes[hd - 1].save, name)
        d = dir_digest(os.path.join(self.base, name)) if os.path.isdir(os.path.join(self.base, name)) else ""
        self.ev("save", r, h=hd, name=name, digest=d)

        if r.ok and rnd.random() < .5 and len(self.scenes) < 8:
            self.load(name)

    def load(self, name=None):
        have = sorted(os.listdir(self.base))
        name = name or (rnd.choice(have) if have and rnd.random() < .9 else "absent")
        r = self.cwd_call(ProjectScene.load, name)
        if r.ok:
            self.scenes.append(r.val)
            self.turns[len(self.scenes)] = 2
        self.ev("load", r, name=name)

    # ---- saves stopped at every file system step
    def stopped(self, shim, limit):
        hd = rint(1, len(self.scenes))
        s = self.scenes[hd - 1]
        area = os.path.join(WORK, "stop")

        def child(at, mode, name):
            """save in a forked process that is stopped at step <at>; returns (returned normally, steps)"""
            shutil.rmtree(area, True)
            os.makedirs(area)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    shim.stop_arm(area.encode(), at, mode)
                    r = call(s.save, area, name)
                    shim.stop_disarm()
                    os.write(wr, b"%d %d" % (1 if r.ok else 0, shim.stop_count()))
                finally:
                    os._exit(0)
            os.close(wr)
            data = os.read(rd, 100)
            os.close(rd)
            os.waitpid(pid, 0)
            a = data.split()
            return (a[0] == b"1", int(a[1])) if a else (False, -1)
        okf, n = child(0, 0, "p")
        full = files_of(os.path.join(area, "p")) if os.path.isdir(os.path.join(area, "p")) else {}
        points = [(n + 1, "kill", 1)]
        ks = list(range(1, n + 1))
        if len(ks) > limit:
            ks = sorted(rnd.sample(ks, limit))
        for k in ks:
            points += [(k, "kill", 1), (k, "torn", 2), (k, "full", 3)]
        for at, mode, m in points:
            ret, _ = child(at, m, "p")
            proj = os.path.join(area, "p")
            now = files_of(proj) if os.path.isdir(proj) else {}
            r = call(ProjectScene.load, area, "p")
            log.ev("stopped", h=hd, at=at, of=n, mode=mode, returned=ret, loaded=r.ok, err=r.err,
                   xml="p.xml" in now, finished=at > n and okf,
                   othersdone=all(sized(now.get(f)) == sized(b) for f, b in full.items() if f != "p.xml"),
                   scene=scene_obs(r.val) if r.ok else {})
        shutil.rmtree(area, True)


def sized(b):
    return None if b is None else len(b)


MIX = {"S01": dict(new=2, add=5, edit=3, transform=1, convert=0, save=5, load=5),
       "S04": dict(new=2, add=5, edit=4, transform=1, convert=7, save=1, load=1),
       "S05": dict(new=2, add=4, edit=5, transform=6, convert=1, save=2, load=2)}

if __name__ == "__main__":
    what = IN["what"]
    base = os.path.join(WORK, "worlds")
    os.makedirs(base)
    mix = MIX[what]
    names, weights = list(mix), list(mix.values())
    shim = None
    if IN.get("shim"):
        shim = ctypes.CDLL(IN["shim"])
        shim.stop_count.restype = ctypes.c_long
    for k in range(IN["runs"]):
        w = World(k, base)
        w.new()
        if what == "S04" and rnd.random() < .6:
            w.new("meshes"), w.add(len(w.scenes)), w.add(len(w.scenes))
        for _ in range(rint(0, 3) if what == "S01" else 0):
            w.add(1)
        for _ in range(rint(2, IN["len"])):
            op = rnd.choices(names, weights)[0]
            if len(w.scenes) >= 7 and op not in ("edit", "save"):
                continue
            if rnd.random() < .02:
                w.new(rnd.choice(["", "mesh", "cubes", "Voxels"]))
            getattr(w, op)()
        if shim and k % IN["stopevery"] == 0:
            w.stopped(shim, IN["limit"])
        shutil.rmtree(w.base, True)

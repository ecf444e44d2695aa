"""Project objects (construction, read-only parts, almost-equality) and collections of them (every way of adding)."""
import copy
import pickle
from common import *  # noqa
import numpy as np
from eval_toy import quat_R, sym, VALID
from sumo.base.vector import Vector3
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.threedee.box_3d import Box3d
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.voxel_grid import VoxelGrid

TYPES = ["bounding_box", "voxels", "meshes"]
BOX = Box3d(np.array([-1., 0, 2]), np.array([1., 2, 5]))


def voxels():
    v = VoxelGrid(0.5, Vector3(0, 0, 0))
    v.add_points(np.array([[.1, .2, .3], [1.1, .2, 2.3]]))
    return v


VOX = voxels()
IDS = ["1", "2", "01", "1 ", "a", "A", "stühl", "stuhl", "", "10"]
CATS = ["chair", "Chair", "chair ", "bed", "unknown", ""]
SCORES = [-1, 0, 0.5, 0.57, 0.6, 1, 3.25, -0.57]
ROTS = [[1, 0, 0, 0], [1, 1, 0, 0], [1, 0, 1, 0], [0, 0, 0, 1], [1, 2, 2, 0], [9, 0, 0, 1], [9, 0, 1, 0], [9, 1, 0, 0],
        [9, 0, 0, -1], [9, 0, -1, 0], [9, -1, 0, 0], [1, -1, 0, 0], [1, 0, -1, 0], [0, 1, 0, 0], [0, 0, 1, 0], [1, -2, -2, 0]]
TRANS = [[0, 0, 0], [0.05, 0, 0], [0, 0.05, 0], [0, 0, 0.05], [1, -2, 3], [-1, 2, 3], [1, -2, 3.05]]
POSES = [(r, t) for r in ROTS for t in TRANS]
# primitives by (indices, vertices)
MESHES = [[[3, 3]], [[3, 4]], [[6, 4]], [[6, 3]], [[3, 3], [6, 4]], [[6, 4], [3, 3]], [[3, 4], [6, 3]], [[3, 3], [3, 3]],
          [[6, 6]], [[3, 3], [6, 4], [3, 3]], [[3, 3], [3, 3], [6, 4]], [[9, 4]]]
MODELS = {}


def model(sizes, textured):
    key = repr(sizes) + str(textured)
    if key not in MODELS:
        m = GltfModel()
        for ni, nv in sizes:
            ind = np.array([k % nv for k in range(ni)], dtype=np.uint32)
            v = np.array([[k, k * k, 1] for k in range(nv)], dtype=np.float32).T.copy(order="F")
            n = np.array([[0, 0, 1]] * nv, dtype=np.float32).T.copy(order="F")
            if textured:
                m.add_mesh(TexturedMesh(ind, v, n, np.zeros((2, nv), dtype=np.float32, order="F"),
                                        np.full((2, 2, 3), 90, dtype=np.uint8), np.full((2, 2, 3), 90, dtype=np.uint8)))
            else:
                m.add_primitive_mesh(Mesh(ind, v, n))
        MODELS[key] = m
    return MODELS[key]


def build(r, jitter=True):
    """an object of the classes in the record; numbers are moved within their class"""
    eps = (lambda: rnd.choice([0, 1e-9, -1e-9])) if jitter else (lambda: 0)
    q, t = POSES[r["pose"]]
    R = quat_R(q) + np.array([[eps() for _ in range(3)] for _ in range(3)])
    pose = Pose3(R=Rot3(R), t=Vector3(*[v + eps() for v in t]))
    kw = dict(id=r["id"], pose=pose, category=r["cat"], symmetry=sym(r["sym"]), score=SCORES[r["score"]] + eps(),
              evaluated=r["ev"], bounds=BOX)
    if rnd.random() < .5:
        gen = {"bounding_box": ProjectObject.gen_bounding_box_object, "voxels": ProjectObject.gen_voxels_object,
               "meshes": ProjectObject.gen_meshes_object}[r["type"]]
    else:
        gen, kw["project_type"] = ProjectObject, r["type"]
    if r["type"] == "voxels":
        kw["voxels"] = VOX
    if r["type"] == "meshes":
        kw["meshes"] = model(r["mesh"][0], jitter and rnd.random() < .5) if r["mesh"] else None
    return gen(**kw)


def snap(o):
    return [o.id, o.project_type, o.category, o.score, o.evaluated, str(o.symmetry), o.pose.matrix34().tolist(),
            None if o.bounds is None else o.bounds.corners().tolist(),
            None if o.voxels is None else o.voxels.voxel_centers().tolist(), None if o.meshes is None else
            [[m.vertices().tolist(), m.indices().tolist()] for m in o.meshes.primitive_meshes()]]


def rand_rec():
    ty = rnd.choice(TYPES)
    return dict(type=ty, id=rnd.choice(IDS), cat=rnd.choice(CATS), sym=rnd.choice(VALID), ev=rnd.random() < .5,
                pose=rnd.randrange(len(POSES)), score=rnd.randrange(len(SCORES)),
                mesh=[rnd.choice(MESHES)] if ty == "meshes" and rnd.random() < .85 else [])


def variant(r, field):
    b = dict(r)
    if field == "type":
        b["type"] = rnd.choice([t for t in TYPES if t != r["type"]])
        b["mesh"] = [rnd.choice(MESHES)] if b["type"] == "meshes" and rnd.random() < .5 else []
    elif field == "mesh":
        if r["type"] != "meshes":
            return b
        b["mesh"] = rnd.choice([[]] + [[m] for m in MESHES])
    elif field == "ev":
        b["ev"] = not r["ev"]
    elif field == "sym":
        near = [s for s in VALID if sum(x != y for x, y in zip(s, r["sym"])) == 1]
        b["sym"] = rnd.choice(near or VALID)
    elif field == "pose":
        near = [k for k in range(len(POSES)) if (POSES[k][0] == POSES[r["pose"]][0]) != (POSES[k][1] == POSES[r["pose"]][1])]
        b["pose"] = rnd.choice(near)
    elif field != "same":
        b[field] = {"id": lambda: rnd.choice(IDS), "cat": lambda: rnd.choice(CATS),
                    "score": lambda: rnd.randrange(len(SCORES))}[field]()
    return b


def tri(r):
    """1 true, 0 false, 2 raised, 3 no truth value"""
    if not r.ok:
        return 2
    return int(bool(r.val)) if isinstance(r.val, (bool, np.bool_)) else 3


def equality(a, b):
    x, y = build(a), build(b)
    before = snap(x), snap(y)
    log.ev("eq", new=True, a=a, b=b, ab=tri(call(x.almost_equal, y)), ba=tri(call(y.almost_equal, x)),
           aa=tri(call(x.almost_equal, x)), same=(snap(x), snap(y)) == before)


KEYS = ["1", "2", "a", 7, ("t", 1)]


def coll_pair():
    n = rnd.randrange(0, 4)
    keys = rnd.sample(KEYS, n)
    a = [dict(k=repr(k), o=rand_rec()) for k in keys]
    b = [dict(k=e["k"], o=dict(e["o"])) for e in a]
    m = rnd.choice(["same", "order", "drop", "add", "field", "field", "rekey", "swap"])
    if m == "order":
        rnd.shuffle(b)
    if m == "drop" and b:
        b.pop(rnd.randrange(len(b)))
    if m in ("add", "rekey"):
        free = [k for k in KEYS if k not in keys]
        e = dict(k=repr(rnd.choice(free)), o=rand_rec())
        if m == "rekey" and b:
            e["o"] = b.pop(rnd.randrange(len(b)))["o"]
        b.append(e)
    if m == "field" and b:
        e = rnd.choice(b)
        e["o"] = variant(e["o"], rnd.choice(FIELDS))
    if m == "swap" and len(b) > 1:
        b[0]["o"], b[1]["o"] = b[1]["o"], b[0]["o"]
    by = {repr(k): k for k in KEYS}

    def make(c):
        d = ProjectObjectDict()
        for e in c:
            d[by[e["k"]]] = build(e["o"])
        return d
    x, y = make(a), make(b)
    shot = lambda d: [(k, snap(v)) for k, v in d.items()]
    before = shot(x), shot(y)
    log.ev("ceq", new=True, a=a, b=b, ab=tri(call(x.almost_equal, y)), ba=tri(call(y.almost_equal, x)),
           aa=tri(call(x.almost_equal, x)), same=(shot(x), shot(y)) == before)


class Special(ProjectObject):
    pass


class LookAlike(object):
    id, project_type, meshes, voxels, bounds, category = "1", "bounding_box", None, None, None, "x"

    def almost_equal(self, other):
        return True


GOOD = [ProjectObject("1"), ProjectObject("2", "voxels", voxels=VOX), Special("3"),
        ProjectObject("1", "meshes", meshes=model(MESHES[0], False))]
JUNK = [None, "chair", {"id": "1"}, ProjectObject, LookAlike(), 5, [], ProjectObjectDict(), {}, 0, ""]
POOL = {i + 1: v for i, v in enumerate(GOOD)}
POOL.update({i + 5: v for i, v in enumerate(JUNK)})


def label(v):
    return next((k for k, p in POOL.items() if p is v), 99)


def obs(d, keys):
    return [label(dict.__getitem__(d, k)) if k in d else 0 for k in keys]


class Coll:
    def __init__(self, keys, start):
        self.keys = keys
        self.d = ProjectObjectDict()
        for k, v in zip(keys, start):
            if v:
                self.d[k] = POOL[v]
        log.ev("start", new=True, want=start, after=obs(self.d, keys), n=len(self.d))

    def do(self, way, ps):
        d, key = self.d, self.keys
        pv = [(key[k - 1], POOL[v]) for k, v in ps]
        res = lambda r: r
        strs = all(isinstance(k, str) for k, v in pv)
        if way in ("kwargs", "constructkw") and not strs:
            way = {"kwargs": "mapping", "constructkw": "construct"}[way]
        f = {"set": lambda: d.__setitem__(*pv[0]), "setdefault": lambda: d.setdefault(*pv[0]),
             "pairs": lambda: d.update(rnd.choice([list, tuple, iter])(pv)), "mapping": lambda: d.update(dict(pv)),
             "kwargs": lambda: d.update(**dict(pv)),
             "ior": lambda: d.__ior__(dict(pv)) if len(dict(pv)) == len(pv) else d.__ior__(pv),
             "construct": lambda: ProjectObjectDict(rnd.choice([list, dict, iter])(pv)),
             "constructkw": lambda: ProjectObjectDict(**dict(pv)),
             "del": lambda: d.__delitem__(pv[0][0]), "pop": lambda: d.pop(pv[0][0]),
             "clear": lambda: d.clear(), "copy": lambda: copy.copy(d), "deepcopy": lambda: copy.deepcopy(d),
             "again": lambda: ProjectObjectDict(d), "merge": lambda: d.update(ProjectObjectDict(pv)),
             "fromkeys": lambda: ProjectObjectDict.fromkeys([k for k, v in pv], pv[0][1])}[way]
        if way == "deepcopy" and 4 in obs(self.d, self.keys):
            return  # models cannot be copied by deepcopy
        if way == "fromkeys":
            ps = [[k, ps[0][1]] for k, v in ps]
        r = call(f)
        e = dict(way=way, ps=[list(p) for p in ps], ok=r.ok, kind=True, equal=True, ret=0)
        if r.ok and way in ("construct", "constructkw", "copy", "deepcopy", "again", "fromkeys"):
            e["kind"] = isinstance(r.val, ProjectObjectDict)
            if way == "deepcopy":
                e["equal"] = call(lambda: r.val.almost_equal(d) and d.almost_equal(r.val)).val is True
            else:
                self.d = r.val
        if r.ok and way == "ior":
            e["kind"] = r.val is d
        if way in ("setdefault", "pop") and r.ok:
            e["ret"] = label(r.val)
        log.ev("coll", after=obs(self.d, self.keys), n=len(self.d), **e)


FIELDS = ["same", "type", "id", "cat", "sym", "ev", "pose", "score", "mesh", "mesh"]


def construction():
    for ty in TYPES + ["", "mesh", "voxel", "Meshes", "bounding-box", "meshes "]:
        for k in range(16):
            g = [bool(k & 1), bool(k & 2), bool(k & 4)]
            b, v, m = BOX if g[0] else None, VOX if g[1] else None, model(MESHES[4], True) if g[2] else None
            ident = rnd.choice(IDS)
            r = call(ProjectObject, ident.encode("UTF-8") if k & 8 else ident, ty, bounds=b, voxels=v, meshes=m)
            e = dict(type=ty, given=g, ok=r.ok, valueerror=isa(r, "ValueError"), kept=[], id=True, gettype="", default=True)
            if r.ok:
                o = r.val
                e["kept"] = [o.bounds is b and b is not None, o.voxels is v and v is not None, o.meshes is m and m is not None]
                e["none"] = [o.bounds is None, o.voxels is None, o.meshes is None]
                e["id"] = o.id == ident and isinstance(o.id, str)
                e["gettype"] = o.project_type
                s = o.symmetry
                e["default"] = bool(o.category == "unknown" and o.score == -1 and o.evaluated is True
                                    and o.pose.matrix34().tolist() == [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]
                                    and [x.name for x in (s.x_symmetry, s.y_symmetry, s.z_symmetry)] == ["none"] * 3)
                # edits in place stay with this object
                o.pose.translation()[rnd.randrange(3)] += 1
                o.pose.rotation().matrix()[rnd.randrange(3)][rnd.randrange(3)] += 1
            log.ev("make", new=True, **e)
    for _ in range(40):
        r = rand_rec()
        o = build(r)
        before = snap(o)
        t1 = call(setattr, o, "id", "other")
        t2 = call(setattr, o, "project_type", rnd.choice(TYPES))
        t3 = call(delattr, o, rnd.choice(["id", "project_type"]))
        kept = snap(o) == before
        new = rand_rec()
        tmp = build(new)
        o.pose, o.category, o.symmetry, o.score, o.evaluated = tmp.pose, tmp.category, tmp.symmetry, tmp.score, tmp.evaluated
        want = snap(tmp)
        log.ev("readonly", new=True, refused=not (t1.ok or t2.ok or t3.ok), kept=kept, settable=snap(o)[2:7] == want[2:7],
               rest=snap(o)[:2] + snap(o)[7:] == before[:2] + before[7:])


if __name__ == "__main__":
    construction()
    for field in FIELDS:
        for _ in range(IN["pairs"]):
            r = rand_rec()
            equality(r, variant(r, field))
    for _ in range(IN["pairs"]):
        equality(rand_rec(), rand_rec())
        coll_pair(), coll_pair()
    for prog in IN["progs"]:
        c = Coll(["a", "b"], prog[0][1])
        op = prog[1]
        c.do(op[0], op[1] if isinstance(op[1], list) else [[op[1], op[2]]] if op[2] else [[op[1], 1]])
    for _ in range(IN["runs"]):
        keys = rnd.sample(KEYS, 3)
        c = Coll(keys, [rnd.choice([0, 0, 1, 2, 3, 4]) for _ in keys])
        for _ in range(rnd.randint(3, 25)):
            way = rnd.choice(["set", "setdefault", "pairs", "mapping", "kwargs", "ior", "construct", "constructkw", "del", "pop",
                              "clear", "copy", "deepcopy", "again", "merge", "fromkeys", "set", "pairs", "mapping", "ior"])
            val = lambda: rnd.choice([1, 2, 3, 4] * 3 + list(POOL)) if rnd.random() < .7 else rnd.randint(1, 4)
            n = 1 if way in ("set", "setdefault", "del", "pop") else rnd.randint(1, 3)
            c.do(way, [[rnd.randint(1, 3), val()] for _ in range(n)])

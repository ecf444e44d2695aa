"""Samples of random integer meshes, models and objects; spread; voxelised models."""
from math import isqrt
from common import *  # noqa
import numpy as np
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.metrics.mesh_evaluator import sample_mesh, sample_element
from sumo.semantic.project_object import ProjectObject
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.model_sampler import ModelSampler
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.voxelizer import Voxelizer

# (integer matrix, denominator)
def rotmat(q):
    w, x, y, z = q
    return [[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)], [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)],
            [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]]


QUART = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)]
HALF = [(1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, -1), (0, 1, 1, 0)]
FULL = [(1, 1, 1, 1), (1, -1, 1, 1), (1, 1, -1, -1)]
THIRD = [(1, 1, 1, 0), (1, 0, -1, 1), (0, 1, 1, 1), (1, 1, 0, -1)]
ROTS = [([[v for v in r] for r in rotmat(q)], n) for n, qs in ((1, QUART), (2, HALF), (4, FULL), (3, THIRD)) for q in qs]


def cross(a, b):
    return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]


def norm2(A, B, C):
    n = cross([B[i]-A[i] for i in range(3)], [C[i]-A[i] for i in range(3)])
    return sum(x*x for x in n)


def pick_pq(ns, exact, limit=160):
    """density ratio p/q such that the number of samples is small and, if the arithmetic is inexact, no face
    sits on a boundary"""
    for _ in range(60):
        p = rnd.randint(1, 40)
        q = rnd.choice([1, 2, 4, 8, 16, 32, 64, 128]) if exact else rnd.randint(1, 150)
        ok = True
        tot = 0
        for n2 in ns:
            v = p * p * n2
            tot += max(1, isqrt(v) // q)
            if v >= 2**31 - 1:
                ok = False
            if not exact:
                # |p sqrt(n2) / q - nearest integer| must not be tiny
                x = p * n2 ** .5 / q
                if n2 and abs(x - round(x)) < 1e-4:
                    ok = False
        if ok and tot <= limit:
            return p, q
    return None


def rverts(n, step, lim):
    return [[rnd.randint(-lim, lim) * step for _ in range(3)] for _ in range(n)]


def tri(idx, verts):
    return [[verts[i] for i in idx[k:k + 3]] for k in range(0, len(idx), 3)]


def ev_points(r, unit, scale):
    if not r.ok:
        return []
    p = np.asarray(r.val, dtype=float)
    if p.ndim != 2 or p.shape[1] < 3:
        return [[NAN]]
    return [[fx(x * unit, scale) for x in row[:3]] + [fx(a, 100) for a in row[3:]] for row in p]


def do_mesh():
    unit = rnd.choice([1, 2, 4])
    nf = rnd.choice([1, 1, 2, 3, 5])
    D = rnd.choice([0, 1, 3, 4])
    faces = []
    for _ in range(nf):
        v = rverts(3, 1, 4)
        if rnd.random() < .12:
            v[2] = v[rnd.randrange(2)]
        if rnd.random() < .06:
            v = [v[0], v[0], v[0]]
        faces.append(dict(v=v, a=[[rnd.randint(0, 255) for _ in range(D)] for _ in range(3)]))
    pq = pick_pq([norm2(*f["v"]) for f in faces], True)
    if pq is None:
        return
    p, q = pq
    dens = 2.0 * unit * unit * p / q
    arr = np.array([[x / unit for x in f["v"][i]] + f["a"][i] for f in faces for i in range(3)], dtype=float)
    before = arr.copy()
    r = call(sample_mesh, arr, dens) if rnd.random() < .8 or dens != 625 else call(sample_mesh, arr)
    log.ev("mesh", faces=faces, p=p, q=q, scale=10000, ok=r.ok, err=r.err, points=ev_points(r, unit, 10000),
           same=bool(np.array_equal(arr, before)))


def rmesh(step, lim):
    nv = rnd.choice([3, 3, 4, 6])
    verts = rverts(nv, step, lim)
    ni = 3 * rnd.choice([1, 1, 2, 3])
    idx = [rnd.randrange(nv) for _ in range(ni)]
    for k in range(0, ni, 3):
        if rnd.random() < .8:
            idx[k:k + 3] = rnd.sample(range(nv), 3)
    tex, uv = [], []
    if rnd.random() < .7:
        h, w = rnd.choice([(1, 1), (2, 3), (3, 2), (4, 4), (1, 5), (5, 1), (2, 7)])
        tex = [[[rnd.randint(0, 255) for _ in range(3)] for _ in range(w)] for _ in range(h)]
        wrap = rnd.random() < .3
        for _ in range(nv):
            c, r = rnd.randrange(w), rnd.randrange(h)
            if wrap:
                c += w * rnd.choice([-1, 0, 1])
                r += h * rnd.choice([-2, 0, 1])
            uv.append([2 * c + 1, 2 * r + 1])
    return dict(verts=verts, idx=idx, tex=tex, uv=uv)


def build(m, unit):
    idx = np.array(m["idx"], dtype=np.uint32)
    v = (np.array(m["verts"], dtype=float) / unit).astype(np.float32).T.copy()
    n = np.tile(np.array([[0], [0], [1]], dtype=np.float32), (1, v.shape[1]))
    if not m["tex"]:
        return Mesh(idx, v, n)
    h, w = len(m["tex"]), len(m["tex"][0])
    uv = np.array([[a / (2.0 * w), b / (2.0 * h)] for a, b in m["uv"]], dtype=np.float32).T.copy()
    return TexturedMesh(idx, v, n, uv, np.array(m["tex"], dtype=np.uint8))


ID3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def snapshot(model):
    return [(type(x), x.vertices().tobytes(), x.indices().tobytes()) for x in model.primitive_meshes()]


def do_model(kind):
    third = kind == "element" and rnd.random() < .3
    rot, den = (rnd.choice([r for r in ROTS if (r[1] == 3) == third]) if kind == "element" else (ID3, 1))
    unit = rnd.choice([1, 2, 4])
    ms = [rmesh(3 if third else 1, 2 if third else 4) for _ in range(rnd.choice([1, 1, 2, 3]))]
    t = [rnd.randint(-3, 3) for _ in range(3)] if kind == "element" else [0, 0, 0]
    ns = []
    for m in ms:
        for f in tri(m["idx"], m["verts"]):
            ns.append(norm2(*f))
    pq = pick_pq(ns, not third)
    if pq is None:
        return
    p, q = pq
    dens = 2.0 * unit * unit * p / q
    scale = 1000 if third else 10000
    model = GltfModel()
    for m in ms:
        model.add_mesh(build(m, unit))
    pose = Pose3(R=Rot3(np.array(rot, dtype=float) / den), t=np.array(t, dtype=float) / unit)
    before = snapshot(model)
    if kind == "element":
        o = ProjectObject.gen_meshes_object(id="1", meshes=model, pose=pose)
        r = call(sample_element, o, dens)
        same = np.array_equal(o.pose.matrix(), pose.matrix()) and o.meshes is model
    else:
        r = call(ModelSampler(dens).run, model) if rnd.random() < .5 else call(ModelSampler(sampling_density=dens).run, model)
        same = True
    log.ev(kind, meshes=ms, rot=rot, den=den, t=t, p=p, q=q, scale=scale, ok=r.ok, err=r.err,
           points=ev_points(r, unit, scale), same=bool(same and snapshot(model) == before))


def do_spread(kind):
    v = rverts(3, 1, 4)
    while norm2(*v) < 4:
        v = rverts(3, 1, 4)
    n = 4000
    area = norm2(*v) ** .5 / 2
    dens = (n + .5) / area
    A, B, C = [np.array(x, dtype=float) for x in v]
    m = dict(verts=v, idx=[0, 1, 2], tex=[], uv=[])
    if kind == "mesh":
        r = call(sample_mesh, np.hstack([np.array(v, dtype=float), np.zeros((3, 3))]), dens)
    else:
        g = GltfModel()
        g.add_mesh(build(m, 1))
        r = call(ModelSampler(dens).run, g)
    parts = [0, 0, 0, 0]
    if r.ok:
        M = np.column_stack([B - A, C - A])
        w, _, _, _ = np.linalg.lstsq(M, (np.asarray(r.val)[:, :3] - A).T, rcond=None)
        wb, wc = w
        wa = 1 - wb - wc
        cls = np.where(wa > .5, 0, np.where(wb > .5, 1, np.where(wc > .5, 2, 3)))
        parts = [int((cls == i).sum()) for i in range(4)]
    log.ev("spread", ok=r.ok, err=r.err, n=n, parts=parts)


def do_vox():
    unit = rnd.choice([1, 2, 4])
    ms = [rmesh(1, 4) for _ in range(rnd.choice([1, 2, 3]))]
    model = GltfModel()
    for m in ms:
        model.add_mesh(build(m, unit))
    area = sum(norm2(*f) ** .5 / 2 for m in ms for f in tri(m["idx"], m["verts"])) / unit**2
    dens = rnd.choice([20, 60, 120]) / max(area, .01)
    size = rnd.choice([.1, .25, .3, 1, 2.5]) * rnd.choice([1, 1, 2]) / unit
    s = rnd.randrange(2**31)
    np.random.seed(s)
    pts = call(ModelSampler(dens).run, model)
    np.random.seed(s)
    r = call(Voxelizer(dens, size).run, model) if rnd.random() < .5 else call(Voxelizer(voxel_size=size, sampling_density=dens).run, model)
    d = dict(points=[], cells=[], lo=[0] * 3, hi=[0] * 3, size=0)
    if r.ok and pts.ok:
        vg = r.val
        corner = np.asarray(vg.min_corner, dtype=float)
        d["points"] = fxs((pts.val[:, :3] - corner) / size, 1000)
        c = (np.asarray(vg.voxel_centers(), dtype=float) - corner) / size
        d["cells"] = np.floor(c).astype(int).tolist()
        b = vg.bounds()
        d["lo"] = fxs((np.asarray(b.min_corner) - corner) / size, 1000)
        d["hi"] = fxs((np.asarray(b.max_corner) - corner) / size, 1000)
        d["size"] = fx(vg.voxel_size, 10**6)
    log.ev("vox", ok=r.ok and pts.ok, err=r.err, wantsize=fx(size, 10**6), **d)


np.random.seed(SEED)
for _ in range(IN["n"]):
    do_mesh()
    do_model("element")
    do_model("model")
for _ in range(IN["n"] // 10):
    do_spread("mesh")
    do_spread("model")
for _ in range(IN["n"] // 2):
    do_vox()

"""Meshes: programs over registers of plain and textured meshes, normals, documented example meshes."""
import math
import types
import numpy as np
from common import *
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh

S = 1000
CUBE = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, -1), (1, 1, 1, 1), (1, -1, 1, 1), (0, 1, 1, 0)]


def qmat(q):
    w, x, y, z = [float(v) for v in q]
    n = w * w + x * x + y * y + z * z
    return np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]) / n


def snap(m):
    s = [m.indices().copy(), m.vertices().copy(), m.normals().copy()]
    if m.is_textured():
        s += [m.uv_coords().copy(), m.base_color().copy(), m.metallic_roughness().copy()]
    return s


def eq(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x.view(np.uint8), y.view(np.uint8)) for x, y in zip(a, b))


def rows(a, s=S):
    """rows of an array of columns; unused memory in it may be anything"""
    return [[fx(x, s) for x in r] for r in a.T.tolist()]


def full(m):
    t = bool(m.is_textured())
    d = dict(idx=m.indices().astype(int).tolist(), v=rows(m.vertices()), n=rows(m.normals()), uv=[], tex=t, base=[], mr=[], dual=False,
             num=[int(m.num_indices()), int(m.num_vertices())], cls=type(m).__name__,
             dt=[str(m.indices().dtype), str(m.vertices().dtype), str(m.normals().dtype)])
    if t:
        d.update(uv=rows(m.uv_coords()), base=img(m.base_color()), mr=img(m.metallic_roughness()), dual=bool(m.has_dual_texture_material()))
    return d


def img(a):
    return [list(a.shape)] + [a.reshape(-1).astype(int).tolist()]


def coord():
    return rnd.choice([0, 8, -8, rnd.randrange(-64, 65), rnd.randrange(-8, 9) * 8]) / 8


def parts(n, t, textured, uvs=None):
    v = np.array([[coord() for _ in range(n)] for _ in range(3)], dtype=np.float32).reshape(3, n)
    if n > 1 and rnd.random() < 0.4:
        v[:, rnd.randrange(n)] = 0
        if rnd.random() < 0.5:            # as good as at the origin, or just not
            v[:, rnd.randrange(n)] = [rnd.choice([0, 0, 5e-11, -8e-11, 9e-11, 2e-10, -3e-10]) for _ in range(3)]
    if n > 2 and rnd.random() < 0.4:      # a triangle whose longest side has a round length
        a, b, c = rnd.sample(range(n), 3)
        d = [rnd.choice([8, 40, 16, 24, 1, 104, 28]), 0, 0] if rnd.random() < 0.5 else rnd.choice([[3, 4, 0], [24, 32, 0], [8, 16, 16], [5, 12, 0], [2, 3, 6]])
        d = np.array([x * rnd.choice([1, -1]) / 8 for x in rnd.sample(d, 3)], np.float32)
        v[:, a] = [rnd.randrange(-8, 9) / 8 for _ in range(3)]
        v[:, c] = v[:, a] + d
        v[:, b] = v[:, a] + np.trunc(d * 8 * rnd.choice([0, .5, .25])) / 8
    nn = np.array([[coord() for _ in range(n)] for _ in range(3)], dtype=np.float32).reshape(3, n)
    idx = np.array([rnd.randrange(n) for _ in range(3 * t)] if n else [], dtype=np.uint32)
    if n > 2 and t and rnd.random() < 0.6:
        idx[:3] = rnd.sample(range(n), 3)
    a = [idx, v, nn]
    if textured:
        k = n if uvs is None else uvs
        a.append(np.array([[rnd.randrange(0, 33) / 8 for _ in range(k)] for _ in range(2)], dtype=np.float32).reshape(2, k))
        r, c = rnd.choice([(2, 3), (3, 4), (1, 1), (4, 2)])
        a.append(np.array([rnd.randrange(256) for _ in range(3 * r * c)], dtype=np.uint8).reshape(r, c, 3))
        if rnd.random() < 0.8:
            a.append(np.array([rnd.randrange(256) for _ in range(12)], dtype=np.uint8).reshape(2, 2, 3))
        else:
            a.append(np.zeros((0, 0, 3), dtype=np.uint8))
    return a


def desc(a):
    d = dict(idx=a[0].astype(int).tolist(), v=rows(a[1]), n=rows(a[2]), uv=[], tex=len(a) > 3, base=[], mr=[], dual=False)
    if len(a) > 3:
        d.update(uv=rows(a[3]), base=img(a[4]), mr=img(a[5]), dual=a[5].size > 0)
    return d


def pose():
    q = rnd.choice(CUBE) if rnd.random() < 0.5 else [rnd.randrange(-3, 4) for _ in range(4)]
    if not any(q):
        q = (1, 0, 0, 0)
    p = Pose3(Rot3(qmat(q)), np.array([rnd.randrange(-20, 21) / 4 for _ in range(3)]))
    return p, [list(q), fxs(p.t, S)]


class Prog:
    def __init__(self):
        self.regs, self.exact, self.first = [], [], True

    def log(self, op, **d):
        if self.first:
            d["new"], self.first = True, False
        log.ev(op, **d)

    def run(self, op, fn, dst=None, exact=True, **kw):
        before = [snap(m) for m in self.regs]
        r = call(fn)
        d = dict(ok=r.ok, err=r.err, dst=0 if dst is None else dst + 1, **kw)
        d["same"] = all(eq(snap(m), s) for i, (m, s) in enumerate(zip(self.regs, before)) if not (i == dst and r.ok))
        if r.ok:
            m = r.val if dst is None else self.regs[dst]
            d["res"] = full(m)
            if dst is None:
                self.regs.append(m)
                self.exact.append(exact)
        self.log(op, **d)
        return r

    def new(self, n=None, textured=None, uvs="full", t=None):
        textured = rnd.random() < 0.6 if textured is None else textured
        n = rnd.choice([0, 1, 2, 3, 4, 5, 6]) if n is None else n
        t = rnd.choice([0, 1, 2, 4]) if t is None else t
        a = parts(n, t, textured, None if uvs == "full" else rnd.randrange(n + 1))
        want = desc(a)
        if rnd.random() < 0.3:
            for k in (1, 2) + ((3,) if textured else ()):
                a[k] = np.asfortranarray(a[k])
        r = self.run("mesh", lambda: (TexturedMesh if textured else Mesh)(*a), want=want)
        if r.ok:
            keep = snap(r.val)
            for x in a:
                x += 1
            for x in snap(r.val):
                x += 1
            for g in (r.val.indices(), r.val.vertices(), r.val.normals()) + ((r.val.base_color(), r.val.uv_coords()) if textured else ()):
                g += 3
            self.log("alias", same=eq(keep, snap(r.val)))
        return r

    def merge(self, i, j, k=0):
        a, b = self.regs[i], self.regs[j]
        if not isinstance(b, TexturedMesh) and isinstance(a, TexturedMesh):
            return
        f = rnd.choice([lambda: a.merge(b, k), lambda: a.merge(b, num_common_vertices=k)] + ([lambda: a.merge(b)] if k == 0 else []))
        self.run("merge", f, dst=i, a=i + 1, b=j + 1, k=k)
        self.exact[i] = self.exact[i] and self.exact[j]

    def replace(self, i, j):
        a, b = self.regs[i], self.regs[j]
        if not isinstance(b, TexturedMesh) and isinstance(a, TexturedMesh):
            return
        self.run("replace", lambda: a.replace_geometry(b), dst=i, a=i + 1, b=j + 1)
        self.exact[i] = self.exact[j]

    def clean(self, i):
        a = self.regs[i]
        if rnd.random() < 0.35 and self.exact[i]:
            self.run("cleanorigin", lambda: a.cleanup_edges_to_origin(), dst=i, a=i + 1,
                     far=[min(1000, fx(x, 10**11)) for x in np.abs(a.vertices()).max(axis=0).tolist()] if a.num_vertices() else [])
        else:
            t = rnd.choice([5, 1, 10, 2, 3.5, 13, 8, 0.125, 40] + self.sides(a) * 5)
            self.run("cleanlong", [lambda: a.cleanup_long_edges(t), lambda: a.cleanup_long_edges(threshold=t)][rnd.randrange(2)] if t != 5 or rnd.random() < 0.5
                     else lambda: a.cleanup_long_edges(), dst=i, a=i + 1, thr=int(t * S), exact=True, ex=self.exact[i])

    @staticmethod
    def sides(m):
        """the lengths of sides of triangles that are whole multiples of 1/8"""
        v, out = np.round(m.vertices().astype(float) * 8).astype(int), set()
        for t in m.indices().reshape(-1, 3).astype(int):
            for x, y in ((0, 1), (1, 2), (2, 0)):
                d = int(((v[:, t[x]] - v[:, t[y]]) ** 2).sum())
                if d and math.isqrt(d) ** 2 == d:
                    out.add(math.isqrt(d) / 8)
        return sorted(out)

    def move(self, i):
        a = self.regs[i]
        p, sp = pose()
        if rnd.random() < 0.5:
            self.run("transform", lambda: a.transform(p), exact=False, a=i + 1, pose=sp)
        else:
            self.run("rotate", lambda: a.rotate(p.R), exact=False, a=i + 1, pose=[sp[0], [0, 0, 0]])

    def renumber(self, i, num, lst):
        """renumbering fewer vertices than the mesh has is told apart: it leaves indices that later operations stumble over"""
        a = self.regs[i]
        part = len(lst) < a.num_vertices()
        r = self.run("renumber", lambda: a.renumber(num, list(lst)), dst=i, a=i + 1, num=num, list=list(lst),
                     key="renumber-partial" if part else "renumber-full")
        return r.ok and not part and num == len(lst)

    def compare(self):
        i, j = rnd.randrange(len(self.regs)), rnd.randrange(len(self.regs))
        a, b = self.regs[i], self.regs[j]
        self.log("compare", a=i + 1, b=j + 1, size=bool(a.same_size(b)), material=bool(a.has_same_material(b)))

    def from_mesh(self, i):
        a = self.regs[i]
        col = [rnd.randrange(256) for _ in range(3)]
        dflt = rnd.random() < 0.4
        arr = np.array(col, dtype=np.uint8).reshape(rnd.choice([(3, 1), (3,)]))
        self.run("frommesh", lambda: TexturedMesh.from_mesh(a) if dflt else TexturedMesh.from_mesh(a, arr), a=i + 1, color=[255] * 3 if dflt else col)
        self.exact[-1] = self.exact[i]

    def open3d(self):
        n, t = rnd.choice([1, 3, 4]), rnd.choice([1, 2])
        a = parts(n, t, False)
        m = types.SimpleNamespace(triangles=a[0].reshape(-1, 3).tolist(), vertices=a[1].T.astype(float).tolist(), vertex_normals=a[2].T.astype(float).tolist())
        lazy = rnd.random() < 0.4
        if lazy:
            full_n, m.vertex_normals = m.vertex_normals, []

            def compute():
                m.vertex_normals = full_n
            m.compute_vertex_normals = compute
        self.run("mesh", lambda: Mesh.from_open3d_mesh(m), want=desc(a))


def quads():
    P = Prog()
    ids = np.array([[coord() for _ in range(9)] for _ in range(3)], dtype=np.float32)
    ns = np.array([[coord() for _ in range(9)] for _ in range(3)], dtype=np.float32)
    uv = np.array([[rnd.randrange(33) / 8 for _ in range(9)] for _ in range(2)], dtype=np.float32)
    verts = [[0, 5, 4, 6], [5, 1, 6, 8], [4, 6, 2, 7], [6, 8, 7, 3]]
    for q in range(4):
        tri = [rnd.randrange(4) for _ in range(6)] if rnd.random() < 0.5 else [0, 1, 2, 1, 3, 2]
        a = [np.array(tri, dtype=np.uint32), ids[:, verts[q]].copy(), ns[:, verts[q]].copy(), uv[:, verts[q]].copy()] + parts(1, 0, True)[4:]
        P.run("mesh", lambda: TexturedMesh(*a), want=desc(a))
    out = [None]

    def f():
        out[0] = TexturedMesh.merge_quadrant_meshes(*P.regs)
    before = [full(m) for m in P.regs]
    r = call(f)
    P.log("quads", ok=r.ok, verts=rows(ids), norms=rows(ns), uvs=rows(uv), res=full(out[0]) if r.ok else {}, parts=before)


def normals(n):
    for _ in range(n):
        k = rnd.choice([3, 4, 5, 6])
        v = np.array([[rnd.randrange(5) for _ in range(k)] for _ in range(3)], dtype=np.float32)
        idx = np.array([rnd.randrange(k) for _ in range(3 * rnd.choice([0, 1, 2, 3, 5]))], dtype=np.uint32)
        ints = fxs(v.T, 1)
        v = v * np.float32(2.0 ** rnd.choice([0, 0, -1, -3, -7, -12, 3, 9]))       # normals do not depend on the scale
        a, b = v.copy(), idx.copy()
        f, e = call(Mesh.calculate_face_normals, idx, v), call(Mesh.estimate_normals, idx, v)
        log.ev("normals", new=True, ok=f.ok and e.ok, v=ints, idx=idx.astype(int).tolist(), face=rows(f.val) if f.ok else [],
               vert=rows(e.val) if e.ok else [], same=bool(np.array_equal(a, v) and np.array_equal(b, idx)))


def cubes():
    for length in (2, 1, 3.5, 8):
        for inward in (False, True):
            r = call(Mesh.example, length, inward)
            log.ev("cube", new=True, kind="example", ok=r.ok, half=int(length * S / 2), inward=inward, res=full(r.val) if r.ok else {}, base=[], mr=[])
    r = call(Mesh.example)
    log.ev("cube", new=True, kind="example", ok=r.ok, half=S, inward=False, res=full(r.val) if r.ok else {}, base=[], mr=[])
    for _ in range(4):      # fresh memory must not matter
        junk = np.full(36, 77, dtype=np.uint32)
        del junk
        r = call(Mesh.cube)
        log.ev("cube", new=True, kind="cube", ok=r.ok, half=S, inward=True, res=full(r.val) if r.ok else {}, base=[], mr=[])
    for size in (1, 2, 4):
        base = np.array([rnd.randrange(256) for _ in range(18 * size * size)], dtype=np.uint8).reshape(size, 6 * size, 3)
        mr = np.array([rnd.randrange(256) for _ in range(18)], dtype=np.uint8).reshape(1, 6, 3)
        r = call(TexturedMesh.cube, base, mr)
        log.ev("cube", new=True, kind="textured", ok=r.ok, half=S, inward=True, res=full(r.val) if r.ok else {}, base=img(base), mr=img(mr))


for d in {js for js in map(lambda d: (d["n"], d["num"], tuple(d["list"])), IN["renum"])}:
    n, num, lst = d
    P = Prog()
    P.new(n, True, t=2)
    P.new(n, True, uvs="some", t=2)
    if P.renumber(0, num, lst):
        P.merge(0, 1, 0)
    P.renumber(1, num, lst)
for k in range(IN["runs"] + IN["big"]):
    P = Prog()
    big = k >= IN["runs"]
    for _ in range(3):
        P.new(uvs="some" if rnd.random() < 0.25 else "full", **(dict(n=rnd.randint(60, 300), t=rnd.choice([70, 150, 300])) if big else {}))
    for _ in range(8 if big else 14):
        i, j = rnd.randrange(len(P.regs)), rnd.randrange(len(P.regs))
        if max(m.num_vertices() for m in P.regs) > (500 if big else 40) or max([0] + [float(np.abs(m.vertices()).max()) for m in P.regs if m.num_vertices()]) > 60:
            break
        k = rnd.randrange(12)
        if k < 3:
            P.merge(i, j, 0)
        elif k == 3:
            c = min(P.regs[i].num_vertices(), P.regs[j].num_vertices())
            P.merge(i, j, rnd.randrange(c + 1))
        elif k == 4:
            P.replace(i, j)
        elif k in (5, 6):
            P.clean(i)
        elif k in (7, 8):
            P.move(i)
        elif k == 9:
            P.compare()
        elif k == 10:
            rnd.choice([lambda: P.from_mesh(i), P.open3d, P.new])()
        elif P.regs[i].is_textured() and P.regs[i].num_vertices() > 0:
            n = P.regs[i].num_vertices()
            lst = list(range(n))
            rnd.shuffle(lst)
            P.renumber(i, n, lst)
for _ in range(IN["quads"]):
    quads()
normals(IN["normals"])
cubes()

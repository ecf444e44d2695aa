"""Boxes from corners in every order, merged, compared, serialised; bounding boxes of points and meshes."""
import itertools
import os
import xml.etree.ElementTree as ET
import numpy as np
from common import *
from sumo.threedee.box_3d import Box3d
from sumo.threedee.compute_bbox import ComputeBbox
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.gltf_model import GltfModel


def vec(p, how=None):
    a = [x / 8 for x in p]
    how = how or rnd.choice(["f8", "f4", "list", "tuple"])
    return {"f8": lambda: np.array(a, dtype=np.float64), "f4": lambda: np.array(a, dtype=np.float32),
            "list": lambda: a, "tuple": lambda: tuple(a)}[how]()


def corner(v):
    return fxs(np.asarray(v).reshape(-1), 800)


def mesh_ev(r, out, color=None):
    if not r.ok:
        return dict(ok=False, out=out)
    m = r.val
    d = dict(ok=True, out=out, v=fxs(m.vertices().T, 800), n=fxs(m.normals().T, 100), i=m.indices().astype(int).tolist(),
             textured=color is not None)
    if color is not None:
        d.update(uv=fxs(m.uv_coords().T, 1000), tex=m.base_color().astype(int).tolist(), color=color)
    return d


def new(c1, c2, with_mesh=True):
    a, b = vec(c1), vec(c2)
    ka, kb = np.array(a), np.array(b)
    r = call(Box3d, a, b)
    if not r.ok:
        log.ev("new", ok=False, c1=c1, c2=c2)
        return
    x = r.val
    probes = [c1, c2, [(p + q) // 2 for p, q in zip(c1, c2)]] + \
        [[rnd.choice([p, q, p + 1, q - 1, (p + q) // 2, p - 1, q + 1]) for p, q in zip(c1, c2)] for _ in range(6)]
    ms = []
    if with_mesh:
        for out in (True, False):
            ms.append(mesh_ev(call(x.to_mesh, out), out))
            col = [rnd.randrange(256) for _ in range(3)]
            ms.append(mesh_ev(call(x.to_textured_mesh, out, np.array(col, dtype=np.uint8).reshape(3, 1)), out, col))
        ms.append(mesh_ev(call(x.to_mesh), True))
        ms.append(mesh_ev(call(x.to_textured_mesh), True, [255, 255, 255]))
    lo, hi = corner(x.min_corner), corner(x.max_corner)
    inside = [bool(x.point_in_box(vec(p, "f8"))) for p in probes]
    cs, vol, cen = fxs(x.corners().T, 800), fx(x.volume(), 512), fxs(x.center(), 1600)
    same = bool(np.array_equal(ka, a) and np.array_equal(kb, b)) and lo == corner(x.min_corner) and hi == corner(x.max_corner)
    log.ev("new", ok=True, c1=c1, c2=c2, lo=lo, hi=hi, corners=cs, vol=vol, center=cen, meshes=ms, probes=probes,
           inside=inside, same=same)


def pt(m):
    return [rnd.randrange(-m, m + 1) for _ in range(3)]


def merge(pairs):
    bs = [Box3d(vec(a), vec(b)) for a, b in pairs]
    keep = [(corner(b.min_corner), corner(b.max_corner)) for b in bs]
    r = call(Box3d.merge, bs)
    same = keep == [(corner(b.min_corner), corner(b.max_corner)) for b in bs]
    log.ev("merge", ok=r.ok, boxes=pairs, same=same, lo=corner(r.val.min_corner) if r.ok else [], hi=corner(r.val.max_corner) if r.ok else [])


def eq(a, b):
    x, y = Box3d(vec(a[0]), vec(a[1])), Box3d(vec(b[0]), vec(b[1]))
    log.ev("eq", a=a, b=b, eq=bool(x == y), ne=bool(x != y), almost=bool(x.almost_equal(y)))


def xml(lo, hi):
    x = Box3d(lo, hi)
    keep = np.concatenate([x.min_corner, x.max_corner]).copy()
    r = call(lambda: ET.tostring(x.to_xml()))
    form = r.ok and [c.tag for c in ET.fromstring(r.val)] == ["corner1", "corner2"] and ET.fromstring(r.val).tag == "box3d"
    r = call(lambda: Box3d.from_xml(ET.fromstring(r.val)))
    diff = []
    if r.ok:
        got = np.concatenate([r.val.min_corner, r.val.max_corner])
        diff = fxs((got - keep) / np.maximum(1, np.abs(keep)), 1e9)
    log.ev("xml", ok=r.ok, form=form, diff=diff, same=bool(np.array_equal(keep, np.concatenate([x.min_corner, x.max_corner]))),
           corners=[repr(list(map(float, lo))), repr(list(map(float, hi)))])


def g01(n):
    R = (-3, 0, 5)
    for c1 in itertools.product((-3, 0), (0, 5), (-3, 5)):
        for c2 in itertools.product(R, repeat=3):
            new(list(c1), list(c2), with_mesh=rnd.random() < 0.25)
    for _ in range(n):
        m = rnd.choice([4, 50, 200])
        new(pt(m), pt(m), with_mesh=rnd.random() < 0.5)
        off = rnd.choice([0, 100000])
        merge([[[x + off for x in pt(m)], [x + off for x in pt(m)]] for _ in range(rnd.choice([1, 1, 2, 2, 3, 5]))])
        a = [pt(1), pt(1)]
        eq(a, rnd.choice([[a[1], a[0]], [pt(1), pt(1)], [[a[0][0], a[1][1], a[0][2]], [a[1][0], a[0][1], a[1][2]]],
                          [a[0], [a[1][0], a[1][1], a[1][2] + 1]]]))
        s = 10.0 ** rnd.randrange(-4, 6)
        dt = rnd.choice([np.float64, np.float32])
        lo = np.array([rnd.uniform(-s, s) * 10 ** rnd.choice([0, 0, -3, 3]) for _ in range(3)], dtype=dt)
        hi = np.array([rnd.uniform(-s, s) * 10 ** rnd.choice([0, 0, -3, 3]) for _ in range(3)], dtype=dt)
        if dt is np.float64:
            xml(lo, hi)
        xml(vec(pt(m), "f8"), vec(pt(m), "f4"))
    c = {"a": "<corner1>1, 2, 3</corner1>", "b": "<corner2>4, 5, 6</corner2>"}
    bad = ["<box>%(a)s%(b)s</box>", "<box3d>%(a)s</box3d>", "<box3d>%(b)s</box3d>", "<box3d></box3d>",
           "<box3d>%(a)s%(b)s<corner3>1,2,3</corner3></box3d>", "<box3d><other/>%(a)s%(b)s</box3d>",
           "<bounds>%(a)s%(b)s</bounds>"]
    for k in ("corner1", "corner2"):
        other = c["b"] if k == "corner1" else c["a"]
        for t in ("1, 2", "1, 2, 3, 4", "1", "", "x", "1 2 3", "1, x, 3"):
            bad.append("<box3d><%s>%s</%s>%s</box3d>" % (k, t, k, other))
    for t in bad:
        r = call(Box3d.from_xml, ET.fromstring(t % c if "%(" in t else t))
        log.ev("badxml", ok=r.ok, text=t)


# ------------------------------------------------------------------ bounding boxes
def mk(points, textured):
    v = np.array(points, dtype=np.float32).reshape(-1, 3).T / 8
    v = np.ascontiguousarray(v, dtype=np.float32)
    n = len(points)
    idx = np.array([rnd.randrange(n) for _ in range(3 * max(1, n // 3))] if n else [], dtype=np.uint32)
    nor = np.zeros((3, n), dtype=np.float32)
    if n:
        nor[2, :] = 1
    if textured:
        return TexturedMesh(idx, v, nor, np.zeros((2, n), dtype=np.float32), np.full((2, 2, 3), 9, dtype=np.uint8))
    return Mesh(idx, v, nor)


def cloud(m, n):
    off = rnd.choice([0, 0, 300, -300, 100000, -100000])
    return [[x + off for x in pt(m)] for _ in range(n)]


def report(kind, groups, r, same=True):
    log.ev("points", kind=kind, ok=r.ok, groups=groups, same=same,
           lo=corner(r.val.min_corner) if r.ok else [], hi=corner(r.val.max_corner) if r.ok else [])


def verts(m):
    return corner(m.vertices().T.reshape(-1))


def g02(n):
    cb = ComputeBbox()
    for k in range(n):
        m = rnd.choice([1, 8, 100])
        pts = cloud(m, rnd.choice([1, 2, 3, 5, 40]))
        a = np.array(pts, dtype=rnd.choice([np.float64, np.float32])).T / 8
        if rnd.random() < 0.3:
            a = np.asfortranarray(a)
        keep = a.copy()
        report("cloud", [pts], call(cb.from_point_cloud, a), bool(np.array_equal(a, keep)))
        me = mk(pts, k % 2 == 0)
        kv = verts(me)
        report("mesh", [pts], call(cb.from_mesh, me), kv == verts(me))
        groups = [cloud(rnd.choice([1, 8, 100]), rnd.choice([0, 1, 2, 4])) for _ in range(rnd.choice([1, 2, 3, 4]))]
        if any(groups):
            ms = [mk(g, rnd.random() < 0.5) for g in groups]
            kv = [verts(x) for x in ms]
            report("meshes", groups, call(cb.from_meshes, ms), kv == [verts(x) for x in ms])
            again = list(zip(groups, ms)) + [rnd.choice(list(zip(groups, ms)))]
            rnd.shuffle(again)
            report("meshes", [g for g, _ in again], call(cb.from_meshes, [x for _, x in again]))
        groups = [g for g in groups if g]
        if groups:
            model = GltfModel()
            for g in groups:
                model.add_mesh(mk(g, rnd.random() < 0.5))
            report("model", groups, call(cb.from_gltf_object, model))
            if k % 4 == 0:
                p = os.path.join(WORK, "m%d.glb" % k)
                model.save_as_glb(p)
                report("loaded", groups, call(lambda: cb.from_gltf_object(GltfModel.load_from_glb(p))))
                os.unlink(p)


{"G01": g01, "G02": g02}[IN["what"]](IN["n"])

"""Arrays of the same value laid out in memory in every way (X01): what calls of the bindings make of them."""
import gc
import json
import os

import numpy as np

from common import IN, THOROUGH, WORK, call, fx, log, rnd

from sumo.geometry import inverse_depth
from sumo.geometry.pose3 import Pose3
from sumo.geometry.quaternion import Quaternion
from sumo.geometry.rot3 import Rot3
from sumo.images.multi_image_tiff import MultiImagePageType, MultiImageTiff
from sumo.images.rgbd_360 import Rgbd360
from sumo.images.rgbdci_360 import Rgbdci360
from sumo.metrics import utils
from sumo.threedee import point_cloud_ply
from sumo.threedee.box_3d import Box3d
from sumo.threedee.compute_bbox import ComputeBbox
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.point_cloud import PointCloud
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.voxel_grid import VoxelGrid

PLANS = {r: [p for p in IN["plans"] if len(p["perm"]) == r] for r in (1, 2, 3)}
turn = {r: 0 for r in PLANS}
for r in PLANS:
    rnd.shuffle(PLANS[r])


def plan(r):
    turn[r] += 1
    return PLANS[r][turn[r] % len(PLANS[r])]


def plain(r):
    return {"perm": list(range(1, r + 1)), "step": [1] * r, "pad": [0] * r}


# values: numbers with exact binary (or short decimal) fractions, the same range in the gaps of the memory
def reals(dt, lo=-16, hi=16):
    def make(shape):
        return (np.array([rnd.randint(lo, hi) for _ in range(int(np.prod(shape)))], dtype=np.float64) / 4).astype(dt).reshape(shape)
    return make


def ints(dt, hi):
    def make(shape):
        return np.array([rnd.randint(0, hi) for _ in range(int(np.prod(shape)))], dtype=dt).reshape(shape)
    return make


def rotation(shape):
    m = np.eye(3)[rnd.sample(range(3), 3)]
    b = np.array([[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1]])
    m = m.dot(b)
    if np.linalg.det(m) < 0:
        m[0] = -m[0]
    return m


def unit(shape):
    v = np.zeros(3)
    v[rnd.randrange(3)] = 1.0
    return v


f4, f8, u1, u2 = reals(np.float32), reals(np.float64), ints(np.uint8, 255), ints(np.uint16, 60000)
depth4 = reals(np.float32, 1, 40)


def layout(value, p, form, junk):
    """value laid out by the plan: (array, memory in elements)"""
    s, r = value.shape, value.ndim
    ext = [s[a] * abs(p["step"][a]) + p["pad"][a] for a in range(r)]
    stride, acc = [0] * r, 1
    for a in reversed([x - 1 for x in p["perm"]]):
        stride[a] = acc * p["step"][a]
        acc *= ext[a]
    off = sum((s[a] - 1) * -stride[a] for a in range(r) if stride[a] < 0 and s[a] > 0)
    dt = value.dtype.newbyteorder("S") if form == "swapped" else value.dtype
    raw = np.zeros(acc * dt.itemsize + 64, dtype=np.uint8)
    base = (-raw.ctypes.data) % 32 + (1 if form == "unaligned" else 0)
    mem = np.ndarray((acc,), dtype=dt, buffer=raw.data, offset=base)
    mem[...] = junk((acc,)).reshape(-1)[:acc]
    if acc == 0:
        view = np.ndarray(s, dtype=dt)
    else:
        view = np.ndarray(s, dtype=dt, buffer=raw.data, offset=base + off * dt.itemsize, strides=[x * dt.itemsize for x in stride])
    view[...] = value
    if form == "readonly":
        view.flags.writeable = False
    return view, mem, off, stride


def flat(x, sig, nums):
    if isinstance(x, np.ndarray) and x.dtype == object:
        x = x.tolist()
    if isinstance(x, np.ndarray):
        sig.append("%s%s" % (x.dtype.newbyteorder("=").name, list(x.shape)))
        nums += [fx(v, 1000) for v in x.ravel().tolist()]
    elif isinstance(x, (list, tuple)):
        sig.append("(")
        for v in x:
            flat(v, sig, nums)
        sig.append(")")
    elif isinstance(x, (bool, int, float, np.number)):
        sig.append("n")
        nums.append(fx(x, 1000))
    else:
        sig.append(repr(x))


def norm(x):
    sig, nums = [], []
    flat(x, sig, nums)
    return {"sig": " ".join(sig), "nums": nums}


def arrays(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v)


def spoil(a):
    a = a if a.flags.writeable else None
    if a is not None and a.size:
        a[...] = (a + 1 if a.dtype.kind == "f" else a ^ 1) if a.dtype != object else None


def mesh_state(m):
    r = [m.indices(), m.vertices(), m.normals()]
    return r + [m.uv_coords(), m.base_color(), m.metallic_roughness()] if isinstance(m, TexturedMesh) else r


def cloud_state(c):
    return [c.points(), c.colors(), [c.point(i) for i in range(c.num_points())]]


def image_state(i):
    c = i.create_point_cloud()
    return [i.rgb, i.range, i.category, i.instance, c.points(), c.colors()]


def through_file(*a):
    p = os.path.join(WORK, "layout.tif")
    Rgbdci360(*a).save(p)
    return Rgbdci360.load(p)


def ply(*a):
    p = os.path.join(WORK, "layout.ply")
    (point_cloud_ply.write_points if len(a) == 1 else point_cloud_ply.write_points_and_colors)(*a, p)
    return [np.frombuffer(open(p, "rb").read(), dtype=np.uint8).copy(), point_cloud_ply.read_points(p)[0]]


def pages(*a):
    p = os.path.join(WORK, "layout-pages.tif")
    MultiImageTiff(dict(zip([MultiImagePageType.RGB, MultiImagePageType.Depth, MultiImagePageType.Category, MultiImagePageType.Instance], a))).save(p)
    q = MultiImageTiff.load(p)
    return [q.rgb, q.range, q.category, q.instance]


def rgbd(*a):
    p = os.path.join(WORK, "layout-rgbd.tif")
    Rgbd360(*a).save(p)
    q = Rgbd360.load(p)
    return [q.rgb, q.range]


def box(b):
    return [np.array(b.min_corner), np.array(b.max_corner), np.array(b.corners())]


def grid(g):
    return [np.array(sorted(map(tuple, np.asarray(g.voxel_centers()).tolist()))), box(g.bounds())]


def added(p):
    g = VoxelGrid(0.5, np.array([-4.5, -4.5, -4.5]))
    g.add_points(p)
    return g


def moved(f):
    k = TexturedMesh.example()
    k = Mesh(k.indices(), k.vertices(), k.normals())
    return f(k)


def gltf_of(k):
    g = GltfModel()
    g.add_primitive_mesh(k)
    return g


def coloured(c):
    g = GltfModel()
    g.add_colored_material("paint", c, 0.5, 0.5)
    p = os.path.join(WORK, "layout-colour")
    os.makedirs(p, exist_ok=True)
    g.save_as_gltf(p, "it")
    return json.loads(open(os.path.join(p, "it.gltf")).read())["materials"]


def ident(x):
    return x


n, m = "n", "m"
TRI = ints(np.uint32, 2)  # three vertices at least
# name: (native, exact, [(values, shape)], make, take)
API = {
    "Mesh": (True, True, [(TRI, (6,)), (f4, (3, n)), (f4, (3, n))], Mesh, mesh_state),
    "TexturedMesh": (True, True, [(TRI, (6,)), (f4, (3, n)), (f4, (3, n)), (f4, (2, n)), (u1, (2, 3, 3)), (u1, (2, 3, 3))],
                     TexturedMesh, mesh_state),
    "TexturedMesh.cube": (True, True, [(u1, (2, 12, 3)), (u1, (2, 12, 3))], TexturedMesh.cube, mesh_state),
    "TexturedMesh.from_mesh": (True, True, [(u1, (3, 1))], lambda c: TexturedMesh.from_mesh(Mesh.example(), c), mesh_state),
    "estimate_normals": (True, True, [(TRI, (6,)), (f4, (3, n))], Mesh.estimate_normals, ident),
    "calculate_face_normals": (True, True, [(TRI, (6,)), (f4, (3, n))], Mesh.calculate_face_normals, ident),
    "Mesh.rotate": (False, True, [(rotation, (3, 3))], lambda R: moved(lambda k: k.rotate(Rot3(R))), mesh_state),
    "Mesh.transform": (False, True, [(rotation, (3, 3)), (f8, (3,))], lambda R, t: moved(lambda k: k.transform(Pose3(Rot3(R), t))), mesh_state),
    "PointCloud": (True, True, [(f8, (3, m)), (u1, (3, m))], PointCloud, cloud_state),
    "PointCloud.uncolored": (True, True, [(f8, (3, m))], PointCloud, lambda c: [c.points(), c.num_points()]),
    "PointCloud.transform_from": (True, True, [(f8, (3, m)), (rotation, (3, 3)), (f8, (3,))],
                                  lambda p, R, t: PointCloud(p).transform_from(Pose3(Rot3(R), t)), lambda c: [c.points()]),
    "PointCloud.register": (True, True, [(f8, (3, m)), (rotation, (3, 3)), (f8, (3,))],
                            lambda p, R, t: PointCloud.register([(Pose3(Rot3(R), t), PointCloud(p)), (Pose3(), PointCloud(p))]),
                            lambda c: [c.points()]),
    "PointCloud.merge": (True, True, [(f8, (3, m)), (u1, (3, m)), (f8, (3, n)), (u1, (3, n))],
                         lambda p, c, q, d: PointCloud.merge(PointCloud(p, c), PointCloud(q, d)), cloud_state),
    "GltfModel": (True, True, [(TRI, (6,)), (f4, (3, n)), (f4, (3, n)), (f4, (2, n)), (u1, (2, 3, 3)), (u1, (2, 3, 3))],
                  lambda *a: GltfModel.from_textured_mesh(TexturedMesh(*a)), lambda g: [mesh_state(k) for k in g.primitive_meshes()]),
    "GltfModel.plain": (True, True, [(TRI, (6,)), (f4, (3, n)), (f4, (3, n))],
                        lambda *a: gltf_of(Mesh(*a)), lambda g: [mesh_state(k) for k in g.primitive_meshes()]),
    "create_point_cloud": (True, True, [(u1, (2, 12, 3)), (depth4, (2, 12)), (u2, (2, 12)), (u2, (2, 12))],
                           lambda *a: Rgbdci360(*a).create_point_cloud(), cloud_state),
    "Rot3.FromColumns": (False, True, [(unit, (3,)), (unit, (3,)), (unit, (3,))], lambda *a: Rot3.FromColumns(*a).matrix(), ident),
    "Box3d.merge": (False, True, [(f8, (3,)), (f8, (3,)), (f8, (3,))], lambda a, b, c: Box3d.merge([Box3d(a, b), Box3d(b, c)]), box),
    "Rgbdci360": (False, True, [(u1, (2, 12, 3)), (depth4, (2, 12)), (u2, (2, 12)), (u2, (2, 12))], Rgbdci360, image_state),
    "Rgbdci360.save": (False, True, [(u1, (2, 12, 3)), (depth4, (2, 12)), (u2, (2, 12)), (u2, (2, 12))], through_file, image_state),
    "MultiImageTiff": (True, True, [(u1, (2, 12, 3)), (depth4, (2, 12)), (u2, (2, 12)), (u2, (2, 12))], pages, ident),
    "Rgbd360": (True, True, [(u1, (2, 12, 3)), (depth4, (2, 12))], rgbd, ident),
    "add_colored_material": (True, True, [(u1, (3,))], coloured, lambda t: json.dumps(t, sort_keys=True)),
    "VoxelGrid": (False, True, [(f8, (3,)), (f8, (m, 3))], lambda lo, p: VoxelGrid(0.5, lo - 9, p), grid),
    "VoxelGrid.add_points": (False, True, [(f8, (m, 3))], lambda p: added(p), grid),
    "ComputeBbox": (True, True, [(f8, (3, m))], lambda p: ComputeBbox().from_point_cloud(p), box),
    "Box3d": (False, True, [(f8, (3,)), (f8, (3,))], Box3d, box),
    "Box3d.point_in_box": (False, True, [(f8, (3,))], lambda p: bool(Box3d([-1, -1, -1], [1, 2, 2]).point_in_box(p)), ident),
    "Rot3": (False, False, [(rotation, (3, 3)), (f8, (3,))],
             lambda R, p: [Rot3(R).rotate(p), Rot3(R).unrotate(p), Rot3(R).inverse().matrix(), [Rot3(R)(j) for j in range(3)]], ident),
    "Rot3.AxisAngle": (False, False, [(unit, (3,))], lambda a: Rot3.AxisAngle(a, 0.25).matrix(), ident),
    "Pose3": (False, False, [(rotation, (3, 3)), (f8, (3,)), (f8, (3,))],
              lambda R, t, p: [Pose3(Rot3(R), t).transform_from(p), Pose3(Rot3(R), t).transform_to(p), Pose3(Rot3(R), t).matrix34(),
                               Pose3(Rot3(R), t).inverse().matrix()], ident),
    "Pose3.transform_all": (True, False, [(rotation, (3, 3)), (f8, (3,)), (f8, (3, m))],
                            lambda R, t, p: [Pose3(Rot3(R), t).transform_all_from(p), Pose3(Rot3(R), t).transform_all_to(p)], ident),
    "Quaternion": (True, False, [(rotation, (3, 3))], Quaternion, lambda q: [q.as_vector(), q.to_rotation_matrix()]),
    "matrix_to_quat": (False, False, [(rotation, (3, 3))], lambda R: utils.quat_to_matrix(utils.matrix_to_quat(R)), ident),
    "nearest_neighbors": (False, False, [(f8, (m, 3)), (f8, (n, 3))], lambda a, b: list(utils.nearest_neighbors(a, b)), ident),
    "write_points": (True, True, [(f4, (3, m))], ply, ident),
    "write_points_and_colors": (True, True, [(f4, (3, m)), (u1, (3, m))], ply, ident),
    "depth_image_of_inverse_depth_map": (True, True, [(u2, (2, m))], inverse_depth.depth_image_of_inverse_depth_map, ident),
    "depth_image_of_uint8_inverse_depth_map": (True, True, [(u1, (2, m))], inverse_depth.depth_image_of_uint8_inverse_depth_map, ident),
    "uint16_of_uint8_inverse_depth_map": (True, True, [(u1, (2, m))], inverse_depth.uint16_of_uint8_inverse_depth_map, ident),
    "inverse_depth_map_of_depth_image": (True, True, [(depth4, (2, m))], inverse_depth.inverse_depth_map_of_depth_image, ident),
    "uint8_inverse_depth_map_of_depth_image": (True, True, [(depth4, (2, m))], inverse_depth.uint8_inverse_depth_map_of_depth_image, ident),
}


def case(name, spec, lays):
    """one call with the arguments laid out by lays (None: a plain array): an event"""
    native, exact, params, make, take = spec
    size = {"n": rnd.randint(3, 5), "m": rnd.randint(1, 4)}
    shapes = [tuple(size.get(d, d) for d in s) for _, s in params]
    values = [g(s) for (g, _), s in zip(params, shapes)]
    base = call(lambda: norm(take(make(*[v.copy() for v in values]))))
    if not base.ok:
        log.ev("base", ok=False, key=name, err=base.err + " " + base.msg)
        return
    args, memory, seen = [], [], []
    for (g, _), v, lay in zip(params, values, lays):
        p, form = lay if lay else (plain(v.ndim), "natural")
        view, mem, off, stride = layout(v, p, form, g if g not in (rotation, unit) else f8)
        args.append(view)
        memory.append(mem)
        seen.append({"plan": p, "form": form, "shape": list(v.shape), "off": off, "strides": stride, "buf": [fx(x, 1000) for x in mem.tolist()],
                     "vals": [fx(x, 1000) for x in v.ravel().tolist()]})
    keep = [call(lambda: make(*args))]
    r = call(lambda: norm(take(keep[0].val))) if keep[0].ok else keep[0]
    for a, mem in zip(seen, memory):
        a["after"] = [fx(x, 1000) for x in mem.tolist()]
    e = {"api": name, "key": name, "ok": r.ok, "err": r.err, "native": native, "exact": exact, "args": seen,
         "plain": all(lay is None or lay[1] == "natural" and lay[0] == plain(len(s)) for lay, s in zip(lays, shapes))}
    if r.ok:
        e["r"], e["base"] = r.val, base.val
        if native:
            for mem in memory:
                spoil(mem)
            e["arg"] = norm(take(keep[0].val))
            if take is ident:
                e["out"] = e["gone"] = e["arg"]
            else:
                for x in arrays(take(keep[0].val)):
                    spoil(x)
                e["out"] = norm(take(keep[0].val))
                last = take(keep[0].val)
                del keep[:]
                gc.collect()
                fresh = [np.full(k, 77, dtype=np.uint8) for k in (16, 32, 48, 64, 96, 128) for _ in range(4)]
                e["gone"] = norm(last)
                del fresh
    log.ev("call", **e)


def main():
    per = 40 if THOROUGH else 8
    for name, spec in list(API.items())[IN["part"]::IN["parts"]]:
        params = spec[2]
        ranks = [len(s) for _, s in params]
        case(name, spec, [(plain(r), "natural") for r in ranks])
        for i, r in enumerate(ranks):
            # the orders of the axes and the steps one by one, then the plans in turn; then the other forms
            single = [p for p in PLANS[r] if sum(p["pad"]) == 0 and (all(x == 1 for x in p["step"]) or p["perm"] == sorted(p["perm"]))]
            single = single if len(single) <= 10 or THOROUGH else rnd.sample(single, 10)
            for p in single + [plan(r) for _ in range(per)]:
                case(name, spec, [(p, "natural") if k == i else None for k in range(len(ranks))])
            for form in ("readonly", "swapped", "unaligned"):
                for p in (plain(r), plan(r)):
                    case(name, spec, [(p, form) if k == i else None for k in range(len(ranks))])
        for _ in range(per * 2):
            case(name, spec, [(plan(r), rnd.choice(["natural", "natural", "natural", "readonly", "swapped", "unaligned"])) for r in ranks])


main()

"""Calls of the compiled bindings (X02).  Every call runs in a child of its own: it may end the process."""
import json
import os
import select
import signal
import sys

import numpy as np

from common import IN, WORK, log, rnd

from sumo.geometry import inverse_depth
from sumo.geometry.pose3 import Pose3
from sumo.geometry.quaternion import Quaternion
from sumo.images.rgbdci_360 import Rgbdci360
from sumo.threedee import point_cloud_ply
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.point_cloud import PointCloud
from sumo.threedee.textured_mesh import TexturedMesh

DT = {"f4": np.float32, "f8": np.float64, "u1": np.uint8, "u2": np.uint16, "u4": np.uint32, "i8": np.int64, "ob": object}


def texture():
    return np.arange(12, dtype=np.uint8).reshape(2, 2, 3)


def mesh(x):
    n, v, w = x["n"], x["v"], x["w"]
    idx = np.array(([0, 1, 2] + [0, 0, v])[:w] if n else [], dtype=np.uint32)
    ver = np.array([[(i * 7 + k * 3) % 5 + 1 for i in range(n)] for k in range(3)], dtype=np.float32).reshape(3, n)
    nor = np.array([[1.0 if k == 2 else 0.0] * n for k in range(3)], dtype=np.float32).reshape(3, n)
    if x["k"] == "mesh":
        return Mesh(idx, ver, nor)
    uv = np.array([[i / 8.0 for i in range(n)]] * 2, dtype=np.float32).reshape(2, n)
    return TexturedMesh(idx, ver, nor, uv, texture(), texture())


def cloud(x):
    n = x["n"]
    p = np.arange(3.0 * n).reshape(3, n)
    return PointCloud(p, np.full((3, n), 9, dtype=np.uint8)) if x["w"] else PointCloud(p)


def model(x):
    g = GltfModel()
    for i in range(x["n"]):
        g.add_mesh(mesh({"k": "tmesh", "n": 4, "v": 3, "w": 6}))
    return g


def array(x):
    shape = tuple(x["shape"])
    n = int(np.prod(shape))
    if x["dt"] == "ob":
        a = np.empty(shape, dtype=object)
        a[...] = None
        return a
    if x["v"]:
        a = np.zeros(n, dtype=DT[x["dt"]])
        if n:
            a[-1] = x["v"]
        return a.reshape(shape)
    if n == 9:
        return np.eye(3).astype(DT[x["dt"]]).reshape(shape)
    return np.ones(shape, dtype=DT[x["dt"]]) if x["dt"] != "u4" else np.zeros(shape, dtype=np.uint32)


def build(x):
    k = x["k"]
    if k == "arr":
        return array(x)
    if k in ("mesh", "tmesh"):
        return mesh(x)
    if k == "cloud":
        return cloud(x)
    if k == "model":
        return model(x)
    if k == "int":
        return x["v"]
    if k == "huge":
        return 2 ** 63
    if k == "float":
        return 0.5
    if k == "none":
        return None
    if k == "text":
        return os.path.join(WORK, "contract-%d.ply" % os.getpid())
    if k == "list":
        return [None]
    n = x["shape"][0]
    top = x["v"]
    return [min(i, top) for i in range(n - 1)] + [top] if n else []


def state(o):
    """what can be seen of the object a method was called on"""
    if isinstance(o, Mesh):
        r = [o.indices().tolist(), o.vertices().tolist(), o.normals().tolist()]
        if isinstance(o, TexturedMesh):
            r += [o.uv_coords().tolist(), o.base_color().tolist(), o.metallic_roughness().tolist()]
        return r
    if isinstance(o, PointCloud):
        return [o.points().tolist(), o.colors().tolist()]
    if isinstance(o, GltfModel):
        return [o.num_primitive_meshes(), o.num_images(), o.num_buffers(), [state(m) for m in o.primitive_meshes()]]
    if isinstance(o, np.ndarray):
        return [str(o.dtype), list(o.shape), o.tolist()]
    if isinstance(o, list):
        return list(o)
    return None


def rgbdci(*a):
    return Rgbdci360(*a)


CALLS = {
    "Mesh": lambda *a: state(Mesh(*a)),
    "TexturedMesh": lambda *a: state(TexturedMesh(*a)),
    "TexturedMesh.cube": lambda *a: state(TexturedMesh.cube(*a)),
    "estimate_normals": Mesh.estimate_normals,
    "calculate_face_normals": Mesh.calculate_face_normals,
    "PointCloud": lambda *a: state(PointCloud(*a)),
    "PointCloud.merge": lambda a, b: state(PointCloud.merge(a, b)),
    "PointCloud.register": lambda a, b: state(PointCloud.register([(Pose3(), a), (Pose3(), b)])),
    "GltfModel.from_textured_mesh": lambda a: state(GltfModel.from_textured_mesh(a)),
    "Rgbdci360": lambda *a: Rgbdci360(*a),
    "Rgbdci360.create_point_cloud": lambda *a: state(Rgbdci360(*a).create_point_cloud()),
    "Pose3.transform_all_from": lambda a: Pose3().transform_all_from(a),
    "Pose3.transform_all_to": lambda a: Pose3().transform_all_to(a),
    "Quaternion": lambda a: [Quaternion(a).as_vector().tolist(), Quaternion(a).to_rotation_matrix().tolist()],
    "write_points": point_cloud_ply.write_points,
    "write_points_and_colors": point_cloud_ply.write_points_and_colors,
}
for name in ("uint8_inverse_depth_map_of_depth_image", "inverse_depth_map_of_depth_image", "depth_image_of_inverse_depth_map",
             "depth_image_of_uint8_inverse_depth_map", "uint16_of_uint8_inverse_depth_map"):
    CALLS[name] = getattr(inverse_depth, name)


sys.excepthook = sys.__excepthook__  # errors that native code drops are printed, nothing else


def perform(c):
    """in the child: {ok, err, same}"""
    args = [build(x) for x in c["args"]]
    if c["api"] == "model.add_colored_material":
        args.append(0.5)
    if c["api"] == "model.update_materials":
        args.insert(1, WORK)
    method = c["api"] not in CALLS
    before = [state(a) for a in args]
    try:
        if method:
            getattr(args[0], c["api"].split(".")[1])(*args[1:])
        else:
            CALLS[c["api"]](*args)
        ok, err = True, ""
    except Exception as e:
        ok, err = False, type(e).__name__
    # a call that is refused changes nothing; one that succeeds changes nothing but the object it was called on
    after = [state(a) for a in args]
    first = 1 if method and ok else 0
    alias = any(a is args[0] for a in args[1:])
    return {"ok": ok, "err": err, "same": alias or json.dumps(before[first:]) == json.dumps(after[first:])}


def child(calls, w):
    for c in calls:
        try:
            r = perform(c)
        except BaseException as e:  # building the arguments failed: not a verdict on the call
            r = {"ok": False, "err": "BUILD %r" % e, "same": True, "unbuilt": True}
        os.write(w, (json.dumps(r) + "\n").encode())


def batch(calls):
    """results of all calls; None for one that ended its process"""
    out = []
    while len(out) < len(calls):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            child(calls[len(out):], w)
            os._exit(0)
        os.close(w)
        buf = b""
        late = False
        while True:
            if not select.select([r], [], [], 30)[0]:
                os.kill(pid, signal.SIGKILL)
                late = True
                break
            d = os.read(r, 65536)
            if not d:
                break
            buf += d
        os.close(r)
        os.waitpid(pid, 0)
        got = [json.loads(x) for x in buf.decode().split("\n")[:-1]]
        out += got
        if len(out) < len(calls):
            out.append({"ok": False, "err": "no answer" if late else "", "same": True, "died": True})
    return out


def main():
    calls = IN["calls"]
    done = batch(calls)
    for c, r in zip(calls, done):
        if r.get("unbuilt"):
            log.ev("skip", api=c["api"], args=c["args"], err=r["err"])
            continue
        log.ev("call", api=c["api"], args=c["args"], ok=r["ok"], err=r["err"], died=bool(r.get("died")), same=r["same"], key=c["api"])


main()

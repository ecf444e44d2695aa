"""What glTF models are made of: descriptions (tokens) of meshes, pictures and files; models written by "another tool"."""
import cv2
import numpy as np
from common import *
import gltfparse
from sumo.threedee.textured_mesh import TexturedMesh

table = {}


def tok(*arrays):
    k = b"|".join(str(a.shape).encode() + np.ascontiguousarray(a).tobytes() for a in arrays)
    return table.setdefault(k, len(table) + 1)


def pic(a):
    return 0 if a is None or a.size == 0 else tok(np.ascontiguousarray(a, dtype=np.uint8))


def geo(idx, v, n, uv):
    """columns or rows -> token with sizes"""
    a = [np.asarray(idx, np.uint32).reshape(-1)] + [np.asarray(x, np.float32) for x in ([v, n] + ([] if uv is None else [uv]))]
    return [tok(*a), a[1].shape[0], a[0].shape[0]]


def mesh_desc(m):
    t = bool(m.is_textured())
    return dict(geo=geo(m.indices(), m.vertices().T, m.normals().T, m.uv_coords().T if t else None), tex=t and isinstance(m, TexturedMesh),
                base=pic(m.base_color()) if t else 0, mr=pic(m.metallic_roughness()) if t else 0)


def decode(b):
    a = cv2.imdecode(np.frombuffer(b, np.uint8), cv2.IMREAD_UNCHANGED)
    gltfparse.need(a is not None and a.ndim == 3 and a.shape[2] in (3, 4), "picture")
    return pic(np.ascontiguousarray(a[:, :, 2::-1]))


def fac(x):
    return -1 if x is None else fx(x, 1000000)


def file_desc(path):
    try:
        prims, mats, imgs = gltfparse.content(path)
        pics = [decode(b) for b in imgs]
        ms = [dict(look=dict(name=m["name"], rgb=fxs(m["rgb"], 1000000), met=fac(m["met"]), rou=fac(m["rou"])),
                   base=0 if m["base"] is None else pics[m["base"]], mr=0 if m["mr"] is None else pics[m["mr"]]) for m in mats]
        ps = [dict(geo=geo(p[0], p[1], p[2], p[3]), tex=p[3] is not None, mat=p[4] + 1) for p in prims]
        return dict(err="", prims=ps, mats=ms, nimg=len(imgs))
    except Exception as e:  # noqa: what is wrong with the file
        return dict(err="%s: %s" % (type(e).__name__, e), prims=[], mats=[], nimg=0)


def picture():
    h, w = rnd.choice([(1, 1), (2, 3), (5, 4), (3, 7)]) if rnd.random() < .7 else \
        rnd.choice([(1, rnd.randint(2, 40)), (2, rnd.randint(9, 30)), (rnd.randint(9, 40), 2), (rnd.randint(2, 60), 1), (2, rnd.randint(250, 700)), (rnd.randint(250, 700), 1), (33, 65)])
    return np.frombuffer(rnd.randbytes(h * w * 3), np.uint8).reshape(h, w, 3).copy()


def with_alpha(p):
    """the stored form (blue first) of a picture, now and then with an alpha channel, which means nothing"""
    a = np.ascontiguousarray(p[:, :, ::-1])
    if rnd.random() < .3:
        a = np.dstack([a, np.frombuffer(rnd.randbytes(a.shape[0] * a.shape[1]), np.uint8).reshape(a.shape[:2])])
    return a


def write_foreign(folder):
    """a model as another tool may write it: any image names, several buffers, shared materials and images, 16 bit indices"""
    nb = rnd.choice([1, 1, 2, 3])
    bufs = [bytearray(rnd.choice([0, 0, 4, 8])) for _ in range(nb)]
    views, accs = [], []

    def put(a, kind, group=None):
        k = rnd.randrange(nb)
        b = bufs[k]
        b.extend(b"\0" * (-len(b) % 4 + rnd.choice([0, 0, 4])))
        o = len(b)
        b.extend(a.tobytes())
        v = {"buffer": k, "byteLength": a.nbytes}
        inner = 0
        if o and rnd.random() < .5:            # part of the offset in the accessor
            inner = rnd.choice([x for x in range(0, o + 1, 4) if x <= 8])
            v["byteLength"] += inner
        if o - inner or rnd.random() < .5:
            v["byteOffset"] = o - inner
        views.append(v)
        x = {"bufferView": len(views) - 1, "componentType": {np.dtype(np.uint16): 5123, np.dtype(np.uint32): 5125, np.dtype(np.float32): 5126}[a.dtype],
             "count": len(a), "type": kind, "min": a.reshape(len(a), -1).min(0).astype(float).tolist(), "max": a.reshape(len(a), -1).max(0).astype(float).tolist()}
        if inner or rnd.random() < .3:
            x["byteOffset"] = inner
        accs.append(x)
        return len(accs) - 1

    names = rnd.sample(["0.png", "1.png", "2.png", "3.png", "4.png", "wood.png", "a b.png", "é.png"], rnd.randint(1, 4))
    pics = []
    for nme in names:
        p = picture()
        cv2.imwrite(os.path.join(folder, nme), with_alpha(p))
        pics.append(pic(p))
    textures = [{"source": rnd.randrange(len(names)), "sampler": 0} for _ in range(rnd.randint(1, 4))]
    mats, looks = [], []
    for i in range(rnd.randint(1, 3)):
        p, l = {}, dict(look=dict(name="", rgb=[], met=-1, rou=-1), base=0, mr=0)
        m = {}
        if rnd.random() < .7:
            m["name"] = l["look"]["name"] = rnd.choice(["m", "material_0", "é x"])
        if rnd.random() < .5:
            p["baseColorFactor"] = [rnd.choice([0, 1, .25, .75]) for _ in range(4)]
            l["look"]["rgb"] = fxs(p["baseColorFactor"], 1000000)
        if rnd.random() < .5:
            p["metallicFactor"] = rnd.choice([0.0, 1.0, .5])
            l["look"]["met"] = fx(p["metallicFactor"], 1000000)
        if rnd.random() < .5:
            p["roughnessFactor"] = rnd.choice([0.0, 1.0, .5])
            l["look"]["rou"] = fx(p["roughnessFactor"], 1000000)
        for key, k in (("baseColorTexture", "base"), ("metallicRoughnessTexture", "mr")):
            if rnd.random() < .7:
                j = rnd.randrange(len(textures))
                p[key] = {"index": j}
                l[k] = pics[textures[j]["source"]]
        if p or rnd.random() < .5:
            m["pbrMetallicRoughness"] = p
        mats.append(m)
        looks.append(l)
    meshes, prims = [], []
    for _ in range(rnd.randint(1, 3)):
        ps = []
        for _ in range(rnd.randint(1, 2)):
            n, t = rnd.randint(1, 5), rnd.randint(1, 3)
            if rnd.random() < .06:         # as many vertices as 16 bits number
                n = rnd.choice([65535, 65536, 40000, rnd.randint(32769, 65536)])
            pick = [rnd.randrange(n), n - 1, 0, n // 2, min(n - 1, 32768), min(n - 1, 255), min(n - 1, 256)]
            idx = np.array([rnd.choice(pick) for _ in range(3 * t)], rnd.choice([np.uint16, np.uint32]))
            v, nn = [np.frombuffer(rnd.randbytes(12 * n), np.uint32).reshape(n, 3) for _ in range(2)]
            v, nn = [(x / 2.0**32 * s - s / 2).astype(np.float32) for x, s in ((v, 18), (nn, 2))]
            mi = rnd.randrange(len(mats))
            tex = looks[mi]["base"] > 0 or looks[mi]["mr"] > 0 or rnd.random() < .3
            uv = (np.frombuffer(rnd.randbytes(8 * n), np.uint32).reshape(n, 2) / 2.0**30 - 2).astype(np.float32) if tex else None
            at = {"POSITION": put(v, "VEC3"), "NORMAL": put(nn, "VEC3")}
            if tex:
                at["TEXCOORD_0"] = put(uv, "VEC2")
            p = {"attributes": at, "indices": put(idx, "SCALAR"), "material": mi}
            if rnd.random() < .5:
                p["mode"] = 4
            ps.append(p)
            prims.append(dict(geo=geo(idx, v, nn, uv), tex=tex, mat=mi + 1))
        meshes.append({"primitives": ps})
    nodes = [{"mesh": i} for i in range(len(meshes))]
    top = list(range(len(nodes)))
    if rnd.random() < .4:
        nodes.append({"children": top, "name": "root"})
        top = [len(nodes) - 1]
    out = []
    for k, b in enumerate(bufs):
        if not b:
            b.extend(b"\0\0\0\0")
        nme = ["scene.bin", "b 1.bin", "data.2.bin"][k]
        with open(os.path.join(folder, nme), "wb") as f:
            f.write(b)
        out.append({"uri": nme, "byteLength": len(b)})
    js = dict(asset={"version": "2.0"}, scene=0, scenes=[{"nodes": top}], nodes=nodes, meshes=meshes, accessors=accs, bufferViews=views, buffers=out,
              materials=mats, textures=textures, images=[{"uri": x} for x in names], samplers=[{"magFilter": 9729, "minFilter": 9986, "wrapS": 10497, "wrapT": 10497}])
    with open(os.path.join(folder, "scene.gltf"), "w") as f:
        json.dump(js, f)
    return dict(prims=prims, mats=looks, nimg=len(names), nnode=len(nodes))

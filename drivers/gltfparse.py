"""An independent reader of glTF files (the harness's own; knows nothing of the code under test)."""
import json
import os
import struct
import numpy as np

CT = {5121: np.uint8, 5123: np.uint16, 5125: np.uint32, 5126: np.float32}
NC = {"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4}


class Bad(Exception):
    pass


def need(ok, what):
    if not ok:
        raise Bad(what)


def ref(d, key, lst, what, opt=False):
    if key not in d:
        need(opt, what + " missing")
        return None
    need(isinstance(d[key], int) and 0 <= d[key] < len(lst), what + " out of range")
    return d[key]


def split_glb(b):
    """-> (json bytes, bin bytes), checking the container"""
    need(len(b) >= 12, "short")
    magic, version, length = struct.unpack("<4sII", b[:12])
    need(magic == b"glTF" and version == 2, "magic")
    need(length == len(b), "total length")
    chunks, at = [], 12
    while at < len(b):
        need(at + 8 <= len(b), "chunk header")
        n, t = struct.unpack("<I4s", b[at:at + 8])
        need(n % 4 == 0, "chunk length not a multiple of 4")
        need(at + 8 + n <= len(b), "chunk beyond the file")
        chunks.append((t, b[at + 8:at + 8 + n]))
        at += 8 + n
    need([t for t, _ in chunks] == [b"JSON", b"BIN\0"], "chunks")
    return chunks[0][1], chunks[1][1]


def read(path):
    """-> (json, buffers, image bytes by index)"""
    d = os.path.dirname(path)
    with open(path, "rb") as f:
        b = f.read()
    if path.endswith(".glb"):
        js, body = split_glb(b)
        js = json.loads(js.decode("utf-8"))
        bufs = [body]
        need(len(js["buffers"]) == 1 and "uri" not in js["buffers"][0], "buffers")
        need(len(body) - 3 <= js["buffers"][0]["byteLength"] <= len(body), "length of the buffer")
    else:
        js = json.loads(b.decode("utf-8"))
        bufs = []
        for x in js.get("buffers", []):
            with open(os.path.join(d, x["uri"]), "rb") as f:
                bufs.append(f.read())
            need(len(bufs[-1]) == x["byteLength"], "length of a buffer")
        uris = [x["uri"] for x in js.get("buffers", [])] + [x["uri"] for x in js.get("images", []) if "uri" in x]
        need(len(set(uris)) == len(uris), "two files of one name")
    imgs = []
    for x in js.get("images", []):
        if "uri" in x:
            need(not path.endswith(".glb") and "bufferView" not in x, "image with uri")
            with open(os.path.join(d, x["uri"]), "rb") as f:
                imgs.append(f.read())
        else:
            v = js["bufferViews"][ref(x, "bufferView", js["bufferViews"], "view of image")]
            imgs.append(view(js, bufs, v))
            need(isinstance(x.get("mimeType"), str), "type of image")
    return js, bufs, imgs


def view(js, bufs, v):
    b = bufs[ref(v, "buffer", js["buffers"], "buffer")]
    o = v.get("byteOffset", 0)
    need(0 <= o and o + v["byteLength"] <= len(b), "view beyond the buffer")
    return b[o:o + v["byteLength"]]


def accessor(js, bufs, i, kind):
    need(0 <= i < len(js["accessors"]), "accessor out of range")
    a = js["accessors"][i]
    v = js["bufferViews"][ref(a, "bufferView", js["bufferViews"], "view")]
    t, c, n = CT[a["componentType"]], NC[a["type"]], a["count"]
    need(a["type"] == kind, "type of accessor")
    size = np.dtype(t).itemsize * c
    stride = v.get("byteStride", size)
    need(stride == size, "stride")
    b = view(js, bufs, v)
    o = a.get("byteOffset", 0)
    need(o + n * size <= len(b), "accessor beyond the view")
    x = np.frombuffer(b, dtype=t, count=n * c, offset=o).reshape(n, c)
    if n and "min" in a:
        lo, hi = (np.array(a[k]).astype(t) for k in ("min", "max"))       # written with 15 digits
        need(lo.tolist() == x.min(0).tolist() and hi.tolist() == x.max(0).tolist(), "min/max")
    return x


def scene_meshes(js):
    """meshes in the default scene, in the order of its nodes"""
    out = []

    def walk(i):
        need(0 <= i < len(js["nodes"]), "node out of range")
        n = js["nodes"][i]
        if "mesh" in n:
            out.append(ref(n, "mesh", js["meshes"], "mesh"))
        for k in n.get("children", []):
            walk(k)
    for i in js["scenes"][js.get("scene", 0)].get("nodes", []):
        walk(i)
    return out


def texture(js, m, key):
    t = m.get("pbrMetallicRoughness", {}).get(key)
    if t is None:
        return None
    t = js["textures"][ref(t, "index", js.get("textures", []), "texture")]
    ref(t, "sampler", js.get("samplers", []), "sampler", opt=True)
    return ref(t, "source", js.get("images", []), "image")


def content(path):
    """-> (primitives [(indices, vertices, normals, uv or None, material)], materials, images)"""
    js, bufs, imgs = read(path)
    order = scene_meshes(js)
    need(sorted(order) == list(range(len(js.get("meshes", [])))), "scene does not have every mesh once")
    prims = []
    for m in js.get("meshes", []):
        for p in m["primitives"]:
            need(p.get("mode", 4) == 4, "mode")
            at = p["attributes"]
            x = [accessor(js, bufs, p["indices"], "SCALAR").reshape(-1).astype(np.uint32),
                 accessor(js, bufs, at["POSITION"], "VEC3"), accessor(js, bufs, at["NORMAL"], "VEC3"),
                 accessor(js, bufs, at["TEXCOORD_0"], "VEC2") if "TEXCOORD_0" in at else None]
            prims.append(x + [ref(p, "material", js["materials"], "material")])
    mats = []
    for m in js.get("materials", []):
        p = m.get("pbrMetallicRoughness", {})
        need(set(p) <= {"baseColorFactor", "metallicFactor", "roughnessFactor", "baseColorTexture", "metallicRoughnessTexture"}, "unknown material value")
        for k in ("metallicFactor", "roughnessFactor"):
            need(k not in p or (isinstance(p[k], (int, float)) and not isinstance(p[k], bool)), k)
        mats.append(dict(name=m.get("name", ""), rgb=p.get("baseColorFactor", []), met=p.get("metallicFactor"), rou=p.get("roughnessFactor"),
                         base=texture(js, m, "baseColorTexture"), mr=texture(js, m, "metallicRoughnessTexture")))
    return prims, mats, imgs

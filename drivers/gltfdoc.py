"""glTF documents whose parts may not fit together (X03).  Documents are loaded in a child process: they may end it."""
import base64
import json
import os
import select
import signal
import struct
import sys
import zlib

import numpy as np

from common import IN, WORK, log, rnd

from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.textured_mesh import TexturedMesh

sys.excepthook = sys.__excepthook__  # errors that native code drops are printed, nothing else
NIL, ODD, BIG = -9, -8, 1000000
BIGS = [1000000, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 40, 2 ** 62, 2 ** 63]
ODDS = ["x", "", [], {}, None, True, [1], 0.5, 1e300, -1e300]  # what does not fit a size is no number
INDEX = [0, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 3, 0, 0, 0, 0, 0, 1, 0, 2, 0, 3, 200]
FLOATS = [1 + (i * 29 + 11 * (i // 4)) % 100 for i in range(160)]


def png(k):
    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    raw = bytes([0, 10 + k, 20, 30, 40, 50 + k, 60])
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", 2, 1, 8, 2, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))


def num(v):
    return rnd.choice(BIGS) if v == BIG else rnd.choice(ODDS) if v == ODD else v


def fields(**kw):
    return {k: num(v) for k, v in kw.items() if v is not None and v != NIL}


def write(doc, folder):
    """the document as a file; its path"""
    os.makedirs(folder, exist_ok=True)
    glb = doc["fmt"] == "glb"
    data = [bytes(INDEX), bytes(FLOATS)]
    if glb:
        data[0] += b"".join(png(k).ljust(128, b"\0") for k in range(2))
    outside = rnd.random() < 0.5
    bufs = []
    for b, n in enumerate(doc["bufs"]):
        e = fields(byteLength=n)
        if not (glb and b == 0):
            if outside:
                open(os.path.join(folder, "b%d.bin" % b), "wb").write(data[b])
                e["uri"] = "b%d.bin" % b
            else:
                e["uri"] = "data:application/octet-stream;base64," + base64.b64encode(data[b]).decode()
        bufs.append(e)
    short = rnd.random() < 0.5      # properties that have their default value are left out
    maybe = lambda v: None if v == 0 and short else v
    j = {"asset": {"version": "2.0"}, "scene": 0, "scenes": [{"nodes": [0, 1]}], "nodes": [{"mesh": 0}, {"mesh": 1}],
         "buffers": bufs,
         "bufferViews": [fields(buffer=v["buffer"], byteOffset=maybe(v["off"]), byteLength=v["len"], byteStride=v["stride"] or None) for v in doc["views"]],
         "accessors": [dict(fields(bufferView=a["view"], byteOffset=maybe(a["off"]), componentType=a["comp"], count=a["count"]), type=a["type"])
                       for a in doc["accs"]]}
    prims = [dict(fields(indices=p["ind"], material=p["mat"]), mode=4, attributes=fields(POSITION=p["pos"], NORMAL=p["nrm"], TEXCOORD_0=p["uv"]))
             for p in doc["prims"]]
    cut = rnd.randint(1, len(prims) - 1)
    j["meshes"] = [{"primitives": prims[:cut]}, {"primitives": prims[cut:]}]
    j["materials"] = []
    for m in doc["mats"]:
        pbr = {k: {"index": num(m[f])} for k, f in (("baseColorTexture", "base"), ("metallicRoughnessTexture", "rough")) if m[f] != NIL}
        pbr["metallicFactor"] = 0.5
        j["materials"].append({"pbrMetallicRoughness": pbr})
    j["textures"] = [dict(fields(source=t["src"]), sampler=0) for t in doc["texs"]]
    j["samplers"] = [{"magFilter": 9729, "minFilter": 9986, "wrapS": 10497, "wrapT": 10497}]
    j["images"] = []
    used = set()
    for k, i in enumerate(doc["imgs"]):
        if i["view"] == NIL:
            if rnd.random() < 0.5:
                name = "%d.png" % (k if rnd.random() < 0.5 else k + 2 if rnd.random() < 0.3 else 1 - k)
                while name in used:
                    name = "t" + name
                used.add(name)
                open(os.path.join(folder, name), "wb").write(png(k))
                j["images"].append({"uri": name})
            else:
                j["images"].append({"uri": "data:image/png;base64," + base64.b64encode(png(k)).decode()})
        else:
            j["images"].append(dict(fields(bufferView=i["view"]), mimeType="image/png"))
    text = json.dumps(j).encode()
    path = os.path.join(folder, "x." + doc["fmt"])
    if glb:
        text += b" " * (-len(text) % 4)
        b = data[0]
        text = (struct.pack("<4sII", b"glTF", 2, 28 + len(text) + len(b)) + struct.pack("<II", len(text), 0x4e4f534a) + text
                + struct.pack("<II", len(b), 0x004e4942) + b)
    open(path, "wb").write(text)
    return path


def load(path):
    return (GltfModel.load_from_gltf if path.endswith(".gltf") else GltfModel.load_from_glb)(path)


def flat(a, t=np.float32):
    return list(np.ascontiguousarray(np.asarray(a, dtype=t).T).tobytes())


def geometry(m):
    tex = isinstance(m, TexturedMesh)
    r = {"r": "ok", "tex": tex, "ind": flat(m.indices(), np.uint32), "pos": flat(m.vertices()), "nrm": flat(m.normals())}
    if tex:
        r["uv"] = flat(m.uv_coords())
        for k, im in (("base", m.base_color()), ("rough", m.metallic_roughness())):
            im = np.asarray(im)
            r[k] = [int(x) for x in im.reshape(-1)] if im.size == 0 or im.shape == (1, 2, 3) else [-1]
    return r


def extract(g, i, tex):
    try:
        m = (g.extract_textured_primitive_mesh if tex else g.extract_primitive_mesh)(i)
    except Exception:
        return {"r": "err"}
    return geometry(m)


def contents(g):
    n = g.num_primitive_meshes()
    return {"n": n, "plain": [extract(g, i, False) for i in range(n)], "tex": [extract(g, i, True) for i in range(n)]}


def compare(f, want):
    try:
        got = f()
    except Exception:
        return "err"
    return "same" if got == want else "diff"


def perform(doc, folder):
    path = write(doc, folder)
    try:
        g = load(path)
    except Exception:
        return {"load": "err"}
    c = contents(g)

    def together():
        ms = g.primitive_meshes()
        return [geometry(m) for m in ms]

    def saved(how):
        out = os.path.join(folder, "out-" + how)
        os.makedirs(out, exist_ok=True)
        if how == "gltf":
            g.save_as_gltf(out, "o")
        else:
            g.save_as_glb(os.path.join(out, "o.glb"))
        return contents(load(os.path.join(out, "o." + how)))
    again = {"all": compare(together, c["plain"]), "copy": compare(lambda: contents(g.deepcopy()), c)}
    for how in ("gltf", "glb"):
        again[how] = compare(lambda: saved(how), c)
    again["still"] = compare(lambda: contents(g), c)
    return dict(c, load="ok", **again)


def child(docs, first, w):
    import shutil
    for k, doc in enumerate(docs):
        folder = os.path.join(WORK, "d%d" % (first + k))
        r = perform(doc, folder)
        shutil.rmtree(folder, ignore_errors=True)
        os.write(w, (json.dumps(r) + "\n").encode())


def batch(docs):
    out = []
    while len(out) < len(docs):
        r, w = os.pipe()
        rnd.random()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                child(docs[len(out):], len(out), w)
            except BaseException:
                os._exit(7)
            os._exit(0)
        os.close(w)
        buf = b""
        while True:
            if not select.select([r], [], [], 60)[0]:
                os.kill(pid, signal.SIGKILL)
                break
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
        os.close(r)
        status = os.waitpid(pid, 0)[1]
        out += [json.loads(x) for x in buf.decode().split("\n")[:-1]]
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 7:
            raise SystemExit("driver: a document could not be written or its results read")
        if len(out) < len(docs):
            out.append({"load": "died"})
    return out


def main():
    docs = IN["docs"]
    for d, r in zip(docs, batch(docs)):
        log.ev("doc", doc=d, res=r)


main()

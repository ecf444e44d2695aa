"""An independent reader and writer of TIFF files (only what RGB-D files need)."""
import json
import struct
import zlib
import numpy as np

SIZE = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8}
FMT = {1: "B", 3: "H", 4: "I"}


class Bad(Exception):
    pass


def need(ok, what):
    if not ok:
        raise Bad(what)


def first_desc(b):
    return ifds(b, 1)[1][0][2][270]


def ifds(b, most=20):
    """-> byte order, [(offset, end, tags)]"""
    e = {b"II*\0": "<", b"MM\0*": ">"}.get(b[:4])
    need(e is not None, "magic")
    out = []
    o = struct.unpack(e + "I", b[4:8])[0]
    while o and len(out) < most:
        need(o + 6 <= len(b), "directory")
        n = struct.unpack(e + "H", b[o:o + 2])[0]
        need(o + 6 + 12 * n <= len(b), "directory")
        tags = {}
        for i in range(n):
            t, ty, c = struct.unpack(e + "HHI", b[o + 2 + 12 * i:o + 10 + 12 * i])
            v = b[o + 10 + 12 * i:o + 14 + 12 * i]
            if SIZE[ty] * c > 4:
                p = struct.unpack(e + "I", v)[0]
                need(p + SIZE[ty] * c <= len(b), "value")
                v = b[p:p + SIZE[ty] * c]
            tags[t] = v[:c].rstrip(b"\0").decode() if ty == 2 else list(struct.unpack(e + str(c) + FMT[ty], v[:SIZE[ty] * c])) if ty in FMT else v
        end = o + 6 + 12 * n
        out.append((o, end, tags))
        o = struct.unpack(e + "I", b[end - 4:end])[0]
    return e, out


def pages(b):
    """-> [dict(name, w, h, ch, bits, px, desc, number)]"""
    e, ds = ifds(b)
    out = []
    for _, _, t in ds:
        w, h, ch, bits = t[256][0], t[257][0], t.get(277, [1])[0], t.get(258, [1])[0]
        need(all(x == bits for x in t[258]), "bits")
        need(t.get(284, [1])[0] == 1 and t.get(317, [1])[0] == 1 and t.get(339, [1])[0] == 1, "layout")
        comp = t.get(259, [1])[0]
        raw = b""
        for o, n in zip(t[273], t[279]):
            need(o + n <= len(b), "strip")
            s = b[o:o + n]
            raw += zlib.decompress(s) if comp in (8, 32946) else s
        a = np.frombuffer(raw, np.uint8 if bits == 8 else np.dtype(e + "u2"))
        need(a.size == w * h * ch, "amount of data")
        out.append(dict(name=t.get(285), w=w, h=h, ch=ch, bits=bits, px=a.astype(int).reshape(-1), desc=t.get(270), number=t.get(297)))
    return out


def write(path, ps, big=False):
    """ps: dicts(name or None, a (h, w[, 3]) uint8/uint16, desc or None, number or None, rows (per strip), planar, float_)"""
    e = ">" if big else "<"
    b = bytearray((b"MM\0*" if big else b"II*\0") + b"\0\0\0\0")
    link = 4
    for p in ps:
        a = p["a"]
        h, w = a.shape[:2]
        ch = a.shape[2] if a.ndim == 3 else 1
        bits = a.dtype.itemsize * 8
        rows = p.get("rows") or h
        so, sn = [], []
        data = a.astype(a.dtype.newbyteorder(e))
        planes = [data[:, :, k] for k in range(ch)] if p.get("planar") else [data]
        for d in planes:
            for r in range(0, h, rows):
                s = d[r:r + rows].tobytes()
                so.append(len(b))
                sn.append(len(s))
                b += s + b"\0" * (len(s) % 2)
        tags = {256: (4, [w]), 257: (4, [h]), 258: (3, [bits] * ch), 259: (3, [1]), 262: (3, [2 if ch == 3 else 1]), 273: (4, so), 277: (3, [ch]),
                278: (4, [rows]), 279: (4, sn), 284: (3, [2 if p.get("planar") else 1]), 339: (3, [1] * ch)}
        if p.get("name") is not None:
            tags[285] = (2, p["name"])
        if p.get("desc") is not None:
            tags[270] = (2, p["desc"])
        if p.get("number") is not None:
            tags[297] = (3, p["number"])
        b += b"\0" * (len(b) % 2)
        entries = b""
        extra = bytearray()
        base = len(b) + 6 + 12 * len(tags)
        for t in sorted(tags):
            ty, v = tags[t]
            v = v.encode() + b"\0" if ty == 2 else v
            raw = v if ty == 2 else struct.pack(e + str(len(v)) + FMT[ty], *v)
            if len(raw) > 4:
                val = struct.pack(e + "I", base + len(extra))
                extra += raw + b"\0" * (len(raw) % 2)
            else:
                val = raw.ljust(4, b"\0")
            entries += struct.pack(e + "HHI", t, ty, len(v)) + val
        b[link:link + 4] = struct.pack(e + "I", len(b))
        b += struct.pack(e + "H", len(tags)) + entries
        link = len(b)
        b += b"\0\0\0\0" + extra
    with open(path, "wb") as f:
        f.write(b)

"""Point clouds: programs over registers of clouds, files written and read."""
import os
import struct
import numpy as np
from common import *
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.threedee.point_cloud import PointCloud

S = 1000
CUBE = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, -1), (1, 1, 1, 1), (1, -1, 1, 1), (0, 1, 1, 0)]


def qmat(q):
    w, x, y, z = [float(v) for v in q]
    n = w * w + x * x + y * y + z * z
    return np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]) / n


def pose():
    q = rnd.choice(CUBE) if rnd.random() < 0.5 else [rnd.randrange(-3, 4) for _ in range(4)]
    if not any(q):
        q = (1, 0, 0, 0)
    t = [rnd.randrange(-20, 21) / 4 for _ in range(3)]
    p = Pose3(Rot3(qmat(q)), np.array(t))
    p.spec = [list(q), fxs(np.array(t), S)]
    return p


def snap(c):
    return (c.points().copy(), c.colors().copy() if c.colored() else None)


def full(c):
    pts = c.points()
    d = dict(p=fxs(pts.T, S), c=c.colors().T.astype(int).tolist() if c.colored() else [], n=int(c.num_points()), colored=bool(c.colored()))
    k = range(min(pts.shape[1], 6)) if pts.shape[1] < 6 else rnd.sample(range(pts.shape[1]), 6)
    d["at"] = [[i + 1, fxs(c.point(i), S), c.color(i).astype(int).tolist() if d["colored"] and len(d["c"]) > i else []] for i in k]
    d["dt"] = [str(pts.dtype), str(c.colors().dtype)]
    return d


class Prog:
    def __init__(self):
        self.regs = []
        self.first = True

    def run(self, op, fn, dst=None, **kw):
        """fn gives a new cloud, or changes register dst"""
        before = [snap(c) for c in self.regs]
        r = call(fn)
        d = dict(ok=r.ok, valueerror=isa(r, "ValueError"), dst=0 if dst is None else dst + 1, **kw)
        same = True
        for i, (c, (p, k)) in enumerate(zip(self.regs, before)):
            if i == dst and r.ok:
                continue
            p2, k2 = snap(c)
            same = same and p.shape == p2.shape and bool(np.all(p == p2)) and (k is None) == (k2 is None) and (k is None or bool(np.array_equal(k, k2)))
        d["same"] = same
        if r.ok:
            c = r.val if dst is None else self.regs[dst]
            d["res"] = full(c)
            if dst is None:
                self.regs.append(c)
        if self.first:
            d["new"], self.first = True, False
        log.ev(op, **d)
        return r

    def new(self, n, colored):
        kind = rnd.randrange(3)
        pts = np.array([[rnd.randrange(-800, 800) / [1, 8, 1000][kind] for _ in range(n)] for _ in range(3)]).reshape(3, n)
        cols = np.array([[rnd.choice([0, 1, 127, 128, 255, rnd.randrange(256)]) for _ in range(n)] for _ in range(3)], dtype=np.uint8).reshape(3, n)
        if rnd.random() < 0.3:
            pts, cols = np.asfortranarray(pts), np.asfortranarray(cols)
        if rnd.random() < 0.2:
            big = np.zeros((3, 2 * n + 1))
            big[:, 1:2 * n:2] = pts
            pts = big[:, 1:2 * n:2]
        if kind == 0 and rnd.random() < 0.5:
            pts = pts.astype(int)
        want = dict(p=fxs(pts.T, S), c=cols.T.astype(int).tolist() if colored else [])
        f = [lambda: PointCloud(pts, cols) if colored else PointCloud(pts), lambda: PointCloud(points=pts, colors=cols if colored else None)][rnd.randrange(2)]
        r = self.run("cloud", f, want=want)
        if r.ok:
            keep = snap(r.val)
            if n:
                pts[0, 0] += 5
                cols[1, 0] ^= 255
                g = r.val.points()
                g += 1
                k = r.val.colors()
                if colored:
                    k[:] = 7
            now = snap(r.val)
            log.ev("alias", same=bool(np.array_equal(keep[0], now[0])) and (keep[1] is None or bool(np.array_equal(keep[1], now[1]))))

    def step(self, op, i, j):
        a, b = self.regs[i], self.regs[j]
        if op == "append":
            self.run("append", lambda: a.append(b), dst=i, a=i + 1, b=j + 1)
        elif op == "merge":
            f = rnd.choice([lambda: PointCloud.merge(a, b), lambda: a + b])
            self.run("merge", f, a=i + 1, b=j + 1)
        elif op == "register":
            self.register([i, j])
        else:
            self.move(i)

    def register(self, idx):
        ps = [pose() for _ in idx]
        pairs = [(p, self.regs[i]) for p, i in zip(ps, idx)]
        f = rnd.choice([lambda: PointCloud.register(pairs), lambda: PointCloud.register(iter(pairs)),
                        lambda: PointCloud.register((Pose3(Rot3(p.R.R.copy()), p.t.copy()), c) for p, c in pairs)])
        self.run("register", f, parts=[[i + 1] + p.spec for p, i in zip(ps, idx)])

    def move(self, i):
        p, a = pose(), self.regs[i]
        k = rnd.randrange(2)
        keep = (p.R.R.copy(), p.t.copy())
        self.run("to" if k else "from", lambda: a.transform_to(p) if k else a.transform_from(p), a=i + 1, pose=p.spec)
        log.ev("alias", same=bool(np.array_equal(keep[0], p.R.R) and np.array_equal(keep[1], p.t)))

    def thin(self, i):
        n, a = rnd.choice([0, 1, 2, 5, self.regs[i].num_points()]), self.regs[i]
        self.run("thin", lambda: a.thin(n), a=i + 1, k=int(n))

    def total(self, idx):
        cs = [self.regs[i] for i in idx]
        r = call(lambda: sum(cs))
        if r.ok and any(r.val is c for c in cs):
            return
        before = [snap(c) for c in self.regs]
        self.run("sum", lambda: sum(cs), parts=[i + 1 for i in idx])

    def ply(self, i):
        a = self.regs[i]
        path = os.path.join(WORK, "c%d.ply" % rnd.randrange(3))    # the same names over and over: files are replaced
        keep = snap(a)
        w = call(a.write_ply, path)
        d = dict(a=i + 1, ok=w.ok, same=bool(np.array_equal(keep[0], a.points())))
        if w.ok:
            d["file"] = parse_ply(path)
        log.ev("ply", **d)
        if w.ok:
            self.run("load", lambda: PointCloud.load_ply(path), a=i + 1)

    def text(self, i):
        a = self.regs[i]
        path = os.path.join(WORK, "c%d.txt" % i)
        col = [rnd.randrange(256) for _ in range(3)]
        dflt = rnd.random() < 0.3
        r = call(lambda: a.save(path) if dflt else a.save(path, color=np.array(col)))
        rows = [[float(x) for x in line.split()] for line in open(path)] if r.ok else []
        log.ev("text", a=i + 1, ok=r.ok, color=[255] * 3 if dflt else col, p=[fxs(x[:3], S) for x in rows], c=[fxs(x[3:], 1) for x in rows])


TYPES = {"float": "f", "float32": "f", "uchar": "B", "uint8": "B", "double": "d", "float64": "d"}


def parse_ply(path):
    """own reader: vertex properties of a ply file"""
    data = open(path, "rb").read()
    head, body = data.split(b"end_header\n", 1)
    lines = head.decode().splitlines()
    fmt = [x.split()[1] for x in lines if x.startswith("format")][0]
    n, props, inside = 0, [], False
    for x in lines:
        w = x.split()
        if w[0] == "element":
            inside = w[1] == "vertex"
            n = int(w[2]) if inside else n
        if w[0] == "property" and inside:
            props.append((w[2], TYPES[w[1]]))
    if fmt == "ascii":
        rows = [dict(zip([p for p, _ in props], map(float, x.split()))) for x in body.decode().splitlines()[:n]]
    else:
        st = struct.Struct("<" + "".join(t for _, t in props))
        rows = [dict(zip([p for p, _ in props], st.unpack_from(body, k * st.size))) for k in range(n)]
    names = [p for p, _ in props]
    d = dict(n=n, whole=fmt == "ascii" or len(body) == n * st.size, p=[fxs([r["x"], r["y"], r["z"]], S) for r in rows],
             c=[[int(r["red"]), int(r["green"]), int(r["blue"])] for r in rows] if "red" in names else [])
    return d


def make_ply(path, pts, cols, fmt, typ, extra, faces):
    props = [(c, typ) for c in "xyz"]
    if cols is not None:
        props += [(c, "uchar") for c in ("red", "green", "blue")]
    if extra:
        props = [("nx", "float")] + props[:2] + [("flag", "uchar")] + props[2:]
    vals = {"nx": 0.5, "flag": 7}
    with open(path, "wb") as f:
        h = "ply\nformat %s 1.0\ncomment made by hand\n" % fmt
        if faces:
            h += "element face 1\nproperty list uchar int vertex_indices\n" if faces == 1 else ""
        h += "element vertex %d\n" % len(pts) + "".join("property %s %s\n" % (t, p) for p, t in props)
        h += "element face 1\nproperty list uchar int vertex_indices\n" if faces == 2 else ""
        f.write((h + "end_header\n").encode())
        face = b"3 0 0 0\n" if fmt == "ascii" else struct.pack("<Biii" if "little" in fmt else ">Biii", 3, 0, 0, 0)
        if faces == 1:
            f.write(face)
        for i, p in enumerate(pts):
            vals.update(x=p[0], y=p[1], z=p[2])
            if cols is not None:
                vals.update(red=cols[i][0], green=cols[i][1], blue=cols[i][2])
            row = [vals[k] for k, _ in props]
            if fmt == "ascii":
                f.write((" ".join("%r" % v for v in row) + "\n").encode())
            else:
                f.write(struct.pack(("<" if "little" in fmt else ">") + "".join(TYPES[t] for _, t in props), *row))
        if faces == 2:
            f.write(face)


def files(n):
    path = os.path.join(WORK, "made.ply")
    for k in range(n):
        m = rnd.choice([1, 2, 3, 7])
        pts = [[rnd.randrange(-800, 800) / 8 for _ in range(3)] for _ in range(m)]
        cols = [[rnd.randrange(256) for _ in range(3)] for _ in range(m)] if rnd.random() < 0.4 else None
        fmt, typ, extra, fc = rnd.choice(["ascii", "binary_little_endian"]), rnd.choice(["float", "double", "float32", "float64"]), rnd.random() < 0.4, rnd.randrange(3)
        make_ply(path, pts, cols, fmt, typ, extra, fc)
        P = Prog()
        P.run("read", lambda: PointCloud.load_ply(path), want=dict(p=fxs(np.array(pts), S), c=[]), file=[fmt, typ, extra, fc])
    bad = []
    make_ply(path, [[1, 2, 3]] * 5, None, "binary_little_endian", "float", False, 0)
    data = open(path, "rb").read()
    bad += [data[:-1], data[:-13], data[:40], b"", b"hello\n", data.replace(b"property float z\n", b""), data.replace(b"float", b"int"),
            data.replace(b"element vertex 5", b"element vertex 6"), data.replace(b"vertex", b"vertices"), data.replace(b"float x", b"short x")]
    for i, b in enumerate(bad):
        open(path, "wb").write(b)
        r = call(PointCloud.load_ply, path)
        log.ev("badfile", which=i, raised=not r.ok, new=True)
    r = call(PointCloud.load_ply, os.path.join(WORK, "none.ply"))
    log.ev("badfile", which="missing", raised=not r.ok, new=True)
    for c in (PointCloud(np.zeros((3, 2))), PointCloud(np.zeros((3, 2)), np.zeros((3, 2), np.uint8))):
        r = call(c.write_ply, os.path.join(WORK, "nodir", "x.ply"))
        log.ev("badfile", which="unwritable", raised=not r.ok, new=True)


def shapes():
    f, u = np.zeros, lambda s: np.zeros(s, np.uint8)
    for name, fn in [("cols-n", lambda: PointCloud(f((3, 3)), u((3, 2)))), ("cols-more", lambda: PointCloud(f((3, 2)), u((3, 3)))),
                     ("cols-rows", lambda: PointCloud(f((3, 2)), u((2, 2)))), ("cols-only", lambda: PointCloud(None, u((3, 2)))),
                     ("pts-rows", lambda: PointCloud(f((2, 3)))), ("pts-1d", lambda: PointCloud(f(3))), ("pts-T", lambda: PointCloud(f((5, 3)))),
                     ("cols-T", lambda: PointCloud(f((3, 5)), u((5, 3)))), ("cols-1d", lambda: PointCloud(f((3, 1)), u(3)))]:
        r = call(fn)
        log.ev("badshape", which=name, raised=not r.ok, new=True)
    P = Prog()
    P.run("cloud", lambda: PointCloud(), want=dict(p=[], c=[]))


for prog in IN["progs"]:
    P = Prog()
    P.new(0, rnd.random() < 0.5)
    P.new(2, False)
    P.new(2, True)
    P.new(1, True)
    n0 = len(P.regs)
    for op, i, j in prog:
        if i <= len(P.regs) and j <= len(P.regs):
            P.step(op, i - 1, j - 1)
for k in range(IN["runs"] + IN["big"]):
    P = Prog()
    big = k >= IN["runs"]
    for _ in range(3 if big else 4):
        P.new(rnd.choice([65, 100, 127, 200, 257, 300, 1030, 2]) if big else rnd.choice([0, 1, 1, 2, 3, 5, 12]), rnd.random() < 0.6)
    for _ in range(8 if big else 14):
        i, j = rnd.randrange(len(P.regs)), rnd.randrange(len(P.regs))
        if max(c.num_points() for c in P.regs) > (1500 if big else 60) or max([0] + [float(np.abs(c.points()).max()) for c in P.regs if c.num_points()]) > 1500:
            break
        k = rnd.randrange(10)
        if k < 5:
            P.step(["append", "merge", "register", "move", "move"][k], i, j)
        elif k == 5:
            P.register([rnd.randrange(len(P.regs)) for _ in range(rnd.choice([0, 1, 3, 4]))])
        elif k == 6:
            P.thin(i)
        elif k == 7:
            P.total([rnd.randrange(len(P.regs)) for _ in range(rnd.choice([2, 3, 4]))])
        elif k == 8:
            P.ply(i)
        else:
            P.text(i)
files(IN["files"])
shapes()

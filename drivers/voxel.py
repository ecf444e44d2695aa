"""Random histories of voxel grids."""
from common import *  # noqa
import numpy as np
from sumo.threedee.voxel_grid import VoxelGrid

SUB = 8
# voxel sizes: exactly representable ones also get points exactly on cell faces
EXACT = [1, 0.5, 0.25, 2]
OTHER = [0.1, 0.05, 0.3, 0.7, 1e-3, 12.5]


class World:
    def __init__(self, k):
        self.g, self.files = [], []
        self.dir = os.path.join(WORK, "v%d" % k)
        os.makedirs(self.dir)
        self.meta = []
        log.ev("start", new=True)

    def observe(self, i):
        g, (size, corner) = self.g[i], self.meta[i]
        c = np.asarray(g.voxel_centers(), dtype=float).reshape(-1, 3)
        rel = (c - np.asarray(corner, dtype=float)) / size
        cells = np.floor(rel).astype(np.int64)
        resid = int(np.ceil(np.max(np.abs(rel - cells - .5)) * 1000)) if len(cells) else 0
        d = dict(cells=np.clip(cells, -10**9, 10**9).tolist(), resid=resid,
                 size=fx(g.voxel_size, 10**4), corner=fxs(g.min_corner, 10**4), lo=[], hi=[])
        if len(cells):
            b = g.bounds()
            d["lo"] = fxs((np.asarray(b.min_corner, dtype=float) - corner) / size, 1000)
            d["hi"] = fxs((np.asarray(b.max_corner, dtype=float) - corner) / size, 1000)
        return d

    def ev(self, op, r, same=True, **kw):
        log.ev(op, ok=r.ok, err=r.err, mro=[] if r.ok else r.mro, same=bool(same),
               obs=[self.observe(i) for i in range(len(self.g))], **kw)


def points(batch, size, corner, exact):
    out = []
    for p in batch:
        out.append([float(corner[a]) + (p[a] / SUB) * size for a in range(3)])
    return np.array(out, dtype=float).reshape(-1, 3)


def rbatch(exact, big):
    n = rnd.choice([0, 1, 1, 1, 2, 2, 3, 5])
    lim = big
    # batches that extend one, two or all axes
    ext = [rnd.choice([0, 1, lim]) for _ in range(3)]
    out = []
    for _ in range(n):
        p = []
        for a in range(3):
            cell = rnd.randint(0, ext[a])
            sub = rnd.choice([0, 1, 4, 7]) if exact else rnd.randint(1, 7)
            p.append(cell * SUB + sub)
        out.append(p)
    if out and rnd.random() < .12:
        p = rnd.choice(out)
        p[rnd.randrange(3)] = rnd.choice([-1, -7, -9, -800])
    return out


def history(k):
    w = World(k)
    exact = rnd.random() < .5
    big = rnd.choice([2, 3, 6, 6, 40, 1000, 60000])
    for _ in range(IN["len"]):
        ops = ["new"] if not w.g else ["add"] * 8 + ["save", "save", "load", "from_file", "junk"] + (["new"] if len(w.g) < 3 else [])
        op = rnd.choice(ops)
        if op == "new":
            size = rnd.choice(EXACT if exact else OTHER)
            cint = [rnd.choice([0, 0, -3, 5, -1]) for _ in range(3)]
            corner = [c * (size if exact else 1.5) for c in cint]
            dt = rnd.choice([np.float32, np.float64])
            use_default = rnd.random() < .2
            if use_default:
                corner = [0, 0, 0]
            b = rbatch(exact, big)
            pts = points(b, size, np.array(corner, dtype=float), exact)
            sz = size if rnd.random() < .93 else rnd.choice([0, -1, -size])
            kw = {}
            if not use_default:
                kw["min_corner"] = np.array(corner, dtype=dt)
            if b or rnd.random() < .5:
                kw["points"] = pts
            else:
                b = []
            before = pts.copy()
            if sz == 1 and rnd.random() < .5:
                r = call(VoxelGrid, **kw)
            else:
                r = call(VoxelGrid, sz, **kw)
            if r.ok:
                w.g.append(r.val)
                w.meta.append((sz if sz > 0 else 1, np.array(corner, dtype=dt).astype(float)))
            w.ev("new", r, np.array_equal(before, pts), batch=b, size=fx(sz, 10**4), corner=fxs(np.array(corner, dtype=dt), 10**4))
        elif op == "add":
            h = rnd.randrange(len(w.g))
            size, corner = w.meta[h]
            b = rbatch(exact, big)
            pts = points(b, size, corner, exact)
            before = pts.copy()
            r = call(w.g[h].add_points, pts)
            w.ev("add", r, np.array_equal(before, pts), h=h + 1, batch=b)
        elif op == "save":
            h = rnd.randrange(len(w.g))
            if rnd.random() < .1:
                r = call(w.g[h].save, os.path.join(w.dir, "no", "such", "dir.h5"))
                w.ev("save", r, h=h + 1, name="", where="nowhere")
                continue
            name = "f%d.h5" % rnd.randrange(3)
            r = call(w.g[h].save, os.path.join(w.dir, name))
            w.files = [f for f in w.files if f[0] != name] + [(name, w.meta[h])]
            w.ev("save", r, h=h + 1, name=name, where="here")
        elif op == "junk":
            name = "f%d.h5" % rnd.randrange(3)
            p = os.path.join(w.dir, name)
            keep = open(p, "rb").read() if os.path.exists(p) else b"hello"
            with open(p, "wb") as f:
                f.write(rnd.choice([b"", b"not hdf5", keep[:20]]))
            w.files = [f for f in w.files if f[0] != name]
            w.ev("junk", call(lambda: None), name=name)
        else:
            name = rnd.choice([f[0] for f in w.files] or ["f0.h5"]) if rnd.random() < .85 else "f%d.h5" % rnd.randrange(4)
            meta = dict(w.files).get(name)
            p = os.path.join(w.dir, name)
            if op == "load":
                h = rnd.randrange(len(w.g))
                r = call(w.g[h].load, p)
                if r.ok and meta:
                    w.meta[h] = meta
                w.ev("load", r, h=h + 1, name=name)
            else:
                if len(w.g) >= 4:
                    continue
                r = call(VoxelGrid.from_file, p)
                if r.ok and meta:
                    w.g.append(r.val)
                    w.meta.append(meta)
                w.ev("from_file", r, name=name)


for k in range(IN["runs"]):
    history(k)

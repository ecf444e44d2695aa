"""Point clouds of cube-map images."""
import numpy as np
from common import *
from sumo.images.rgbdci_360 import Rgbdci360
from sumo.images.rgbd_360 import Rgbd360

F = np.float32


def ray_length(n, r, c):
    u, v = 2 * (c % n) + 1 - n, 2 * r + 1 - n
    return math.sqrt(u * u + v * v + n * n) / n


def value(x, n, r, c):
    """x: thousandths by which the ray on the cube is scaled, or a word"""
    if isinstance(x, int):
        return F(x / 1000 * ray_length(n, r, c))
    return {"zero": F(0), "-zero": F(-0.0), "inf": F(np.inf), "-inf": F(-np.inf), "nan": F(np.nan), "negative": F(-rnd.choice([1.5, 1e-40, 3e38])),
            "tiny": F(rnd.choice([1e-45, 1e-38, 1e-20])), "huge": F(rnd.choice([3e38, 3.4028234e38, 1e30]))}[x]


INVALID = ["zero", "-zero", "inf", "-inf", "nan", "negative"]


def picture(n, w, px):
    rgb = np.frombuffer(rnd.randbytes(n * w * 3), np.uint8).reshape(n, w, 3).copy()
    a = np.array([[value(px[r * w + c], n, r, c) for c in range(w)] for r in range(n)], F).reshape(n, w)
    return rgb, a


def other(w, n):
    return [np.zeros(s, np.uint16) for s in rnd.choice([[(n, w)] * 2, [(1, 1), (n, w)]])]


def cloud(n, w, px, all_points):
    rgb, a = picture(n, w, px)
    cat, ins = other(w, n)
    keep = rgb.copy(), a.copy()
    im = Rgbdci360(rgb, a, cat, ins)
    x = call(im.create_point_cloud, all_points) if rnd.random() < .5 or all_points else call(im.create_point_cloud)
    if all_points and rnd.random() < .3:
        x = call(im.create_point_cloud, all_points=1)
    kept = np.array_equal(rgb, keep[0]) and np.array_equal(a, keep[1], equal_nan=True)
    rgb[:] = 77                          # the cloud has its own colours
    top = max([1] + [k for k in px if isinstance(k, int)])
    m = max(1, min(1000, 1900000000 // (n * top)))
    pts = cols = []
    num = -1
    if x.ok:
        num = x.val.num_points()
        p, q = x.val.points(), x.val.colors()
        pts = [[fx(v, 1000 * n * m) for v in p[:, i]] for i in range(p.shape[1])]
        cols = [[int(v) for v in q[:, i]] for i in range(q.shape[1])]
    log.ev("cloud", n=n, w=w, px=[dict(k=k, v=True, big=False) if isinstance(k, int) else dict(k=0, v=k in ("tiny", "huge"), big=k == "huge") for k in px], all=bool(all_points), m=m,
           rgb=keep[0].reshape(-1, 3).tolist(), ok=x.ok, err=x.err, num=num, points=pts, colors=cols, kept=bool(kept))


def sparse(n, w):
    """a big picture in which only a few pixels are valid"""
    top = rnd.choice([1000, 3000, 8000])
    rgb = np.frombuffer(rnd.randbytes(n * w * 3), np.uint8).reshape(n, w, 3).copy()
    a = np.full((n, w), value(rnd.choice(INVALID), 1, 0, 0), F)
    edge = [0, 1, n // 2 - 1, n // 2, n - 2, n - 1]
    at = {(rnd.choice(edge), n * f + rnd.choice(edge)) for f in range(6) for _ in range(3)} | {(rnd.randrange(n), rnd.randrange(w)) for _ in range(12)}
    at |= {(r, n * f + c) for f in range(6) for r in (0, n - 1) for c in (0, n - 1)}
    at = sorted(x for x in at if x[1] < w)
    ks = [rnd.choice([1000, rnd.randint(1, top)]) for _ in at]
    for (r, c), k in zip(at, ks):
        a[r, c] = value(k, n, r, c)
    cat, ins = other(w, n)
    x = call(Rgbdci360(rgb, a, cat, ins).create_point_cloud)
    pts = cols = []
    if x.ok:
        p, q = x.val.points(), x.val.colors()
        pts = [[fx(v, 1000 * n) for v in p[:, i]] for i in range(p.shape[1])]
        cols = [[int(v) for v in q[:, i]] for i in range(q.shape[1])]
    log.ev("sparse", n=n, w=w, at=[list(x) for x in at], px=[dict(k=k, v=True, big=False) for k in ks], rgb=[rgb[r, c].tolist() for r, c in at], m=1,
           ok=x.ok, err=x.err, points=pts, colors=cols)


def pixel(top):
    x = rnd.random()
    if x < .35:
        return rnd.choice(INVALID)
    if x < .4:
        return rnd.choice(["tiny", "huge"])
    return rnd.choice([1, 1000, rnd.randint(1, top), rnd.randint(1, top)])


for s in IN["scans"]:
    cloud(s["n"], 6 * s["n"], [rnd.randint(1, 3000) if v else rnd.choice(INVALID) for v in s["valid"]], s["all"])
for n in IN["sides"]:                                # every pixel once
    for a in (False, True):
        cloud(n, 6 * n, [rnd.randint(1, 5000) for _ in range(6 * n * n)], a)
for _ in range(IN["sparse"]):
    n = rnd.choice([rnd.randint(9, 60), rnd.randint(40, 130), rnd.randint(60, 250), 55, 64, 128, 200])
    sparse(n, 6 * n if rnd.random() < .8 else rnd.randint(1, 6 * n))
for _ in range(IN["random"]):
    n = rnd.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8])
    w = 6 * n if rnd.random() < .8 else rnd.randint(1, 6 * n)
    top = rnd.choice([1000, 20000, 1000000])
    px = [pixel(top) for _ in range(n * w)]
    if rnd.random() < .1:
        px = [rnd.choice(INVALID) for _ in px]
    cloud(n, w, px, rnd.random() < .4)
for _ in range(IN["refused"]):
    n = rnd.randint(1, 4)
    w = 6 * n
    rgb, a = picture(n, w, [pixel(1000) for _ in range(n * w)])
    cat, ins = other(w, n)
    what = rnd.choice(["size", "size", "wide", "strided", "type"])
    if what == "size":
        h2, w2 = rnd.choice([(n, w + 1), (n + 1, w), (n, w - 1), (w, n), (n * 2, w // 2), (2 * n, 12 * n), (n + 1, w + 6)])
        a = np.ones((h2, w2), F)
        if rnd.random() < .5 and h2 * 6 >= w2:
            rgb, a = np.zeros((h2, w2, 3), np.uint8), np.ones((n, w), F)
    elif what == "wide":
        w2 = w + rnd.randint(1, 8)
        rgb, a = np.zeros((n, w2, 3), np.uint8), np.ones((n, w2), F)
    elif what == "strided":
        if rnd.random() < .5:
            a = np.repeat(a, 2, axis=1)[:, ::2]
        else:
            rgb = rgb[:, ::-1]
    else:
        k = rnd.randrange(4)
        args = [rgb, a, cat, ins]
        args[k] = rnd.choice([args[k].astype(np.float64), args[k].astype(bool), args[k].reshape(-1)])
        x = call(Rgbdci360, *args)
        y = call(Rgbd360, *args[:2])
        log.ev("type", k=k, ok=x.ok, type=isa(x, "TypeError"), ok360=y.ok, type360=isa(y, "TypeError"))
        continue
    x = call(Rgbdci360(rgb, a, cat, ins).create_point_cloud, rnd.random() < .5)
    log.ev("refuse", what=what, ok=x.ok, err=x.err, value=isa(x, "ValueError"))

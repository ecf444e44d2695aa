"""Rotations and poses: programs over registers of live poses, constructors, conversions."""
import copy
import itertools
import math
import numpy as np
from common import *
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.geometry.quaternion import Quaternion
from sumo.base import vector as V
from sumo.metrics import utils as U

K, T = 10000, 1000
ANG = [(0, 1, 1), (1, 0, 1), (0, -1, 1), (-1, 0, 1), (3, 4, 5), (-3, 4, 5), (4, -3, 5), (-4, -3, 5), (5, 12, 13), (-5, -12, 13),
       (7, 24, 25), (-24, 7, 25), (8, 15, 17), (15, -8, 17), (20, 21, 29)]
SMALL = ANG[:8]
AXES = [((1, 0, 0), 1), ((0, 1, 0), 1), ((0, 0, -1), 1), ((1, 2, 2), 3), ((-2, 1, 2), 3), ((2, 3, 6), 7), ((6, -2, 3), 7), ((0, 3, -4), 5)]


def qmat(q):
    w, x, y, z = [float(v) for v in q]
    n = w * w + x * x + y * y + z * z
    return np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]) / n


CUBE = sorted({tuple(q) for q in itertools.product((-1, 0, 1), repeat=4)
               if any(q) and np.all(np.abs(qmat(q) - np.round(qmat(q))) < 1e-9)})


def randq():
    while True:
        q = [rnd.randrange(-4, 5) for _ in range(4)]
        if any(q):
            return q


def ang(a):
    return math.atan2(a[0], a[1])


def snap(ps):
    return [(np.array(p.R.R, dtype=float).copy(), np.array(p.t, dtype=float).copy()) for p in ps]


def same(ps, s):
    return all(np.array_equal(np.asarray(p.R.R, dtype=float), a) and np.array_equal(np.asarray(p.t, dtype=float), b) for p, (a, b) in zip(ps, s))


def pr(p):
    return dict(r=fxs(p.R.R, K), t=fxs(np.asarray(p.t).reshape(-1), T))


def randt():
    return [rnd.randrange(-8, 9) for _ in range(3)]


def mkpose(q, t):
    m, v = qmat(q), np.array(t, dtype=float)
    how = rnd.randrange(5)
    if how == 0:
        return Pose3(m, v)
    if how == 1:
        return Pose3(Rot3(m), v)
    if how == 2:
        return Pose3(R=Rot3.FromScalars(*m.reshape(-1)), t=V.Vector3(*v))
    if how == 3:
        return Pose3.FromMatrix34(np.column_stack([m, v]))
    return Pose3(Quaternion(np.array(q, dtype=float)).to_rotation_matrix(), v)


def program(exact, n):
    regs = []

    def rec(op, r, s, **kw):
        d = dict(ok=r.ok, exact=exact, same=same(regs, s), **kw)
        if not regs and op == "pose":
            d["new"] = True
        if r.ok and op in ("pose", "compose", "inverse"):
            d.update(pr(r.val))
            d["same"] = d["same"] and same([r.val], snap([r.val]))
            regs.append(r.val)
        log.ev(op, **d)

    for _ in range(3):
        q, t = (rnd.choice(CUBE) if exact else randq()), randt()
        s = snap(regs)
        rec("pose", call(mkpose, q, t), s, q=list(q), want=[T * x for x in t])
        if not regs:
            return
    for _ in range(n):
        s = snap(regs)
        i, j = rnd.randrange(len(regs)), rnd.randrange(len(regs))
        a, b = regs[i], regs[j]
        small = max(abs(np.concatenate([a.t, b.t]))) < 25
        k = rnd.randrange(12)
        if k <= 2 and not small:
            k = 3
        if k <= 2:
            rec("compose", call(a.compose, b) if k else call(lambda: a * b), s, a=i + 1, b=j + 1)
        elif k == 3:
            rec("inverse", call(a.inverse), s, a=i + 1)
        elif k <= 7:
            m = rnd.choice([1, 1, 2, 3, 3, 5])
            pts = [[rnd.randrange(-9, 10) for _ in range(3)] for _ in range(m)]
            arr = np.array(pts, dtype=float).T
            one = m == 1 and rnd.random() < 0.8
            arr = arr[:, 0].copy() if one else arr
            if rnd.random() < 0.3:
                arr = np.asfortranarray(arr).astype(np.float32)
            keep = arr.copy()
            R = a.R
            op, f = {4: ("from", [lambda: a * arr, lambda: a.transform_from(arr) if one else a.transform_all_from(arr)][rnd.randrange(2)]),
                     5: ("to", lambda: a.transform_to(arr) if one else a.transform_all_to(arr)),
                     6: ("rotate", [lambda: R * arr, lambda: R.rotate(arr)][rnd.randrange(2)]),
                     7: ("unrotate", lambda: R.unrotate(arr))}[k]
            r = call(f)
            out = fxs(np.asarray(r.val).reshape(3, -1).T, T) if r.ok else []
            log.ev(op, ok=r.ok, exact=exact, same=same(regs, s) and bool(np.array_equal(keep, arr)), a=i + 1, p=fxs(np.array(pts), T), out=out,
                   shape_ok=r.ok and np.asarray(r.val).shape == arr.shape)
        elif k == 8:
            f = [lambda: (a.R * b.R).R, lambda: a.R * b.R.R][rnd.randrange(2)]
            r = call(f)
            log.ev("rcompose", ok=r.ok, exact=exact, same=same(regs, s), a=i + 1, b=j + 1, r=fxs(r.val, K) if r.ok else [])
        elif k == 9:
            r = call(lambda: a.rotation().inverse().matrix())
            log.ev("rinverse", ok=r.ok, exact=exact, same=same(regs, s), a=i + 1, r=fxs(r.val, K) if r.ok else [])
        elif k == 10:
            def parts():
                m34, m44 = a.matrix34(), a.matrix()
                assert m34.shape == (3, 4) and m44.shape == (4, 4)
                back = Pose3.FromMatrix34(m34.copy())
                R = a.rotation()
                return dict(cols=[fxs(R(c), K) for c in range(3)], m34r=fxs(m34[:, :3], K), m34t=fxs(m34[:, 3], T),
                            m44r=fxs(m44[:3, :3], K), m44t=fxs(m44[:3, 3], T), last=fxs(m44[3], K),
                            backr=fxs(back.R.R, K), backt=fxs(back.translation(), T),
                            colsr=fxs(Rot3.FromColumns(R(0), R(1), R(2)).R, K), scalr=fxs(Rot3.FromScalars(*R.R.reshape(-1)).R, K))
            r = call(parts)
            log.ev("parts", ok=r.ok, exact=exact, same=same(regs, s), a=i + 1, **(r.val if r.ok else {}))
        else:
            if rnd.random() < 0.5:     # an equal pose reached another way
                b = call(lambda: a.inverse().inverse()).val
                rec("inverse", call(a.inverse), s, a=i + 1)
                s = snap(regs)
                rec("inverse", call(regs[-1].inverse), s, a=len(regs))
                j, b, s = len(regs) - 1, regs[-1], snap(regs)
            x, y = call(lambda: bool(a.almost_equal(b, rtol=0, atol=1e-4))), call(lambda: a.assert_almost_equal(b, 3))
            z, w = call(lambda: bool(a.R.almost_equal(b.R, rtol=0, atol=1e-4))), call(lambda: a.R.assert_almost_equal(b.R, 3))
            log.ev("equal", ok=x.ok and z.ok, exact=exact, same=same(regs, s), a=i + 1, b=j + 1, almost=bool(x.val), assertalmost=y.ok,
                   ralmost=bool(z.val), rassert=w.ok)


def ctor(kind, f, want=(0, 0, 0), q=None, angs=(), d=(1, 0, 0), n=1, arrs=()):
    keep = [x.copy() for x in arrs]
    r = call(f)
    val = r.val
    t = [0, 0, 0]
    if r.ok:
        if isinstance(val, Pose3):
            t = fxs(val.t, T)
            val = val.R
        val = fxs(val.R if isinstance(val, Rot3) else val, K)
    log.ev("ctor", kind=kind, ok=r.ok, r=val, t=t, want=[T * x for x in want], q=list(q or []), ang=[list(a) for a in angs], d=list(d), n=n,
           same=all(np.array_equal(a, b) for a, b in zip(keep, arrs)), new=True)


def ctors(n):
    for a in ANG:
        for nm in ("Rx", "Ry", "Rz"):
            ctor(nm, lambda: getattr(Rot3, nm)(ang(a)), angs=[a])
        for d, m in AXES:
            v = np.array(d, dtype=float) / m
            ctor("axis", lambda: Rot3.AxisAngle(v, ang(a)), angs=[a], d=d, n=m, arrs=[v])
    for _ in range(n):
        tri = [rnd.choice(ANG) for _ in range(3)]
        while tri[0][2] * tri[1][2] * tri[2][2] > 9000:
            tri = [rnd.choice(ANG) for _ in range(3)]
        r, p, y = map(ang, tri)
        t = randt()
        v = np.array(t, dtype=float)
        ctor("enu", lambda: Rot3.ENU_camera(r, p, y), angs=tri)
        ctor("maya", lambda: Rot3.Maya_camera(roll=r, pitch=p, yaw=y), angs=tri)
        ctor("enu", lambda: Pose3.ENU_camera(r, p, y, v), angs=tri, want=t, arrs=[v])
        ctor("maya", lambda: Pose3.Maya_camera(yaw=y, pitch=p, roll=r, position=v), angs=tri, want=t, arrs=[v])
        e = np.array([r, p, y])
        ctor("euler", lambda: U.euler_to_matrix(e), angs=tri, arrs=[e])
        ctor("euler", lambda: U.quat_to_matrix(U.euler_to_quat(e)), angs=tri, arrs=[e])
        ctor("euler", lambda: Quaternion(U.euler_to_quat(e)).to_rotation_matrix(), angs=tri, arrs=[e])
    for q in list(CUBE) + [randq() for _ in range(n)]:
        v = np.array(q, dtype=float)
        u = v / np.linalg.norm(v)
        m = qmat(q)
        ctor("quat", lambda: Quaternion(v).to_rotation_matrix(), q=q, arrs=[v])
        ctor("quat", lambda: U.quat_to_matrix(u), q=q, arrs=[u])
        ctor("quat", lambda: Quaternion(m).to_rotation_matrix(), q=q, arrs=[m])
        for name, f, a in (("eigen", lambda: Quaternion(m).as_vector(), m), ("eigenT", lambda: Quaternion(np.asfortranarray(m)).as_vector(), m),
                           ("utils", lambda: U.matrix_to_quat(m), m)):
            keep = a.copy()
            r = call(f)
            log.ev("toquat", new=True, kind=name, ok=r.ok, q=list(q), out=fxs(r.val, K) if r.ok else [], same=bool(np.array_equal(keep, a)))
        for name, f, a in (("quat", lambda: U.quat_to_euler(u), u), ("matrix", lambda: U.matrix_to_euler(m), m)):
            keep = a.copy()
            r = call(f)
            sc = [[fx(math.sin(x), 1000), fx(math.cos(x), 1000)] for x in r.val] if r.ok else []
            log.ev("toeuler", new=True, kind=name, ok=r.ok, q=list(q), sc=sc, same=bool(np.array_equal(keep, a)))
    for v, k in [((0, 0, 0), 0), ((3, 4), 5), ((-4, 3), 5), ((1, 2, 2), 3), ((2, -3, 6), 7), ((0, 0, -5), 5), ((5, -12), 13), ((1, 1, 1, -1), 2)]:
        for dt in (np.float64, np.float32, np.int64):
            r = call(V.unitize, np.array(v, dtype=dt))
            log.ev("vec", new=True, kind="unitize", v=list(v), n=k, out=fxs(r.val, K) if r.ok else [])
    for _ in range(n):
        vs = [[rnd.randrange(-3, 4) for _ in range(3)] for _ in range(4)]
        r = call(V.on_left, *[np.array(x, dtype=float) for x in vs])
        log.ev("vec", new=True, kind="left", v=vs, n=0, out=bool(r.val) if r.ok else "raised")


for k in range(IN["runs"]):
    program(k % 2 == 0, 25)
ctors(IN["n"])

"""Pose serialisations: every description of the specification, and written forms of many poses read back."""
import copy
import io
import itertools
import json as js
import math
import os
import xml.etree.ElementTree as ET
import numpy as np
from common import *
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.base import vector as V

CUBE = []
for p in itertools.permutations(range(3)):
    for sg in itertools.product((1, -1), repeat=3):
        m = np.zeros((3, 3))
        for i in range(3):
            m[i, p[i]] = sg[i]
        if np.linalg.det(m) > 0:
            CUBE.append(m)


def text(base, n):
    if n == -2:
        return None
    if n == -1:
        return rnd.choice(["abc", "x, y, z", "  "])
    v = ["%g" % (base + i) for i in range(n)]
    return rnd.choice([", ", ",", " , "]).join(v) if n else ""


def rot_elem(root, kids):
    e = ET.Element(root)
    for k, c in enumerate(kids, 1):
        ET.SubElement(e, c["tag"]).text = text(100 * k, c["n"])
    return e


def pose_elem(root, kids):
    e = ET.Element(root)
    for k, c in enumerate(kids, 1):
        if c["tag"] == "rotation":
            if c["n"] == 3:
                r = rot_elem("rotation", [dict(tag="c%d" % (i + 1), n=3) for i in range(3)])
                for i in range(3):
                    r[i].text = text(100 * k + 10 * i, 3)
            else:
                r = rot_elem("rotation", [dict(tag="c1", n=3), dict(tag="c2", n=c["n"]), dict(tag="c3", n=3)])
            e.append(r)
        else:
            ET.SubElement(e, c["tag"]).text = text(100 * k, c["n"])
    return e


def from_child(vals, base=0):
    """which child do three values come from (0: not the values of one child)"""
    v = [fx(x, 1) for x in vals]
    k = v[0] // 100
    return k if v == [100 * k + base + i for i in range(3)] else 0


def doc(d):
    if d["kind"] == "rotation":
        e = rot_elem(d["root"], d["kids"])
        f, got = Rot3.from_xml, lambda r: {"c%d" % (i + 1): from_child(r.R[:, i]) for i in range(3)}
    else:
        e = pose_elem(d["root"], d["kids"])

        def got(p):
            ks = {from_child(p.R.R[:, i], 10 * i) for i in range(3)}
            return {"translation": from_child(p.t), "rotation": ks.pop() if len(ks) == 1 else 0}
        f = Pose3.from_xml
    if rnd.random() < 0.5:
        e = ET.fromstring(ET.tostring(e))
    r = call(f, e)
    log.ev("doc", kind=d["kind"], root=d["root"], kids=d["kids"], ok=r.ok, got=got(r.val) if r.ok else {})


def hx(a):
    return [[float(x).hex() for x in row] for row in np.atleast_2d(np.asarray(a, dtype=float))]


def scaled(a, b):
    """two arrays in units of 1e-8 of the power of ten above their largest entry (at least 10)"""
    m = max(10, float(np.max(np.abs(a))))
    s = 10.0 ** (9 - math.ceil(math.log10(m)))
    return fxs(np.atleast_2d(a), s), fxs(np.atleast_2d(b), s)


def each(a, b):
    """pairs of components, each in millionths of the power of ten at the first one"""
    out = []
    for x, y in zip(np.ravel(a), np.ravel(b)):
        k = 10.0 ** (6 - math.floor(math.log10(abs(x)))) if x else 1e6
        out.append([fx(x * k, 1), fx(max(-2e9, min(2e9, y * k)), 1)])
    return out


def randrot():
    k = rnd.randrange(4)
    if k == 0:
        return rnd.choice(CUBE).copy()
    if k == 1:      # nearly a multiple of a right angle
        d = np.array([rnd.gauss(0, 1) for _ in range(3)])
        return rnd.choice(CUBE).dot(Rot3.AxisAngle(d / np.linalg.norm(d), 10.0 ** -rnd.randrange(2, 11)).R)
    d = np.array([rnd.gauss(0, 1) for _ in range(3)])
    a = rnd.choice([rnd.uniform(-math.pi, math.pi), math.pi, -math.pi / 2, 2 * math.pi / 3, rnd.uniform(3, math.pi)])
    m = Rot3.AxisAngle(d / np.linalg.norm(d), a).R
    return np.asfortranarray(m) if k == 2 else m


def randt():
    k = rnd.randrange(7)
    v = [rnd.uniform(-1, 1) for _ in range(3)]
    if k == 0:
        v = [float(rnd.randrange(-9, 10)) for _ in range(3)]
    elif k == 1:
        v = [x * 10.0 ** rnd.randrange(-9, 7) for x in v]
    elif k == 2:
        v = [x * 10.0 ** rnd.randrange(0, 9) for x in v]
    elif k == 3:
        v = [rnd.choice([0.0, -0.0, 1.0, 1e-5, 123456.789, -0.1234567894]) for _ in range(3)]
    elif k == 4:
        v = [x * 10.0 ** -rnd.randrange(3, 12) for x in v]
    elif k == 5:
        v = [x * 10 + rnd.randrange(-50, 50) for x in v]
    return np.array(v)


def trip(form, p, f, exact, val=lambda p: (p.R.R, p.t)):
    R0, t0 = np.array(p.R.R), np.array(p.t)
    r = call(f)
    same = bool(np.array_equal(R0, p.R.R) and np.array_equal(t0, p.t))
    if not r.ok:
        log.ev("trip", form=form, ok=False, err=r.err, exact=exact)
        return
    R1, t1 = val(r.val)
    shape = bool(np.shape(R1) == (3, 3) and np.shape(t1) == (3,))
    d = dict(form=form, ok=True, exact=exact, same=same, shape=shape)
    if not shape:
        R1, t1 = np.zeros((3, 3)), np.zeros(3)
    if exact:
        d.update(r0=hx(R0), r1=hx(R1), t0=hx(t0), t1=hx(t1))
    else:
        d["r0"], d["r1"] = fxs(R0, 1e9), fxs(R1, 1e9)
        d["t0"], d["t1"] = scaled(t0, t1)
        if "xml" in form:
            d["each"] = each(R0, R1) + each(t0, t1)
    if form == "surreal":
        d["x0"], d["x1"] = hx(t0), hx(t1)
    log.ev("trip", **d)


def indent(xml, k):
    if k == 0:
        return xml
    e = ET.fromstring(xml)
    for x in e.iter():
        if len(x):
            x.text = "\n   "
        x.tail = "\n"
    if k == 2:
        for x in e.iter():
            if not len(x):
                x.text = "\n  " + x.text.replace(", ", " ,\n") + " "
    return ET.tostring(e)


def trips(n):
    for _ in range(n):
        p = Pose3(Rot3(randrot()), randt())
        ps = [p]
        if rnd.random() < 0.3:
            ps.append(p.inverse())
        if rnd.random() < 0.3:
            ps.append(p.compose(Pose3(randrot(), randt())))
        for p in ps:
            p = Pose3(Rot3(np.array(p.R.R, order="K")), np.array(p.t))
            k = rnd.randrange(3)
            trip("xml", p, lambda: Pose3.from_xml(p.to_xml()), False)
            trip("xmltext", p, lambda: Pose3.from_xml(ET.fromstring(indent(ET.tostring(p.to_xml()), k))), False)

            def twice():
                e = p.to_xml()
                e2 = p.to_xml()
                Pose3.from_xml(e)
                assert ET.tostring(e) == ET.tostring(e2)
                return Pose3.from_xml(Pose3.from_xml(e).to_xml())
            trip("xmltwice", p, twice, False)
            trip("rotxml", p, lambda: Pose3(Rot3.from_xml(p.R.to_xml()), p.t), False)
            trip("json", p, lambda: Pose3.from_json(p.to_json()), True)
            trip("jsontext", p, lambda: Pose3.from_json(js.loads(js.dumps(p.to_json()))), True)
            trip("rotjson", p, lambda: Pose3(Rot3.from_json(js.loads(js.dumps(p.R.to_json()))), p.t), True)
            trip("surreal", p, lambda: Pose3.from_surreal(p.to_surreal()), False)
            trip("surrealtext", p, lambda: Pose3.from_surreal(js.loads(js.dumps(p.to_surreal()))), False)
            trip("matrix34", p, lambda: Pose3.FromMatrix34(p.matrix34()), True)
            # a record written earlier does not follow later changes of the pose
            j, s, x = p.to_json(), p.to_surreal(), p.to_xml()
            q = Pose3(Rot3(np.array(p.R.R)), np.array(p.t))
            p.t[1] += 1000
            p.R.R[0, 1] += 1
            trip("keptjson", q, lambda: Pose3.from_json(j), True)
            trip("keptxml", q, lambda: Pose3.from_xml(x), False)
            trip("keptsurreal", q, lambda: Pose3.from_surreal(s), False)


def records():
    """the documented records, read by hand, and broken ones"""
    for m in CUBE + [randrot() for _ in range(20)]:
        t = randt()
        p = Pose3(m, t)
        trip("jsonread", p, lambda: Pose3.from_json({"Rotation": {f: list(m[:, i]) for i, f in enumerate("XYZ")}, "Translation": list(t)}), True)
        j = p.to_json()
        for i, f in enumerate("XYZ"):
            log.ev("record", form="json", part=f, got=hx(j["Rotation"][f]), want=hx(m[:, i]))
        log.ev("record", form="json", part="t", got=hx(j["Translation"]), want=hx(t))
    for q in itertools.product((-2, -1, 0, 1, 3), repeat=4):
        if not any(q):
            continue
        w, x, y, z = q
        t = [1.5 * q[0], -2.0, q[3] + 0.25]
        r = call(Pose3.from_surreal, {"QuaternionXYZW": [x, y, z, w], "Translation": t})
        u = np.array([x, y, z, w]) / math.sqrt(w * w + x * x + y * y + z * z)
        r2 = call(Pose3.from_surreal, {"QuaternionXYZW": list(u), "Translation": t})
        s = call(lambda: r2.val.to_surreal())
        log.ev("squat", ok=r.ok and r2.ok and s.ok, q=list(q), r=fxs(r2.val.R.R, 10000) if r2.ok else [], t=hx(r2.val.t) if r2.ok else [], want=hx(t),
               out=fxs([s.val["QuaternionXYZW"][i] for i in (3, 0, 1, 2)], 10000) if s.ok else [], ot=hx(s.val["Translation"]) if s.ok else [])
    good = Pose3(CUBE[5], np.array([1.0, 2, 3])).to_json()
    vals = [None, "none", [], [1.0], [1.0, 2.0], [1.0, 2.0, 3.0, 4.0], "abc", 5]
    for part in ("Rotation", "Translation", "X", "Y", "Z"):
        for v in vals:
            d = copy.deepcopy(good)
            h = d if part in d else d["Rotation"]
            if v == "none":
                del h[part]
            else:
                h[part] = v
            r = call(Pose3.from_json, d)
            log.ev("broken", form="json", part=part, v=str(v), raised=not r.ok, valueerror=isa(r, "ValueError"))
    for v in ([1.0], [1.0, 2.0], "abc", "none"):
        d = copy.deepcopy(good["Rotation"])
        for f in "XYZ":
            if v == "none":
                d.pop(f)
            else:
                d[f] = v
        r = call(Rot3.from_json, d)
        log.ev("broken", form="json", part="all", v=str(v), raised=not r.ok, valueerror=isa(r, "ValueError"))
    for key in ("QuaternionXYZW", "Translation"):
        d = {"QuaternionXYZW": [0, 0, 0, 1], "Translation": [0, 0, 0]}
        del d[key]
        r = call(Pose3.from_surreal, d)
        log.ev("broken", form="surreal", part=key, v="missing", raised=not r.ok, valueerror=True)


for d in IN["docs"]:
    doc(d)
trips(IN["n"])
records()

"""Rotation errors of pairs of rotations, for every symmetry combination."""
import warnings
from common import *  # noqa
warnings.filterwarnings("ignore")
import numpy as np
from eval_toy import ToyEvaluator, SIM, quat_R, sym, VALID, CUBE
from sumo.base.vector import Vector3
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.metrics.evaluator import Evaluator
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d


def obj(key, q, s):
    return ProjectObject.gen_bounding_box_object(
        id=key, bounds=Box3d(np.array([0., 0, 0]), np.array([1., 1, 1])), symmetry=sym(s), score=0.5,
        category="chair", pose=Pose3(R=Rot3(quat_R(q)), t=Vector3(1, 2, 3)))


def rot_error(d, g, s, via):
    """through pose_error of a one-object scene, or rotation_error_1 directly"""
    dets, gts = ProjectScene("bounding_box"), ProjectScene("bounding_box")
    dets.elements["a"] = obj("a", d, rnd.choice(VALID))
    gts.elements["b"] = obj("b", g, s)
    SIM.clear(); SIM["a"] = {"b": 0.9}
    st = Evaluator.default_settings()
    st["thresholds"] = np.array([0.5])
    st["categories"] = ["chair"]
    ev = ToyEvaluator(dets, gts, st)
    if via == "pose":
        return ev.pose_error()[0]
    return ev.rotation_error_1(dets.elements["a"], gts.elements["b"])


def rq(k):
    while True:
        q = [rnd.randint(-k, k) for _ in range(4)]
        if any(q):
            return q


def qmul(a, b):
    return [a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3], a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2],
            a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1], a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0]]


def record(d, g, s):
    via = rnd.choice(["pose", "direct"])
    r = call(rot_error, d, g, s, via)
    e = dict(d=d, g=g, sym=s, ok=r.ok, err=r.err, sin2=0, ang=0)
    if r.ok:
        x = float(np.real(r.val))
        e["sin2"] = fx(math.sin(x / 2) ** 2, 10 ** 6) if -1e-9 <= x <= math.pi + 1e-6 else 2000000001
    log.ev("rot", **e)


if __name__ == "__main__":
    for inst in IN.get("instances", []):
        record(inst["d"], inst["g"], inst["sym"])
    for k in range(IN["random"]):
        s = VALID[k % len(VALID)]
        mode = rnd.random()
        if mode < .25:
            d, g = rnd.choice(CUBE), rnd.choice(CUBE)
        elif mode < .5:
            # nearly equivalent orientations: a cube rotation (the symmetric ones among them) plus a bit
            g = rq(2)
            d = qmul(qmul(g, rnd.choice(CUBE)), [rnd.choice([20, 4, 7])] + [rnd.randint(-1, 1) for _ in range(3)])
            if max(abs(v) for v in d) > 50:
                continue
        else:
            d, g = rq(4), rq(4)
        record(d, g, s)

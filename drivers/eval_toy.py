"""Evaluates toy scenes with the real Evaluator.  Shape similarity is a documented hook of the
base class (each track defines its own); here it is a given matrix, so every instance of the
specification can be realised exactly."""
import warnings
from common import *  # noqa
import numpy as np
warnings.filterwarnings("ignore")
from sumo.base.vector import Vector3
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.metrics.evaluator import Evaluator
import sumo.metrics.utils as utils
from sumo.semantic.object_symmetry import ObjectSymmetry, SymmetryType
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d

AU = 2520 * 2520
PU = 2520
CUBE = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1],
        [1, 1, 0, 0], [1, -1, 0, 0], [1, 0, 1, 0], [1, 0, -1, 0], [1, 0, 0, 1], [1, 0, 0, -1],
        [0, 1, 1, 0], [0, 1, -1, 0], [0, 1, 0, 1], [0, 1, 0, -1], [0, 0, 1, 1], [0, 0, 1, -1],
        [1, 1, 1, 1], [1, 1, 1, -1], [1, 1, -1, 1], [1, 1, -1, -1],
        [1, -1, 1, 1], [1, -1, 1, -1], [1, -1, -1, 1], [1, -1, -1, -1]]
n, t, f, cy, s = "none", "twoFold", "fourFold", "cylindrical", "spherical"
VALID = [[n, n, n], [t, n, n], [n, t, n], [n, n, t], [f, n, n], [n, f, n], [n, n, f],
         [f, t, t], [t, f, t], [t, t, f], [f, f, f], [t, t, t], [cy, n, n], [n, cy, n], [n, n, cy],
         [cy, t, t], [t, cy, t], [t, t, cy], [s, s, s]]
SIM = {}


class ToyEvaluator(Evaluator):
    def _shape_similarity(self, element1, element2):
        return SIM[element1.id][element2.id]


def quat_R(q):
    w, x, y, z = q
    nn = float(w * w + x * x + y * y + z * z)
    M = np.array([[w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)],
                  [2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)],
                  [2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z]]) / nn
    return M


def sym(names):
    return ObjectSymmetry(*[SymmetryType[k] for k in names])


def make_scene(side, p, order, score_of):
    elements = []
    for i in order:
        key = str(i + 1)
        if side == "d":
            kw = dict(category=p["dcat"][i], score=score_of(p["sc"][i]), evaluated=p["dev"][i],
                      symmetry=sym(p["dsym"][i]))
            pos, q, size, mn = p["dpos"][i], p["dq"][i], p["dsize"][i], p["dmin"][i]
        else:
            kw = dict(category=p["gcat"][i], score=p["gscore"][i], evaluated=p["ev"][i],
                      symmetry=sym(p["gsym"][i]))
            pos, q, size, mn = p["gpos"][i], p["gq"][i], p["gsize"][i], p["gmin"][i]
        mn = np.array(mn, dtype=float)
        bounds = Box3d(mn, mn + np.array(size, dtype=float))
        pose = Pose3(R=Rot3(quat_R(q)), t=Vector3(*[v / 1000.0 for v in pos]))
        elements.append(ProjectObject.gen_bounding_box_object(id=key, bounds=bounds, pose=pose, **kw))
    scene = ProjectScene("bounding_box")
    for e in elements:
        scene.elements[e.id] = e
    return scene


def assoc_of(ev, p, ths):
    """the association, where the evaluator still keeps it under its present name"""
    try:
        a = ev._agnostic_data_assoc
        nd = len(p["sc"])
        agn = []
        for tt in ths:
            m = [0] * nd
            for d, corr in a[tt].items():
                m[int(d) - 1] = int(corr.gt_id)
            agn.append(m)
        catm = []
        for cat, per in ev._category_data_assoc.items():
            for k, tt in enumerate(ths):
                m = [0] * nd
                for d, corr in per[tt].items():
                    m[int(d) - 1] = int(corr.gt_id)
                catm.append({"cat": cat, "k": k + 1, "m": m})
        return True, agn, catm
    except (AttributeError, KeyError, TypeError, ValueError, IndexError):
        return False, [], []


MONO = [lambda v: v * 0.1, lambda v: v * 3 + 7, lambda v: -1.0 / v, lambda v: v - 5, lambda v: math.exp(v), lambda v: 0.5 + v * 1e-7]
# similarities and thresholds only matter by their order
SIMMAP = [lambda v: v / 100.0] * 3 + [lambda v: 0.2 + v * 2e-6, lambda v: (v / 100.0) ** 3, lambda v: 1 - (100 - v) * 1e-9]


def evaluate(p, what):
    nd, ng = len(p["sc"]), len(p["gcat"])
    SIM.clear()
    smap = rnd.choice(SIMMAP)
    for d in range(nd):
        SIM[str(d + 1)] = {str(g + 1): smap(p["sim"][d][g]) for g in range(ng)}
    od, og = list(range(nd)), list(range(ng))
    rnd.shuffle(od), rnd.shuffle(og)
    sub = make_scene("d", p, od, rnd.choice(MONO))
    gt = make_scene("g", p, og, None)
    ths_in = [smap(v) for v in p["ths"]]
    rnd.shuffle(ths_in)
    settings = Evaluator.default_settings()
    settings["thresholds"] = np.array(ths_in)
    settings["categories"] = list(p["cats"])
    if p.get("perc"):
        settings["perceptual"] = {
            k: ({"weight": v["w"], "mean": v["mean"] / 1000.0, "std_dev": v["std"] / 1000.0} if isinstance(v, dict) else v)
            for k, v in p["perc"].items()}
    else:
        p["perc"] = DEFPERC
    ths = [smap(v) for v in p["ths"]]
    r = call(ToyEvaluator, sub, gt, settings)
    e = dict(p=p, ok=r.ok, err=r.err, agn=[], catm=[], hasassoc=False, shape=0, sem=0, trans=0, rot=0, perc=0)
    if r.ok:
        ev = r.val
        e["hasassoc"], e["agn"], e["catm"] = assoc_of(ev, p, ths)
        need = {"M01": "sS", "M02": "sS", "M04": "p", "M06": "P"}[what]
        rs = []
        if "s" in need and any(p["ev"]):
            rs.append(call(ev.shape_score)); e["shape"] = fx(rs[-1].val, AU / 1.0) if rs[-1].ok else 0
        if "S" in need and any(v and c in p["cats"] for v, c in zip(p["ev"], p["gcat"])):
            rs.append(call(ev.semantics_score)); e["sem"] = fx(rs[-1].val, AU / 1.0) if rs[-1].ok else 0
        if "p" in need:
            rs.append(call(ev.pose_error))
            if rs[-1].ok:
                rot, tr = rs[-1].val
                e["rot"], e["trans"] = fx(rot * 180 / math.pi, 1000), fx(tr, 1000)
        if "P" in need:
            rs.append(call(ev.perceptual_score)); e["perc"] = fx(rs[-1].val, 30000) if rs[-1].ok else 0
        for x in rs:
            if not x.ok:
                e["ok"], e["err"] = False, x.err + ": " + x.msg
    log.ev("eval", **e)


# the documented defaults of the perceptual settings (thousandths)
DEFPERC = {"room_scale": {"w": 100, "mean": 1000, "std": 150}, "true_obj_scale": {"w": 5, "mean": 1000, "std": 180},
           "relative_obj_scale": {"w": 5, "mean": 1000, "std": 180}, "translation": {"w": 5, "mean": 0, "std": 500},
           "elevation": {"w": 5, "mean": 0, "std": 5}, "missed_weight": 25, "extra_weight": 25}
CATS = ["chair", "desk", "floor", "rock"]


def scene_p(nd, ng, sc, sim, ths, what, rich=True):
    p = dict(sc=sc, sim=sim, ths=ths,
             dcat=[rnd.choice(CATS) for _ in range(nd)], gcat=[rnd.choice(CATS) for _ in range(ng)],
             dev=[rnd.random() < .5 for _ in range(nd)], ev=[rnd.random() < .7 for _ in range(ng)],
             cats=rnd.sample(CATS[:3], rnd.randint(1, 3)),
             dsym=[rnd.choice(VALID) for _ in range(nd)], gsym=[rnd.choice(VALID) for _ in range(ng)],
             gscore=[rnd.choice([-1, 0.5, 3]) for _ in range(ng)],
             dpos=[], gpos=[], dq=[], gq=[], dsize=[], gsize=[], dmin=[], gmin=[])
    if rnd.random() < .5:
        p["dcat"] = [rnd.choice(p["gcat"] or CATS) for _ in range(nd)]
    for g in range(ng):
        p["gpos"].append([rnd.randint(-9, 9) * 1000 for _ in range(3)])
        p["gq"].append(rnd.choice(CUBE))
        p["gsize"].append([rnd.choice([1, 1, 2, 3, 0 if what == "M06" else 1]) for _ in range(3)])
        p["gmin"].append([rnd.randint(-3, 3) for _ in range(3)])
    for d in range(nd):
        base = rnd.randrange(ng) if ng and rnd.random() < .8 else None
        if base is None:
            p["dpos"].append([rnd.randint(-9000, 9000) for _ in range(3)])
            p["dsize"].append([rnd.choice([1, 2, 3]) for _ in range(3)])
        else:
            step = rnd.choice([1, 3, 10, 200, 2500])
            p["dpos"].append([v + rnd.randint(-3, 3) * step for v in p["gpos"][base]])
            p["dsize"].append([max(0, v + rnd.choice([0, 0, 0, 1])) for v in p["gsize"][base]])
        p["dq"].append(rnd.choice(CUBE))
        p["dmin"].append([rnd.randint(-3, 3) for _ in range(3)])
    if what == "M06":
        if rnd.random() < .6:
            p["perc"] = {k: {"w": rnd.randint(0, 40), "mean": rnd.choice([0, 500, 1000, 1500]), "std": rnd.choice([5, 100, 500, 900])}
                         for k in ("room_scale", "true_obj_scale", "relative_obj_scale", "translation", "elevation")}
            p["perc"]["room_scale"]["w"] = rnd.randint(20, 100)
            p["perc"]["missed_weight"] = rnd.choice([0, 1, 2, 5])
            p["perc"]["extra_weight"] = rnd.choice([0, 1, 2, 5])
        # scenes that are not all clamped: some floor on both sides, mostly good matches
        if ng and rnd.random() < .8:
            p["gcat"][0] = "floor"
            p["gsize"][0] = [rnd.randint(1, 4), 1, rnd.randint(1, 4)]
            p["ev"][0] = rnd.random() < .9
        if nd and rnd.random() < .8:
            p["dcat"][0] = "floor"
            p["dsize"][0] = [rnd.randint(1, 4), 1, rnd.randint(1, 4)]
    return p


def rand_sim(nd, ng, distinct, values):
    if distinct:
        vals = list(range(5, 100))
        return [rnd.sample(vals, ng) for _ in range(nd)]
    return [[rnd.choice(values) for _ in range(ng)] for _ in range(nd)]


def rand_p(what, big):
    nd, ng = rnd.randint(0, big), rnd.randint(0, big)
    ties = rnd.random() < .2
    if what == "M06":
        nd, ng = rnd.randint(1, 4), rnd.randint(1, 4)
        if rnd.random() < .3:
            nd = ng = rnd.randint(1, 3)
    if ties:
        nd, ng = min(nd, 3), min(ng, 3)
        sc = [rnd.randint(1, 3) for _ in range(nd)]
        ths = sorted(rnd.sample(range(10, 95), rnd.randint(1, 2)))
        sim = rand_sim(nd, ng, False, [0, ths[0] - 1, ths[0], ths[-1], 97])
    else:
        sc = rnd.sample(range(1, 20), nd)
        ths = sorted(rnd.sample(range(10, 95), rnd.randint(1, 4)))
        if rnd.random() < .4:
            sim = rand_sim(nd, ng, False, [ths[0] - 1] + ths + [97])
            # several equal similarities in a row are ties
            if nd * ng > 12:
                ths = ths[:2]
        else:
            sim = rand_sim(nd, ng, True, None)
    if what == "M06" and rnd.random() < .5:      # near-diagonal: most things are matched
        for i in range(min(nd, ng)):
            sim[i][i] = rnd.choice([98, 99])
    return scene_p(nd, ng, sc, sim, ths, what)


def direct(k):
    """compute_ap and compute_pr called directly"""
    for _ in range(k):
        m = rnd.randint(0, 7)
        ms = [rnd.choice([0, 1, 1, 2]) for _ in range(m)]
        nn = rnd.randint(max(1, sum(1 for x in ms if x)), 9)
        if rnd.random() < .1:
            nn = rnd.randint(1, 9)
        sc = rnd.sample(range(-5, 12), m) if rnd.random() < .75 else [rnd.randint(1, 4) for _ in range(m)]
        r = call(utils.compute_ap, np.array(ms), np.array(sc, dtype=float) * rnd.choice([1, .1, 100]), nn)
        e = dict(ms=ms, sc=sc, n=nn, ok=r.ok, err=r.err, ap=0, prec=[], rec=[])
        if r.ok:
            ap, pr, rc = r.val
            e.update(ap=fx(ap, AU), prec=fxs(pr, PU), rec=[int(math.floor(float(x) * PU + 1e-6)) for x in rc])
        log.ev("ap", **e)
        if m == 0 or len(set(sc)) != m:
            continue
        samples = sorted(rnd.sample(range(0, 9), rnd.randint(1, 9)))
        interp = rnd.random() < .5
        r = call(utils.compute_ap, np.array(ms), np.array(sc, dtype=float), nn,
                 np.array(samples) / 8.0, interp, False)
        e = dict(ms=ms, sc=sc, n=nn, ok=r.ok, err=r.err, ap=0, prec=[], samples=samples, interp=interp)
        if r.ok:
            ap, pr, rc = r.val
            e.update(ap=fx(ap, PU), prec=fxs(pr, PU))
        log.ev("sampled", **e)


if __name__ == "__main__":
    what = IN["what"]
    for inst in IN.get("instances", []):
        nd, ng = len(inst["sc"]), len(inst["sim"][0])
        sims = [[{0: 0}.get(v, v * 10) for v in row] for row in inst["sim"]]
        evaluate(scene_p(nd, ng, inst["sc"], sims, [v * 10 for v in inst["ths"]], what), what)
    for _ in range(IN["random"]):
        evaluate(rand_p(what, IN.get("big", 5)), what)
    if what == "M02":
        direct(IN["direct"])

"""Evaluates integer scenes with the real bounding-box, voxel and mesh evaluators."""
import copy
import io
import subprocess
import warnings
from common import *  # noqa
warnings.filterwarnings("ignore")
import numpy as np
import pymesh
from eval_toy import quat_R, sym, VALID, CUBE, MONO, DEFPERC, AU
from sumo.base.vector import Vector3
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.metrics.bb_evaluator import BBEvaluator
from sumo.metrics.evaluator import Evaluator
from sumo.metrics.mesh_evaluator import MeshEvaluator
from sumo.metrics.voxel_evaluator import VoxelEvaluator
import sumo.metrics.utils as utils
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
from sumo.threedee.compute_bbox import ComputeBbox
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.voxel_grid import VoxelGrid

KIND = {"bounding_box": BBEvaluator, "voxels": VoxelEvaluator, "meshes": MeshEvaluator}
OVER = {"voxels": "voxel_overlap_thresh", "meshes": "mesh_overlap_thresh"}
CATS = ["chair", "desk", "floor", "rock"]
WORLDS = [None, ([1, 2, 0, 2], [0.3, -2.0, 11.5]), ([0, 1, 2, 2], [-4.0, 0.25, 1.0])]


def point_mesh(pts, cols, u):
    """every point a degenerate triangle of its own, with its own uniform texture: whatever is
    sampled from it is that point in that colour"""
    model = GltfModel()
    for k, (pt, col) in enumerate(zip(pts, cols)):
        v = np.repeat(np.array(pt, dtype=np.float32).reshape(3, 1) * np.float32(u), 3, axis=1)
        nrm = np.repeat(np.array([[0], [1], [0]], dtype=np.float32), 3, axis=1)
        tex = np.empty((2, 2, 3), dtype=np.uint8)
        tex[:, :] = col
        model.add_mesh(TexturedMesh(np.array([0, 1, 2], dtype=np.uint32), v, nrm,
                                    np.full((2, 3), 0.25, dtype=np.float32), tex, tex.copy()))
    return model


def real_mesh(size):
    m = TexturedMesh.example()
    sc = np.array(size, dtype=np.float32).reshape(3, 1) / 2
    t = TexturedMesh(m.indices(), (m.vertices() * sc).astype(np.float32), m.normals(), m.uv_coords(),
                     m.base_color(), m.metallic_roughness())
    return GltfModel.from_textured_mesh(t)


def make_obj(side, p, i, score, world):
    g = lambda k: p[side + k][i]
    u = p["u"] / 1000.0
    pose = Pose3(R=Rot3(quat_R(g("q"))), t=Vector3(*[v * u for v in g("posu")]))
    if world:
        pose = Pose3(R=Rot3(quat_R(world[0])), t=Vector3(*world[1])) * pose
    kw = dict(id=str(i + 1), pose=pose, category=g("cat"), symmetry=sym(g("sym")), score=score,
              evaluated=p["ev"][i] if side == "g" else p["dev"][i])
    mn = np.array(g("min"), dtype=float) * u
    bounds = Box3d(mn, mn + np.array(g("size"), dtype=float) * u)
    if p["kind"] == "bounding_box":
        return ProjectObject.gen_bounding_box_object(bounds=bounds, **kw)
    if p["kind"] == "voxels":
        pts = np.array(g("pts"), dtype=float) * u
        # voxel size 2u, centres at odd multiples from the minimum corner
        vg = VoxelGrid(2 * u, np.array(g("corner"), dtype=float) * u)
        vg.add_points(pts)
        return ProjectObject.gen_voxels_object(bounds=vg.bounds(), voxels=vg, **kw)
    model = real_mesh(g("size")) if p["real"] else point_mesh(g("pts"), g("col"), u)
    return ProjectObject.gen_meshes_object(bounds=ComputeBbox().from_gltf_object(model), meshes=model, **kw)


def make_scene(side, p, world, score_of=None):
    n = len(p["sc"]) if side == "d" else len(p["gcat"])
    order = list(range(n))
    rnd.shuffle(order)
    scene = ProjectScene(p["kind"])
    for i in order:
        o = make_obj(side, p, i, score_of(p["sc"][i]) if side == "d" else rnd.choice([-1, 4]), world)
        scene.elements[o.id] = o
    return scene


def snapshot(scene):
    out = [scene.project_type, list(scene.elements.keys()), repr(sorted(scene.settings.items()))]
    for k, e in scene.elements.items():
        out.append([k, e.id, e.category, float(e.score), e.evaluated, str(e.symmetry), e.pose.matrix34().tolist(),
                    None if e.bounds is None else e.bounds.corners().tolist()])
        if e.voxels is not None:
            out.append([e.voxels.voxel_centers().tolist(), e.voxels.voxel_size])
        if e.meshes is not None:
            out.append([[m.vertices().tolist(), m.indices().tolist()] for m in e.meshes.primitive_meshes()])
    return out


FORMED_SEEN = set()


def run_eval(p, world, default, scenes=None):
    sub, gt = scenes or (make_scene("d", p, world, rnd.choice(MONO)), make_scene("g", p, world))
    if default:
        settings = None
    else:
        settings = Evaluator.default_settings()
        ths = [v / 100000.0 for v in p["ths"]]
        rnd.shuffle(ths)
        settings["thresholds"] = np.array(ths)
        settings["categories"] = list(p["cats"])
        if p["kind"] in OVER:
            settings[OVER[p["kind"]]] = p["t2"] * p["u"] / 2000.0
    before = snapshot(sub), snapshot(gt)
    e = dict(p=p, unchanged=True, again=True, allsame=True, hassim=False, sim=[], simt=[],
             shape=0, sem=0, rot=0, trans=0, rmsp=0, rmsc=0, perc=0, ok=True, err="")

    def all_of():
        np.random.seed(7)
        ev = KIND[p["kind"]](sub, gt, dict(settings) if settings is not None else None)
        return ev, ev.evaluate_all()

    r = call(all_of)
    if not r.ok:
        e["ok"], e["err"] = False, r.err + ": " + r.msg
        log.ev("track", **e)
        return None
    ev, m = r.val
    e.update(shape=fx(m["shape_score"], AU) if any(p["ev"]) else 0,
             sem=fx(m["semantics_score"], AU), rot=fx(m["rotation_error"] * 180 / math.pi, 1000),
             trans=fx(m["translation_error"], 1000), perc=fx(m["perceptual_score"], 30000))
    if p["kind"] != "bounding_box":
        e.update(rmsp=fx(m["rms_points_error"], 10 ** 6 / p["u"]), rmsc=fx(m["rms_color_error"], 1000))
    ind = {"shape_score": ev.shape_score(), "semantics_score": ev.semantics_score(),
           "perceptual_score": ev.perceptual_score()}
    ind["rotation_error"], ind["translation_error"] = ev.pose_error()
    if p["kind"] != "bounding_box":
        ind["rms_points_error"], ind["rms_color_error"] = ev.rms_points_error(), ev.rms_color_error()
    e["allsame"] = set(ind) == set(m) and same(ind, m)
    e["unchanged"] = (snapshot(sub), snapshot(gt)) == before
    m2 = all_of()[1]
    e["again"] = p["real"] or same(m, m2)
    hook = getattr(ev, "_shape_similarity", None)
    if hook is not None and not p["real"]:
        d = [sub.elements[str(i + 1)] for i in range(len(p["sc"]))]
        g = [gt.elements[str(i + 1)] for i in range(len(p["gcat"]))]
        rs = call(lambda: ([[hook(a, b) for b in g] for a in d], [[hook(b, a) for a in d] for b in g]))
        if rs.ok:
            e["hassim"], e["sim"], e["simt"] = True, fxs(rs.val[0], 10 ** 6), fxs(rs.val[1], 10 ** 6)
    log.ev("track", **e)
    return sub, gt, m


def same(a, b):
    f = lambda v: repr(round(float(v), 9))
    return {k: f(v) for k, v in a.items()} == {k: f(v) for k, v in b.items()}


def shape_points(kind, n):
    """(points, corner) with distinct points; voxel centres have odd offsets from the corner"""
    corner = [rnd.randint(-3, 1) for _ in range(3)]
    pts = set()
    while len(pts) < n:
        if kind == "voxels":
            pts.add(tuple(corner[i] + 1 + 2 * rnd.randint(0, 2) for i in range(3)))
        else:
            pts.add(tuple(rnd.randint(-2, 3) for _ in range(3)))
    return [list(q) for q in sorted(pts)], corner


def rand_p(kind, world):
    nd, ng = rnd.randint(0, 3), rnd.randint(1, 3)
    exact = world is None and kind != "bounding_box"
    p = dict(kind=kind, real=False, perfect=False, exact=exact, upright=world is None,
             u=1000 if kind == "bounding_box" else rnd.choice([500, 1000]),
             t2=rnd.choice([0, 2, 3, 4, 5]) if exact else rnd.choice([1, 3, 5]),
             sc=[], dcat=[], gcat=[], ev=[], dev=[], sim=[], dpos=[], gpos=[], cats=rnd.sample(CATS[:3], rnd.randint(1, 3)),
             perc=DEFPERC)
    if kind == "bounding_box":
        p["ths"] = sorted(rnd.sample([3217, 10013, 20011, 30011, 40013, 50021, 60013, 70001, 90001], rnd.randint(1, 4)))
    else:
        p["ths"] = sorted(rnd.sample([1000, 10000, 25000, 30000, 50000, 60000, 75000, 100000], rnd.randint(1, 4)))
    if kind == "meshes":       # sampled points carry rounding: no distance equals the threshold
        p["t2"] = rnd.choice([1, 3, 5])
    for k in ("q", "posu", "min", "size", "sym", "pts", "col", "corner"):
        p["d" + k], p["g" + k] = [], []
    for i in range(ng):
        p["gcat"].append(rnd.choice(CATS))
        p["ev"].append(rnd.random() < .75)
        p["gq"].append(rnd.choice(CUBE))
        p["gposu"].append([rnd.randint(-6, 6) for _ in range(3)])
        p["gmin"].append([rnd.randint(-2, 1) for _ in range(3)])
        p["gsize"].append([rnd.randint(1, 4) for _ in range(3)])
        p["gsym"].append(rnd.choice(VALID))
        pts, corner = shape_points(kind, rnd.randint(1, 5))
        p["gpts"].append(pts), p["gcorner"].append(corner)
        p["gcol"].append([[rnd.randint(0, 30) for _ in range(3)] for _ in pts])
    p["sc"] = rnd.sample(range(1, 9), nd)
    for i in range(nd):
        b = rnd.randrange(ng)
        near = rnd.random() < .8
        p["dcat"].append(p["gcat"][b] if near and rnd.random() < .8 else rnd.choice(CATS))
        p["dev"].append(rnd.random() < .5)
        p["dq"].append(p["gq"][b] if near and rnd.random() < .8 else rnd.choice(CUBE))
        p["dposu"].append([v + rnd.choice([0, 0, 0, 1, -1]) for v in p["gposu"][b]] if near
                          else [rnd.randint(-6, 6) for _ in range(3)])
        p["dmin"].append(list(p["gmin"][b]) if near else [rnd.randint(-2, 1) for _ in range(3)])
        p["dsize"].append([max(1, v + rnd.choice([0, 0, 1, -1])) for v in p["gsize"][b]] if near
                          else [rnd.randint(1, 4) for _ in range(3)])
        p["dsym"].append(rnd.choice(VALID))
        if near:
            pts, cols = [list(x) for x in p["gpts"][b]], [list(x) for x in p["gcol"][b]]
            if len(pts) > 1 and rnd.random() < .5:
                k = rnd.randrange(len(pts))
                del pts[k], cols[k]
            if rnd.random() < .4:
                c = p["gcorner"][b]
                q = [c[j] + 1 + 2 * rnd.randint(0, 2) for j in range(3)]
                if q not in pts:
                    pts.append(q), cols.append([rnd.randint(0, 30) for _ in range(3)])
            cols = [[max(0, v + rnd.choice([0, 0, 0, 5])) for v in c] for c in cols]
            corner = list(p["gcorner"][b])
        else:
            pts, corner = shape_points(kind, rnd.randint(1, 5))
            cols = [[rnd.randint(0, 30) for _ in range(3)] for _ in pts]
        p["dpts"].append(pts), p["dcol"].append(cols), p["dcorner"].append(corner)
    return p


def contest(p):
    """every object at the same place, made of points of one small pool: every pair is similar to some degree"""
    kind = p["kind"]
    pool, corner = shape_points(kind, rnd.randint(4, 7))
    if kind == "voxels":
        pool = [[corner[j] + 1 + 2 * rnd.randint(0, 3) for j in range(3)] for _ in range(8)]
        pool = [list(x) for x in sorted(set(map(tuple, pool)))]
    while len(p["sc"]) < 2:
        for k in list(p):
            if k[0] == "d" and isinstance(p[k], list) and k not in ("dpos",) and "g" + k[1:] in p:
                p[k] = p[k] + [p["g" + k[1:]][0]]
        p["dev"] = p["dev"] + [True]
        p["sc"] = p["sc"] + [max(p["sc"] + [0]) + 1]
    p["t2"] = 1 if kind == "meshes" else rnd.choice([0, 1, 2])
    if kind == "voxels" and not p["exact"]:
        p["t2"] = 1
    pos, q = p["gposu"][0], p["gq"][0]
    for s, n in (("d", len(p["sc"])), ("g", len(p["gcat"]))):
        for i in range(n):
            pts = rnd.sample(pool, rnd.randint(1, len(pool)))
            p[s + "pts"][i], p[s + "corner"][i], p[s + "q"][i] = [list(x) for x in pts], list(corner), q
            # shifted a little: the errors of different pairs differ
            p[s + "posu"][i] = list(pos)
            p[s + "col"][i] = [[rnd.randint(0, 30) for _ in range(3)] for _ in pts]
    p["ths"] = sorted(rnd.sample([10000, 25000, 30000, 45000, 55000, 65000, 75000, 90000], rnd.randint(2, 4)))
    return p


def edited(p, sub, gt, world):
    """move and re-rank objects of the same scenes; what is evaluated next is the edited scenes"""
    p = copy.deepcopy(p)
    p["perfect"] = False
    u = p["u"] / 1000.0
    for s, scene in (("d", sub), ("g", gt)):
        for i in range(len(p["sc"]) if s == "d" else len(p["gcat"])):
            o = scene.elements[str(i + 1)]
            if rnd.random() < .5:
                p[s + "posu"][i] = [v + rnd.choice([0, 0, 1, -3, 9]) for v in p[s + "posu"][i]]
                pose = Pose3(R=Rot3(quat_R(p[s + "q"][i])), t=Vector3(*[v * u for v in p[s + "posu"][i]]))
                o.pose = Pose3(R=Rot3(quat_R(world[0])), t=Vector3(*world[1])) * pose if world else pose
            if rnd.random() < .3:
                p[s + "cat"][i] = rnd.choice(CATS)
                o.category = p[s + "cat"][i]
            if s == "g" and rnd.random() < .3:
                p["ev"][i] = not p["ev"][i]
                o.evaluated = p["ev"][i]
    return p


def perfect(p):
    """the submission repeats the ground truth; objects far apart from each other"""
    ng = len(p["gcat"])
    p["perfect"] = True
    p["ev"] = [True] * ng
    for i in range(ng):
        p["gposu"][i][0] = 40 * i
    for k in ("cat", "q", "posu", "min", "size", "pts", "col", "corner"):
        p["d" + k] = [list(x) if isinstance(x, list) else x for x in p["g" + k]]
    p["dsym"] = [rnd.choice(VALID) for _ in range(ng)]
    p["sc"] = rnd.sample(range(1, 9), ng)
    p["dev"] = [rnd.random() < .5 for _ in range(ng)]
    return p


DEFAULT_THS = [25000 + 5000 * k for k in range(11)]


def defaults(p):
    p["exact"] = False
    p["ths"] = list(DEFAULT_THS)
    p["cats"] = ["chair", "desk", "floor"]
    if p["kind"] != "bounding_box":
        p["u"], p["t2"] = 100, 3           # 0.15 m
    return p


def boxmesh():
    """face tables of the meshes formed for boxes so far: enclosed signed volume over box volume"""
    import collections
    seen = collections.Counter()
    for m in pymesh.FORMED:
        if m.num_vertices == 8 and m.num_faces == 12 and abs(m.volume) > 1e-6:
            seen[int(round(60 * abs(m.face_volume()) / abs(m.volume)))] += 1
    for k, n in sorted(seen.items()):
        log.ev("boxmesh", sixtieths=k, times=n, key="sixtieths-%d" % k)


def direct(n):
    for _ in range(n):
        a = [[rnd.randint(-3, 3) for _ in range(3)] for _ in range(rnd.randint(0, 5))]
        off = rnd.choice([0, 0, 1, 3, 6])
        b = [[rnd.randint(-3, 3) + off for _ in range(3)] for _ in range(rnd.randint(0, 5))]
        if rnd.random() < .2:
            b = [list(x) for x in a]
        t2 = rnd.randint(0, 14)
        u = rnd.choice([1.0, 0.25, 4.0])
        A, B = np.array(a, dtype=float).reshape(-1, 3) * u, np.array(b, dtype=float).reshape(-1, 3) * u
        bb = lambda P: ComputeBbox().from_point_cloud(P.T)
        r = call(utils.points_iou, A, bb(A), B, bb(B), t2 * u / 2)
        log.ev("iou", a=a, b=b, t2=t2, ok=r.ok, err=r.err, val=fx(r.val, 10 ** 6) if r.ok else 0)
        r = call(utils.nearest_neighbors, A, B)
        e = dict(a=a, b=b, ok=r.ok, err=r.err, i12=[], i21=[], d12=[], d21=[])
        if r.ok:
            i12, i21, d12, d21 = r.val
            sq = lambda d: fxs((np.array(d, dtype=float).reshape(-1) / u) ** 2, 1000)
            e.update(i12=[int(x) for x in i12], i21=[int(x) for x in i21], d12=sq(d12), d21=sq(d21))
        log.ev("nn", **e)


def cli(pairs):
    """the command line evaluator on saved scenes"""
    tool = os.path.join(os.environ["VF_TOOLS"], "evaluate-one.py")
    base = os.path.join(WORK, "cli")
    os.makedirs(base)

    def start(gt, sub):
        return subprocess.Popen([sys.executable, tool, gt, sub], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    jobs = []
    for k, (sub, gt, m) in enumerate(pairs):
        gt.save(base, "gt%d" % k)
        sub.save(base, "sub%d" % k)
        jobs.append((start("%s/gt%d" % (base, k), "%s/sub%d" % (base, k)), m))
    keys = ["shape_score", "translation_error", "rotation_error", "semantics_score", "perceptual_score"]
    for proc, m in jobs:
        out, err = proc.communicate()
        vals = []
        for line in out.splitlines():
            if ":" in line:
                try:
                    vals.append(fx(line.split(":")[1], 10000))
                except ValueError:
                    pass
        log.ev("cli", rc=proc.returncode, printed=vals, expected=[fx(m[k], 10000) for k in keys], err=err[-300:])
    kinds = [s[1].project_type for s in pairs]
    for i in range(len(pairs)):
        for j in range(len(pairs)):
            if kinds[i] != kinds[j] and (i + j) % 2 == 1:
                proc = start("%s/gt%d" % (base, i), "%s/sub%d" % (base, j))
                out, err = proc.communicate()
                log.ev("climix", rc=proc.returncode, valueerror="ValueError" in err, kinds=[kinds[i], kinds[j]])


if __name__ == "__main__":
    what = IN["what"]
    if what == "M05":
        direct(IN["direct"])
    for kind in IN["kinds"]:
        for k in range(IN["random"]):
            world = rnd.choice(WORLDS) if rnd.random() < .4 else None
            p = rand_p(kind, world)
            mode = rnd.random() if what == "M08" else 1
            default = False
            if mode < .2:
                p = perfect(p)
            if what == "M08" and rnd.random() < .3:
                p, default = defaults(p), True
            if what == "M07" and rnd.random() < .4:
                p = contest(p)
            r = run_eval(p, world, default)
            if what == "M08" and r and rnd.random() < .4:
                p = edited(p, r[0], r[1], world)
                run_eval(p, world, default, r[:2])
        if what == "M08":
            p = defaults(perfect(rand_p(kind, None)))
            if kind == "meshes":
                p["real"], p["u"] = True, 1000
            run_eval(p, None, True)
    if what == "M05":
        boxmesh()
    if what == "M08":
        pairs = []
        for kind in IN["kinds"]:
            for _ in range(IN["cli"]):
                while True:
                    p = defaults(rand_p(kind, None))
                    if len(p["sc"]) and any(p["ev"]) and any(v and c in p["cats"] for v, c in zip(p["ev"], p["gcat"])):
                        break
                r = run_eval(p, None, True)
                if r:
                    pairs.append(r)
        cli(pairs)

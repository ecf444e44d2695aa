"""Scene, element and symmetry descriptions of every shape, read by the real code."""
import itertools
import xml.etree.ElementTree as ET
from common import *  # noqa
import numpy as np
from sumo.semantic.object_symmetry import ObjectSymmetry, SymmetryType
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_scene import ProjectScene
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.box_3d import Box3d
from sumo.threedee.voxel_grid import VoxelGrid

STYPES = ["none", "twoFold", "fourFold", "cylindrical", "spherical"]
KW = {}


def out(r, val=None):
    return dict(ok=r.ok, val=val if val is not None else "", mro=[] if r.ok else r.mro, err=r.err)


def axes(s):
    return [x.name for x in (s.x_symmetry, s.y_symmetry, s.z_symmetry)]


def symnode(tag, kids):
    e = ET.Element(tag)
    for k in kids:
        c = ET.SubElement(e, k["tag"])
        if k["text"] != "":
            c.text = k["text"]
    return e


def do_symxml(tag, kids):
    r = call(ObjectSymmetry.from_xml, symnode(tag, kids))
    log.ev("symxml", tag=tag, kids=kids, **out(r, axes(r.val) if isinstance(r.val, ObjectSymmetry) else "none-object"))


def do_symstr(strings):
    r = call(ObjectSymmetry.from_strings, list(strings))
    log.ev("symstr", strings=list(strings), **out(r, axes(r.val) if isinstance(r.val, ObjectSymmetry) else "none-object"))


# ---- elements: labelled poses, boxes and scores -------------------------------------------------
POSES = {}     # label -> (rotation text, translation text, matrix)
R90 = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
POSES["p1"] = ("0, -1, 0, 1, 0, 0, 0, 0, 1", "1.5, -2, 3", R90, [1.5, -2, 3])
POSES["p2"] = ("1, 0, 0, 0, 0, -1, 0, 1, 0", "-4, 0.25, 7e-2", [[1, 0, 0], [0, 0, -1], [0, 1, 0]], [-4, .25, .07])
BOXES = {"b1": ([-1, -2, -3], [4, 5, 6]), "b2": ([0.5, 0, -1.25], [0.75, 0, 2])}


def posenode(label):
    e = ET.Element("pose")
    rot, tr = POSES.get(label, POSES["p1"])[:2]
    kids = [("translation", tr)]
    if label == "!few":
        kids = [("translation", rnd.choice(["1, 2", "1", ""]))]
    if label == "!missing":
        kids = []
    many = rnd.randrange(4) if label == "!many" else -1
    if many == 0:
        kids = [("translation", tr + rnd.choice([", 4", ", 0", ", 1, 2, 3"]))]
    kids.append(("rotation", rot))
    if label == "!extra":
        kids.append(("scale", "1"))
    if label == "!tag":
        kids[0] = ("Translation", tr)
    for t, x in kids:
        c = ET.SubElement(e, t)
        if t == "rotation":
            v = [s.strip() for s in x.split(",")]
            for i, n in enumerate(("c1", "c2", "c3")):
                ET.SubElement(c, n).text = ", ".join((v[i], v[i + 3], v[i + 6])) + (", 0" if many == i + 1 else "")
        else:
            c.text = x
    return e


def boxnode(label):
    e = ET.Element("bounds")
    lo, hi = BOXES.get(label, BOXES["b1"])
    kids = [("corner1", ", ".join(map(str, lo))), ("corner2", ", ".join(map(str, hi)))]
    if label == "!few":
        kids[0] = ("corner1", rnd.choice(["1, 2", "1", ""]))
    if label == "!many":
        k = rnd.randrange(2)
        kids[k] = (kids[k][0], kids[k][1] + rnd.choice([", 4", ", 0", ", 1, 2, 3"]))
    if label == "!missing":
        kids = kids[:1]
    if label == "!extra":
        kids.append(("corner3", "1, 2, 3"))
    if label == "!tag":
        kids[1] = ("Corner2", kids[1][1])
    for t, x in kids:
        ET.SubElement(e, t).text = x
    return e


def elemnode(tag, kids):
    e = ET.Element(tag)
    for k in kids:
        if k["tag"] == "symmetry":
            e.append(symnode("symmetry", k["kids"]))
        elif k["tag"] == "pose":
            e.append(posenode(k["text"]))
        elif k["tag"] == "bounds":
            e.append(boxnode(k["text"]))
        else:
            c = ET.SubElement(e, k["tag"])
            if k["text"] != "":
                c.text = k["text"]
    return e


SCORETEXT = {}


def norm_score(t):
    """score texts are drawn from a table of distinct numbers"""
    return t


def label_pose(p):
    m = p.matrix34()
    if np.allclose(m, np.eye(4)[:3]):
        return "identity"
    for k, (_, _, R, t) in POSES.items():
        if np.allclose(m, np.hstack([np.array(R), np.array(t).reshape(3, 1)])):
            return k
    return "other"


def label_box(b):
    if b is None:
        return "nothing"
    for k, (lo, hi) in BOXES.items():
        if np.allclose(b.min_corner, lo) and np.allclose(b.max_corner, hi):
            return k
    return "other"


SCORES = {"-1": -1, "0": 0, "0.25": .25, "3e2": 300}


def obj_val(o, type_):
    if not isinstance(o, ProjectObject):
        return "none-object"
    sc = next((k for k, v in SCORES.items() if v == o.score), "other")
    shape = {"bounding_box": o.voxels is None and o.meshes is None,
             "voxels": isinstance(o.voxels, VoxelGrid) and o.meshes is None,
             "meshes": isinstance(o.meshes, GltfModel) and o.voxels is None}[type_]
    v = dict(id=o.id, cat=o.category, pose=label_pose(o.pose), bounds=label_box(o.bounds), sym=axes(o.symmetry),
             score=sc, ev=bool(o.evaluated) if isinstance(o.evaluated, bool) else "not-boolean")
    if not shape or o.project_type != type_:
        v["cat"] = "!shape"
    return v


FILES = {}


def prepare(d):
    """good.h5 / good.glb are readable, bad.* are not; everything else is absent"""
    os.makedirs(d, exist_ok=True)
    v = VoxelGrid(.5, np.zeros(3))
    v.add_points(np.array([[.1, .2, .3]]))
    for n in ("1", "good"):
        v.save(os.path.join(d, n + ".h5"))
        m = GltfModel()
        m.add_mesh(Box3d([0, 0, 0], [1, 1, 1]).to_textured_mesh(color=np.array([1, 2, 3], dtype=np.uint8)))
        m.save_as_glb(os.path.join(d, n + ".glb"))
    open(os.path.join(d, "bad.h5"), "wb").write(b"not a voxel grid")
    open(os.path.join(d, "bad.glb"), "wb").write(b"not a model")
    return [["1", "good"], ["good", "good"], ["bad", "bad"]]


def do_elem(type_, tag, kids, d, files):
    r = call(ProjectObject.load, type_, elemnode(tag, kids), d)
    log.ev("elem", type=type_, tag=tag, kids=kids, files=files,
           **out(r, obj_val(r.val, type_) if r.ok and type_ in ("bounding_box", "voxels", "meshes") else "none-object"))


def scenenode(root, kids):
    e = ET.Element(root)
    for k in kids:
        c = ET.SubElement(e, k["tag"])
        if k["tag"] == "categories":
            for j in k["kids"]:
                x = ET.SubElement(c, j["tag"])
                if j["text"] != "":
                    x.text = j["text"]
        elif k["tag"] == "elements":
            for j in k["kids"]:
                c.append(elemnode(j["tag"], j["kids"]))
        elif k["text"] != "":
            c.text = k["text"]
    return e


def do_scene(xml, root, kids, d, files):
    p = os.path.join(d, os.path.basename(d) + ".xml")
    if os.path.exists(p):
        os.remove(p)
    if xml == "empty":
        open(p, "w").close()
    elif xml != "missing":
        s = ET.tostring(scenenode(root, kids), encoding="utf-8")
        if xml == "broken":
            s = s[:-rnd.choice([1, 3, max(1, len(s) // 2)])]
        open(p, "wb").write(s)
    r = call(ProjectScene.load, os.path.dirname(d), os.path.basename(d))
    val = "none-object"
    if isinstance(r.val, ProjectScene) and isinstance(r.val.elements, ProjectObjectDict):
        s = r.val
        keys_ok = all(k == o.id for k, o in s.elements.items())
        val = dict(type=s.project_type if keys_ok else "!keys", version=s.settings.get("version", "-"),
                   cid=s.settings.get("categories_id", "-"), url=s.settings.get("categories_url", "-"),
                   objs=[obj_val(o, s.project_type) for _, o in sorted(s.elements.items())])
    log.ev("scene", xml=xml, root=root, kids=kids, files=files, **out(r, val))


# ---- generation --------------------------------------------------------------------------------
def T(tag, text="", **kw):
    return dict(tag=tag, text=text, **kw)


def rsym(bad=.3):
    v = rnd.choice([c for c in itertools.product(STYPES, repeat=3) if _valid(c)])
    kids = [T(t, x) for t, x in zip("xyz", v)]
    if rnd.random() < bad:
        m = rnd.randrange(5)
        if m == 0:
            kids.pop(rnd.randrange(3))
        elif m == 1:
            kids[rnd.randrange(3)]["text"] = rnd.choice(["TwoFold", "", "2", "round", "nonesuch"])
        elif m == 2:
            kids[rnd.randrange(3)]["text"] = rnd.choice(STYPES)
        elif m == 3:
            kids.append(T(rnd.choice("xyz"), rnd.choice(STYPES)))
        else:
            kids[rnd.randrange(3)]["tag"] = rnd.choice(["X", "w", "x"])
    if rnd.random() < .2:
        kids.insert(rnd.randrange(len(kids) + 1), T("note", "spherical"))
    rnd.shuffle(kids)
    return kids


def _valid(c):
    n = {t: c.count(t) for t in STYPES}
    return (n["none"] == 3 or (n["none"] == 2 and n["spherical"] == 0) or
            (n["twoFold"] == 2 and n["fourFold"] + n["cylindrical"] == 1) or 3 in (n["fourFold"], n["twoFold"], n["spherical"]))


def relem(bad=.5, ids=("1", "good", "bad", "gone", "ü 7")):
    kids = [T("id", rnd.choice(ids))]
    opt = {"category": lambda: T("category", rnd.choice(["chair", "a & b", "table lamp"])),
           "pose": lambda: T("pose", rnd.choice(["p1", "p2"])),
           "bounds": lambda: T("bounds", rnd.choice(["b1", "b2"])),
           "symmetry": lambda: T("symmetry", kids=rsym(bad * .3)),
           "detectionScore": lambda: T("detectionScore", rnd.choice(list(SCORES))),
           "evaluated": lambda: T("evaluated", rnd.choice(["True", "true", "False", "false", "no", "TRUE", ""])),
           "colour": lambda: T("colour", "red")}
    for k in opt:
        if rnd.random() < .6:
            kids.append(opt[k]())
    if rnd.random() < bad:
        m = rnd.randrange(6)
        if m == 0:
            kids.pop(0)
        elif m == 1:
            kids[0]["text"] = ""
        elif m == 2:
            kids.append(T(rnd.choice(["pose", "bounds"]), rnd.choice(["!tag", "!few", "!many", "!many", "!missing", "!extra"])))
        elif m == 3:
            kids.append(T("detectionScore", rnd.choice(["high", "1,5", ""])))
        elif m == 4:
            k = rnd.choice(list(opt))
            kids.append(opt[k]())     # possibly duplicated
        else:
            kids[0]["tag"] = rnd.choice(["ID", "name"])
    rnd.shuffle(kids)
    return kids


def combos():
    made = {}
    for c in itertools.product(STYPES, repeat=3):
        t = [SymmetryType[x] for x in c]
        r = call(ObjectSymmetry, *t)
        iv = bool(ObjectSymmetry.is_valid(*t))
        d = dict(s=list(c), isvalid=iv, ok=r.ok, mro=[] if r.ok else r.mro)
        if r.ok:
            s = r.val
            made[c] = s
            node = s.to_xml()
            back = ObjectSymmetry.from_xml(node)
            back2 = ObjectSymmetry.from_xml(ET.fromstring(ET.tostring(node)))
            kids = {k.tag: k.text for k in node}
            txt = str(s)
            # "x_symmetry: a, y_symmetry: b, z_symmetry: c"
            parts = dict(p.strip().split(": ") for p in txt.split(","))
            st = call(ObjectSymmetry.from_strings, list(c))
            d.update(axes=axes(s), xml=axes(back2), xmlkids=[kids.get(a, "") for a in "xyz"],
                     strs=axes(st.val) if st.ok else ["raised"],
                     text=[parts.get(a + "_symmetry", "") for a in "xyz"], rteq=bool(back == s and not (back != s)))
        log.ev("combo", **d)
    for a in made:
        for b in made:
            r = made[a] == made[b]
            n = made[a] != made[b]
            log.ev("eq", a=list(a), b=list(b), eq=bool(r), ne=bool(n), isbool=isinstance(r, bool) and isinstance(n, bool))
    # keyword construction and defaults
    for c in made:
        t = [SymmetryType[x] for x in c]
        s = ObjectSymmetry(z_symmetry=t[2], y_symmetry=t[1], x_symmetry=t[0])
        r = s == made[c]
        log.ev("eq", a=list(c), b=axes(s), eq=bool(r), ne=bool(s != made[c]), isbool=True)
    s = ObjectSymmetry()
    log.ev("eq", a=["none"] * 3, b=axes(s), eq=s == made[("none",) * 3], ne=s != made[("none",) * 3], isbool=True)


what = IN["what"]
if what == "S03":
    combos()
    for c in itertools.product(STYPES, repeat=3):
        do_symstr(c)
    for c in itertools.product(STYPES, repeat=3):
        do_symxml("symmetry", [T(t, x) for t, x in zip("xyz", c)])
    for perm in itertools.permutations(range(3)):
        for c in itertools.product(STYPES, repeat=3):
            if _valid(c):
                do_symxml("symmetry", [T("xyz"[i], c[i]) for i in perm])
if what == "S02":
    BADT = ["", "TwoFold", "none "]
    for n in range(0, 5):
        for _ in range(12 if n not in (3,) else 60):
            do_symstr([rnd.choice(STYPES[:3] + BADT) for _ in range(n)])
    for c in itertools.product(["none", "twoFold", "what"], repeat=3):
        do_symstr(c)
    # all ways to leave out or spoil children
    for tag in ("symmetry", "Symmetry", "element", "x"):
        do_symxml(tag, [T("x", "none"), T("y", "none"), T("z", "none")])
    for present in itertools.product([0, 1, 2], repeat=3):
        for text in itertools.product(["none", "twoFold", "bogus"], repeat=3):
            do_symxml("symmetry", [T(t, x) for t, x, k in zip("xyz", text, present) for _ in range(k)])
    for _ in range(IN["sym"]):
        do_symxml("symmetry" if rnd.random() < .95 else "sym", rsym(.8))
    d = os.path.join(WORK, "proj")
    files = prepare(d)
    # every subset of the optional children
    full = [T("category", "chair"), T("pose", "p1"), T("bounds", "b1"), T("symmetry", kids=[T("x", "none"), T("y", "cylindrical"), T("z", "none")]),
            T("detectionScore", "0.25"), T("evaluated", "False")]
    for mask in range(64):
        for withid in (0, 1):
            kids = [f for i, f in enumerate(full) if mask >> i & 1] + ([T("id", "1")] if withid else [])
            for type_ in ("bounding_box", "voxels", "meshes"):
                do_elem(type_, "element", kids, d, files)
    for tag in ("Element", "object", "elements", "scene"):
        do_elem("bounding_box", tag, [T("id", "1")], d, files)
    for _ in range(IN["elem"]):
        do_elem(rnd.choice(["bounding_box", "bounding_box", "voxels", "meshes", "voxel", ""]),
                "element" if rnd.random() < .93 else "elem", relem(), d, files)
    # scenes: every subset of the top-level children, then random ones
    def top(mask, els):
        k = []
        if mask & 1:
            k.append(T("version", "2.1"))
        if mask & 2:
            k.append(T("categories", kids=[T("id", "cat-x"), T("url", "http://u")]))
        if mask & 4:
            k.append(T("project_type", "bounding_box"))
        if mask & 8:
            k.append(T("elements", kids=els))
        return k
    for mask in range(16):
        for els in ([], [T("element", kids=[T("id", "1")])], [T("element", kids=[T("category", "x")])]):
            do_scene("ok", "scene", top(mask, els), d, files)
    for xml in ("missing", "empty", "broken"):
        for _ in range(4):
            do_scene(xml, "scene", top(15, [T("element", kids=[T("id", "1")])]), d, files)
    for root in ("Scene", "project", "elements", "sumo"):
        do_scene("ok", root, top(15, []), d, files)
    for _ in range(IN["scene"]):
        n = rnd.choice([0, 1, 1, 2, 2, 3])
        els = []
        for _ in range(n):
            els.append(T("element" if rnd.random() < .9 else rnd.choice(["object", "Element"]), kids=relem(.15)))
        kids = [T("version", rnd.choice(["2.0", "1.9", "x"])),
                T("categories", kids=[T("id", "c1")] + ([T("url", "u")] if rnd.random() < .8 else []) + ([T("extra", "1")] if rnd.random() < .2 else [])),
                T("project_type", rnd.choice(["bounding_box"] * 4 + ["voxels", "meshes", "voxel", "mesh", ""])),
                T("elements", kids=els)]
        if rnd.random() < .3:
            kids.pop(rnd.randrange(4))
        if rnd.random() < .2:
            kids.append(T(rnd.choice(["comment", "Elements", "author"]), "x"))
        if rnd.random() < .1:
            kids.append(T("version", "3.0"))
        rnd.shuffle(kids)
        xml = "ok" if rnd.random() < .93 else rnd.choice(["broken", "empty", "missing"])
        do_scene(xml, "scene" if rnd.random() < .96 else "Scene", kids, d, files)

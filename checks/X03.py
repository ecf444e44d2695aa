import copy
import random


def merge(base, a, b):
    """the document with the changes of both; None when they change the same number"""
    def walk(x, y, z):
        if y == x:
            return z
        if z == x:
            return y
        if isinstance(x, dict):
            return {k: walk(x[k], y[k], z[k]) for k in x}
        if isinstance(x, list) and len(x) == len(y) == len(z):
            return [walk(*t) for t in zip(x, y, z)]
        raise ValueError
    try:
        return walk(base, a, b)
    except ValueError:
        return None


def near(base, d):
    """number of numbers in which two documents differ"""
    if isinstance(base, dict):
        return sum(near(base[k], d[k]) for k in base)
    if isinstance(base, list):
        return sum(near(x, y) for x, y in zip(base, d)) if len(base) == len(d) else 99
    return int(base != d)


def run(c):
    docs = c.mc("MCGltfDoc", "MCGltfDoc")
    bases = c.mc("MCGltfDoc", "MCGltfDocBases")
    for how, what in (("trusting", "a reader that trusts the document"), ("packed", "a reader that passes over strides"),
                      ("wide", "a reader that takes every index for four bytes")):
        c.mc_fails("MCGltfDoc", "MCGltfDoc_" + how, what)
    rnd = random.Random(c.seed)
    of = {}
    for d in docs:
        for k, b in enumerate(bases):
            if b["fmt"] == d["fmt"] and near(b, d) == 1:
                of.setdefault(k, []).append(d)
    pairs = []
    want = 30000 if c.thorough else 4000
    while len(pairs) < want:
        k = rnd.choice(list(of))
        d = merge(bases[k], rnd.choice(of[k]), rnd.choice(of[k]))
        if d:
            pairs.append(d)
    if not c.thorough:
        docs = bases + rnd.sample(docs, min(len(docs), 5000))
    docs = docs + pairs + bases * 10
    rnd.shuffle(docs)
    c.build(asan=True)
    ev = c.drive_many("gltfdoc", [{"docs": docs[i::8]} for i in range(8)])
    c.coverage["documents"] = len(ev)
    c.coverage["loaded"] = sum(e["res"]["load"] == "ok" for e in ev)
    c.coverage["meshes extracted"] = sum(r["r"] == "ok" for e in ev if e["res"]["load"] == "ok" for r in e["res"]["plain"] + e["res"]["tex"])
    c.validate("TraceGltfDoc", ev, shards=8)
    good = [e for e in ev if e["doc"] in bases and e["doc"]["prims"][0]["mat"] == 0]

    def bad(l):
        l[0]["res"]["plain"][0]["pos"][7] += 1
    c.must_reject("TraceGltfDoc", copy.deepcopy(good), bad, "a byte of a vertex read from elsewhere")

    def bad2(l):
        l[0]["res"] = {"load": "died"}
    c.must_reject("TraceGltfDoc", copy.deepcopy(good), bad2, "a document that ended the process")

    def bad3(l):
        l[0]["res"]["tex"][0]["base"][0] ^= 1
    c.must_reject("TraceGltfDoc", copy.deepcopy(good), bad3, "a texture of other colours")

    def bad4(l):
        l[0]["doc"]["accs"][l[0]["doc"]["prims"][0]["pos"]]["count"] = 40
    c.must_reject("TraceGltfDoc", copy.deepcopy(good), bad4, "elements beyond the buffer handed out")

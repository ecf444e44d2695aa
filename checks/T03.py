import random


def run(c):
    hs = sorted({tuple(h) for h in c.mc("MCGltf")})
    if c.thorough:
        c.mc("MCGltf", "MCGltfDeep")
    c.mc_fails("MCGltf", "MCGltf_count", "images named by their number")
    c.mc_fails("MCGltf", "MCGltf_index", "texture indices of the mesh kept")
    c.mc_fails("MCGltf", "MCGltf_inplace", "shared materials updated in place")
    c.coverage["spec_histories"] = len(hs)
    if not c.thorough:
        hs = random.Random(c.seed).sample(hs, 150)
    c.build(asan=True)
    ev = c.drive_many("gltf", [{"histories": hs[i::4], "random": 400 if c.thorough else 25} for i in range(4)], timeout=800)
    c.validate("TraceGltf", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "update" and e["dumps"][0]["api"] and e["dumps"][0]["api"][0]["base"])
        e["dumps"][0]["api"][0]["base"] += 1
    c.must_reject("TraceGltf", ev, bad, "another picture after an update")

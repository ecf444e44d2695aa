def run(c):
    renum = c.mc("MCTriMesh")
    if c.thorough:
        c.mc("MCTriMesh", "MCTriMeshDeep")
    c.mc_fails("MCTriMesh", "MCTriMeshShift", "indices behind a renumbered block moved by the whole block")
    c.build(asan=True)
    ev = c.drive("trimesh", {"renum": renum, "runs": 4000 if c.thorough else 300, "big": 100 if c.thorough else 10, "quads": 200 if c.thorough else 25, "normals": 2000 if c.thorough else 150})
    c.validate("TraceTriMesh", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "merge" and e["ok"] and len(e["res"]["idx"]) > 5)
        e["res"]["idx"][-1] -= 1
    c.must_reject("TraceTriMesh", ev, bad, "the last index of a merged mesh off by one")

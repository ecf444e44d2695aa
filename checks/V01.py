def run(c):
    c.mc("MCVoxel")
    c.mc_fails("MCVoxel", "MCVoxelGrowAll", "extents grow only when both axes grow")
    c.mc_fails("MCVoxel", "MCVoxelForget", "extents are not part of the file")
    c.build()
    ev = c.drive("voxel", {"runs": 4000 if c.thorough else 400, "len": 14})
    c.validate("TraceVoxel", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "add" and e["ok"] and len(e["obs"][0]["cells"]) > 1)
        e["obs"][0]["cells"][0][2] += 1
    c.must_reject("TraceVoxel", ev, bad, "a voxel moved")

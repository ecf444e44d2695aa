def run(c):
    c.mc("MCTrack")
    c.build()
    ev = c.drive("track", {"what": "M07", "kinds": ["voxels", "meshes"], "random": 2500 if c.thorough else 350})
    c.validate("TraceTrack", ev, shards=8, env={"VF_WHAT": "M07"})
    fin = [e for e in ev if e["ok"] and 0 < e["rmsp"] < 10**8 and e["p"]["exact"]]
    c.coverage["finite_nonzero_rms"] = len(fin)

    def bump(l):
        for e in l:
            e["rmsp"] += 30
    c.must_reject("TraceTrack", fin[:6], bump, "rms error off by 3 percent of a unit", env={"VF_WHAT": "M07"})

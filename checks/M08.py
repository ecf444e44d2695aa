def run(c):
    c.mc("MCTrack")
    c.build()
    ev = c.drive("track", {"what": "M08", "kinds": ["bounding_box", "voxels", "meshes"],
                           "random": 900 if c.thorough else 120, "cli": 4 if c.thorough else 2})
    c.validate("TraceTrack", ev, shards=8, env={"VF_WHAT": "M08"})

    def bump(l):
        for e in l:
            e["unchanged"] = False
    c.must_reject("TraceTrack", [e for e in ev if e["op"] == "track" and e["ok"]][:2], bump, "scene changed by evaluation", env={"VF_WHAT": "M08"})

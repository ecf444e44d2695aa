def run(c):
    c.mc("MCTrack")
    c.build()
    ev = c.drive("track", {"what": "M05", "kinds": ["bounding_box", "voxels", "meshes"],
                           "random": 1200 if c.thorough else 150, "direct": 6000 if c.thorough else 800})
    c.validate("TraceTrack", ev, shards=8, env={"VF_WHAT": "M05"})

    def bump(l):
        for e in l:
            e["val"] += 10
    c.must_reject("TraceTrack", [e for e in ev if e["op"] == "iou"][:4], bump, "IoU off by 1e-5", env={"VF_WHAT": "M05"})

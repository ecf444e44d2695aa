def run(c):
    c.mc("MCBox")
    c.mc("MCBox", "MCBoxMerge")
    c.build()
    ev = c.drive("boxes", {"what": "G02", "n": 600 if c.thorough else 100})
    c.validate("TraceBox", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "points" and e["ok"])
        e["hi"][2] += 100
    c.must_reject("TraceBox", ev, bad, "a bounding box one unit too high")

def run(c):
    c.mc("MCBox")
    c.mc("MCBox", "MCBoxMerge")
    c.mc_fails("MCBox", "MCBoxBad", "a box mesh whose bottom face is twisted")
    c.build()
    ev = c.drive("boxes", {"what": "G01", "n": 600 if c.thorough else 120})
    c.validate("TraceBox", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "new" and e["ok"] and e["meshes"] and e["vol"] > 0)
        i = e["meshes"][0]["i"]
        i[30], i[31] = i[31], i[30]
    c.must_reject("TraceBox", ev, bad, "one triangle of a box mesh turned round")

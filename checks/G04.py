def run(c):
    docs = c.mc("MCPoseDoc")
    c.mc_fails("MCPoseDoc", "MCPoseDocLazy", "a reader that forgets to check that every part was found")
    c.build()
    ev = c.drive("posedoc", {"docs": docs, "n": 3000 if c.thorough else 200})
    c.validate("TracePoseDoc", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "trip" and not e["exact"])
        e["t1"][0][1] += 100
    c.must_reject("TracePoseDoc", [e for e in ev if e["op"] == "trip"], bad, "a translation off in the seventh digit")

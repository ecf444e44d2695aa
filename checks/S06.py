def run(c):
    progs = c.mc("MCObjEq")
    c.mc("MCObjEq", "MCObjEqPairs")
    c.mc_fails("MCObjEq", "MCObjEq_setonly", "only assignment refuses values that are not objects")
    c.build()
    ev = c.drive("objects", {"progs": progs, "pairs": 1500 if c.thorough else 120, "runs": 2000 if c.thorough else 100})
    c.validate("TraceObj", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "eq" and e["ab"] == 0 and e["a"]["ev"] != e["b"]["ev"])
        e["ab"] = e["ba"] = 1
    c.must_reject("TraceObj", ev, bad, "objects that differ in the evaluated flag taken as equal")

    def bad2(l):
        e = next(e for e in l if e["op"] == "coll" and not e["ok"] and e["way"] == "pairs")
        e["ok"], e["after"][e["ps"][0][0] - 1] = True, e["ps"][0][1]
    c.must_reject("TraceObj", ev, bad2, "a value that is not an object stored by update")

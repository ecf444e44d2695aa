def run(c):
    c.mc("MCRigid", "MCRigidDeep" if c.thorough else None)
    c.mc("MCRigidC")
    c.build()
    ev = c.drive("rigid", {"runs": 300 if c.thorough else 50, "n": 300 if c.thorough else 50})
    c.validate("TraceRigid", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "compose" and e["ok"] and e["exact"])
        e["t"][1] = -e["t"][1] + 1000
    c.must_reject("TraceRigid", ev, bad, "one component of a composed translation negated")

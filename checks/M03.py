def run(c):
    c.mc("MCRotSym")
    insts = c.mc("MCRotSym", "MCRotSymEmit")
    c.coverage["spec_instances_replayed"] = len(insts)
    c.build()
    ev = c.drive("rot_err", {"instances": insts, "random": 6000 if c.thorough else 900})
    c.validate("TraceRot", ev, shards=8)

    def bump(l):
        for e in l:
            e["sin2"] += 8
    c.must_reject("TraceRot", ev[:4], bump, "sin^2 of half the rotation error off by 8e-6")

def run(c):
    c.mc("MCInvDepth")
    c.build()
    ev = c.drive("invdepth", {"n": 30 if c.thorough else 4})
    c.validate("TraceInvDepth", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "encode")
        e["codes"][-1] += 1
    c.must_reject("TraceInvDepth", ev, bad, "one code one step too high")

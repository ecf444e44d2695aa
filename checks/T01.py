def run(c):
    progs = c.mc("MCCloud")
    if c.thorough:
        c.mc("MCCloud", "MCCloudDeep")
    c.mc_fails("MCCloud", "MCCloudMix", "clouds with and without colours joined without a check")
    c.build(asan=True)
    ev = c.drive("cloud", {"progs": progs, "runs": 3000 if c.thorough else 150, "big": 100 if c.thorough else 10, "files": 400 if c.thorough else 60})
    c.validate("TraceCloud", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "register" and e["ok"] and len(e["res"]["c"]) > 2 and e["res"]["c"][0] != e["res"]["c"][2])
        e["res"]["c"][0], e["res"]["c"][2] = e["res"]["c"][2], e["res"]["c"][0]
    c.must_reject("TraceCloud", ev, bad, "two colours of a registered cloud exchanged")

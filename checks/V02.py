def run(c):
    c.mc("MCSampling", cfg="MCSamplingDeep" if c.thorough else None)
    c.build()
    ev = c.drive("sampling", {"n": 1500 if c.thorough else 120})
    c.validate("TraceSampling", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "model" and e["ok"])
        e["points"][0][0] += 60000
    c.must_reject("TraceSampling", ev, bad, "a point off its face")

def run(c):
    c.mc("MCCategory")
    c.build()
    ev = c.drive("category", {"n": 120 if c.thorough else 12})
    c.validate("TraceCategory", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "image" and e["ok"])
        e["v"][0][0][1] ^= 1
    c.must_reject("TraceCategory", ev, bad, "one colour component of an image changed")

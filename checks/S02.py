def run(c):
    c.mc("MCFormat")
    c.build()
    n = 20000 if c.thorough else 1200
    ev = c.drive("fmt", {"what": "S02", "sym": n, "elem": n, "scene": n})
    c.validate("TraceFormat", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "elem" and e["ok"])
        e["val"]["pose"] = "other"
    c.must_reject("TraceFormat", ev, bad, "a pose the description does not contain")

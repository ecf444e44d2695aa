def run(c):
    c.mc("MCScene")
    c.build()
    ev = c.drive("scene", {"what": "S04", "runs": 700 if c.thorough else 90, "len": 14})
    c.validate("TraceScene", ev, shards=8)

    def share(l):
        e = next(e for e in l if e["op"] in ("convert", "transform") and e["ok"] and e["obs"][-1]["objs"])
        e["obs"][-1]["objs"][0]["cat"] = "other"
    c.must_reject("TraceScene", ev, share, "category lost")

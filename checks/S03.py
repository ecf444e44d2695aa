def run(c):
    c.mc("MCFormat")
    c.build()
    ev = c.drive("fmt", {"what": "S03"})
    c.validate("TraceFormat", ev, shards=4)

    def bad(l):
        e = next(e for e in l if e["op"] == "combo" and e["ok"] and e["s"][0] != e["s"][1])
        e["xml"] = [e["s"][1], e["s"][0], e["s"][2]]
    c.must_reject("TraceFormat", ev, bad, "two axes exchanged by the xml form")

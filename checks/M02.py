def run(c):
    c.mc("MCAvgPrec")
    c.build()
    ev = c.drive("eval_toy", {"what": "M02", "random": 3000 if c.thorough else 500, "direct": 6000 if c.thorough else 900})
    c.validate("TraceEval", ev, shards=8, env={"VF_WHAT": "M02"})

    def bump(l):
        l[0]["ap"] += 20
    ap = [e for e in ev if e["op"] == "ap"][:2]
    if ap:
        c.must_reject("TraceEval", ap, bump, "average precision off by 3e-6", env={"VF_WHAT": "M02"})

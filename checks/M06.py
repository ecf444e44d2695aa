def run(c):
    c.mc("MCPerceptual")
    c.build()
    ev = c.drive("eval_toy", {"what": "M06", "random": 4000 if c.thorough else 700})
    c.validate("TraceEval", ev, shards=8, env={"VF_WHAT": "M06"})
    pos = [e for e in ev if e["perc"] > 100]
    c.coverage["positive_scores"] = len(pos)

    def bump(l):
        l[0]["perc"] += 30
    if pos:
        c.must_reject("TraceEval", pos[:2], bump, "perceptual score off by 0.001", env={"VF_WHAT": "M06"})

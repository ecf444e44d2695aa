def run(c):
    c.mc("MCRotSym")
    c.build()
    ev = c.drive("eval_toy", {"what": "M04", "random": 2500 if c.thorough else 400})
    c.validate("TraceEval", ev, shards=8, env={"VF_WHAT": "M04"})

    def bump(l):
        for e in l:
            e["trans"] += 7
    c.must_reject("TraceEval", ev[:4], bump, "translation error off by 7 mm", env={"VF_WHAT": "M04"})

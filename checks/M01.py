def run(c):
    c.mc("MCAssoc")
    insts = c.mc("MCAssoc", "MCAssocEmit")
    c.coverage["spec_instances_replayed"] = len(insts)
    c.build()
    ev = c.drive("eval_toy", {"what": "M01", "instances": insts, "random": 4000 if c.thorough else 500,
                              "big": 6 if c.thorough else 5})
    c.validate("TraceEval", ev, shards=8, env={"VF_WHAT": "M01"})
    good = [e for e in ev if e.get("hasassoc") and any(any(m) for m in e["agn"])][:3]
    if good:
        def swap(l):
            m = next(m for m in l[0]["agn"] if any(m))
            i = next(i for i, x in enumerate(m) if x)
            m[i] = 0
        c.must_reject("TraceEval", good, swap, "dropped a match", env={"VF_WHAT": "M01"})

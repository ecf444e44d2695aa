import random


def run(c):
    calls = c.mc("MCContract")
    two = c.mc("MCContract", "MCContractDeep")
    c.mc_fails("MCContract", "MCContract_trusting", "native code trusts its arguments")
    if not c.thorough:
        two = random.Random(c.seed).sample(two, 6000)
    c.build(asan=True)
    ev = c.drive("contract", {"calls": calls + two})
    c.coverage["calls"] = len(ev)
    c.validate("TraceContract", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["api"] == "cloud.point" and not e["ok"])
        e["ok"] = True
    c.must_reject("TraceContract", ev, bad, "a point beyond the end of a cloud handed out")

    def bad2(l):
        e = next(e for e in l if e["api"] == "estimate_normals" and e["ok"])
        e["died"], e["ok"] = True, False
    c.must_reject("TraceContract", ev, bad2, "a call that ended its process")

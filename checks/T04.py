import random


def run(c):
    cases = c.mc("MCGlb")
    if c.thorough:
        c.mc("MCGlb", "MCGlbDeep")
    c.mc("MCGlb", "MCGlbLive")
    c.mc_fails("MCGlb", "MCGlb_nopad", "files not filled up")
    c.mc_fails("MCGlb", "MCGlb_base", "views moved by the offset of another buffer")
    c.mc_fails("MCGlb", "MCGlb_off", "views lose their own offset")
    c.mc_fails("MCGlb", "MCGlb_early", "output written before everything is read")
    c.coverage["spec_sources"] = len(cases)
    c.build()
    pick = random.Random(c.seed).sample(cases, 6000 if c.thorough else 700)
    ev = c.drive("glb", {"cases": pick, "random": 2000 if c.thorough else 200, "models": 500 if c.thorough else 60}, timeout=800)
    c.validate("TraceGlb", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "pack" and e["ok"] and e["outs"] and e["outs"][0]["f"]["views"])
        e["outs"][0]["f"]["views"][0]["off"] += 4
    c.must_reject("TraceGlb", ev, bad, "a moved view")

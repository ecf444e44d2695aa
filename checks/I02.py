def run(c):
    scans = c.mc("MCCube")
    if c.thorough:
        c.mc("MCCube", "MCCubeDeep")
    c.mc_fails("MCCube", "MCCube_mirror", "one face seen from outside")
    c.mc_fails("MCCube", "MCCube_swap", "upper and lower face exchanged")
    c.mc_fails("MCCube", "MCCube_skip", "colours not taken from the pixels of the points")
    c.coverage["spec_scans"] = len(scans)
    c.build()
    sides = list(range(1, 33)) + [48, 64] if c.thorough else [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 20]
    ev = c.drive("cube", {"scans": scans, "sides": sides, "sparse": 300 if c.thorough else 60, "random": 2000 if c.thorough else 150, "refused": 1000 if c.thorough else 150}, timeout=800)
    c.validate("TraceCube", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "cloud" and e["n"] == 2 and not e["all"] and len(e["points"]) > 2)
        e["points"][1][0] += 2000
    c.must_reject("TraceCube", ev, bad, "one point moved")

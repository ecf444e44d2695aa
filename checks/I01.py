import random


def run(c):
    hs = c.mc("MCRgbd")
    if c.thorough:
        c.mc("MCRgbd", "MCRgbdDeep")
    c.mc_fails("MCRgbd", "MCRgbd_next", "unreadable pages end the file")
    c.mc_fails("MCRgbd", "MCRgbd_count", "pages not counted")
    c.mc_fails("MCRgbd", "MCRgbd_name", "types of pages without name guessed")
    c.mc_fails("MCRgbd", "MCRgbd_early", "file replaced before the images are looked at")
    c.coverage["spec_histories"] = len(hs)
    c.build(asan=True)
    pick = random.Random(c.seed).sample(hs, len(hs) if c.thorough else 150)
    ev = c.drive("rgbd", {"histories": pick, "random": 2000 if c.thorough else 150}, timeout=800)
    c.validate("TraceRgbd", ev, shards=8)

    def bad(l):
        e = next(e for e in l if e["op"] == "load" and e["ok"] and e["ims"][0]["t"] == "rgb")
        e["ims"][0]["px"][-1] += 1
    c.must_reject("TraceRgbd", ev, bad, "one pixel of a loaded image")

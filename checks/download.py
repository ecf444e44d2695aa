import os
import subprocess


def both(c, what):
    c.mc("MCDownloader")
    if c.thorough:
        c.mc("MCDownloader", "MCDownloaderDeep")
    c.mc("MCDownloader", "MCDownloaderLive")
    for v, w in (("markfirst", "archives marked complete before they are extracted"), ("rmfirst", "archives removed before they are extracted")) if what == "D01" else \
            (("inplace", "archives downloaded under their final name"), ("keepbad", "damaged archives kept for good")):
        c.mc_fails("MCDownloader", "MCDownloader_" + v, w)
    inst = c.mc("MCDownloaderEmit")
    c.coverage["spec_instances_replayed"] = len(inst)
    c.build()
    so = os.path.join(c.scratch, "stop.so")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(here, "lib", "stop_shim.c"), "-ldl"], check=True)
    ev = c.drive("download", {"instances": inst, "random": 1200 if c.thorough else 120, "shim": so}, timeout=800)
    c.coverage["killed_runs"] = sum(e["kind"] == "killed" for e in ev)
    c.validate("TraceDownloader", ev, shards=4, env={"VF_WHAT": what})

    def bad(l):
        if what == "D01":
            x = next(x for e in l for x in e["arch"] if x["a"]["mark"] and not x["b"]["mark"])
            x["a"]["ext"] = [1, 2]
        else:
            x = next(x for e in l for x in e["arch"] if x["reqs"] == 3)
            x["reqs"] = 4
    c.must_reject("TraceDownloader", ev, bad, "an archive marked with a member missing" if what == "D01" else "a fourth request", env={"VF_WHAT": what})

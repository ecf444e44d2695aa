import os
import subprocess


def run(c):
    c.mc("MCScene")
    c.mc("MCSave")
    c.mc_fails("MCSave", "MCSaveXmlFirst", "scene description written before the element files")
    c.build()
    so = os.path.join(c.scratch, "stop.so")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(here, "lib", "stop_shim.c"), "-ldl"], check=True)
    t = c.thorough
    ev = c.drive("scene", {"what": "S01", "runs": 600 if t else 70, "len": 14, "shim": so, "stopevery": 3 if t else 8,
                           "limit": 60 if t else 20}, env={"LD_PRELOAD": so})
    c.validate("TraceScene", ev, shards=8)

    def lose(l):
        e = next(e for e in l if e["op"] == "load" and e["ok"] and e["obs"][-1]["objs"])
        e["obs"][-1]["objs"][0]["t"][1] += 50
    c.must_reject("TraceScene", ev, lose, "translation changed by 0.5 mm on load")

    def torn(l):
        e = next(e for e in l if e["op"] == "stopped" and not e["xml"])
        e["xml"], e["othersdone"] = True, False
    c.must_reject("TraceScene", ev, torn, "scene description before an element file")

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": mechanism}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a))
M = "sumo-api/sumo/metrics/"; S = "sumo-api/sumo/semantic/"; T = "sumo-api/sumo/threedee/"
G = "sumo-api/sumo/geometry/"; I = "sumo-api/sumo/images/"; B = "sumo-api/sumo/base/"

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

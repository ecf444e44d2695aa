"""Writes MANIFEST.json from properties.jsonl, the checks that exist and the notes below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("The specification is checked exhaustively by TLC within small bounds; the binding is replay of specification "
          "instances and TLC validation of every event recorded from the real code on enumerated and seeded inputs, so it "
          "is bounded by those inputs. Trusts TLC, the recorder in drivers/ and its fixed-point projection of floats. ")
NOTES = {
    "M": "matplotlib and pymesh are absent here: drivers use stubs/ (pymesh's booleans are computed exactly for the boxes given).",
    "D": "The network is a stand-in server (stubs/requests) directed by plans; the tool and its workers are real processes in a scratch directory, killed at file-system steps.",
    "S01": "Crash points are file-system steps counted by an LD_PRELOAD shim.",
}
TECH = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i,
                       "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, "TLA+ specification checked with TLC, bound by trace validation and replay"),
                       "level": "model_checking", "level_note": COMMON + NOTES.get(i, NOTES.get(i[0], ""))})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo; known findings and repaired defects are in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")

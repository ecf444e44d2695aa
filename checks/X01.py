

def run(c):
    c.mc("MCLayout")
    c.mc("MCShare")
    if c.thorough:
        c.mc("MCLayout", "MCLayoutDeep")
    c.mc_fails("MCLayout", "MCLayout_copy", "memory is copied as it lies")
    c.mc_fails("MCLayout", "MCLayout_rows", "rows are taken to be consecutive in memory")
    c.mc_fails("MCShare", "MCShare_argument", "an object keeps the memory of its argument")
    c.mc_fails("MCShare", "MCShare_result", "an object hands out its own memory")
    plans = c.mc("MCLayout", "MCLayoutPlans")
    c.build(asan=True)
    ev = c.drive_many("layout", [{"plans": plans, "part": k, "parts": 6} for k in range(6)])
    c.coverage["accepted"] = sum(1 for e in ev if e["ok"])
    c.validate("TraceLayout", ev, shards=8)
    done = [e for e in ev if e["ok"] and e.get("r", {}).get("nums")]

    def bad(l):
        e = next(e for e in l if e["ok"] and e["r"]["nums"])
        e["r"]["nums"][-1] += 1000
    c.must_reject("TraceLayout", done[-40:], bad, "a result that depends on the layout of an argument")

    def bad2(l):
        e = next(e for e in l if any(len(set(a["strides"])) > 1 for a in e["args"]))
        a = next(a for a in e["args"] if len(set(a["strides"])) > 1)
        a["strides"] = a["strides"][::-1]
    c.must_reject("TraceLayout", done, bad2, "an array that is laid out in another way than planned")

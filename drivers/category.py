"""Category tables: every id around the table, every name, images, in shuffled histories."""
import csv
import os
import numpy as np
from common import *
from sumo.base.colored_category import ColoredCategory

SHIPPED = os.path.join(TREE, "sumo/base/test_data/categories.csv")


def write(path, rows):
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(["id", "category", "is_evaluated", "color"])
        for k, (n, ev, col) in enumerate(rows):
            w.writerow([k, n, ev, ";".join(map(str, col))])


def out(r):
    return dict(ok=r.ok, err=[] if r.ok else r.mro)


def ints(v):
    return np.asarray(v).astype(int).tolist()


def variants(x):
    """names that are not quite x"""
    return [x.replace("_", " "), x.replace(" ", "_"), x.upper(), x.lower(), x.title(), x + " ", " " + x, x + "s", x[:-1], x[1:], x.strip(),
            x + "\n", x.replace("_", "-"), x.replace(" ", ""), x * 2, x + "\0", x.split("_")[0], x.split(" ")[0], x.rstrip("s"), x + "_0", "'%s'" % x]


def run(path, rows, nq):
    table = [{"name": n, "color": list(col)} for n, _, col in rows]
    r = call(ColoredCategory, path)
    log.ev("open", new=True, exists=True, table=table, **out(r))
    if not r.ok:
        return
    cc, n = r.val, len(rows)
    qs = [("id", i) for i in sorted({-n - 1, -n, -2, -1, 0, 1, n - 2, n - 1, n, n + 1, 255, 256, 65535} | {rnd.randrange(-3, n + 4) for _ in range(nq)})]
    qs += [("name", rnd.choice(rows)[0] if rows else "x") for _ in range(nq)] + [("name", x) for x in ["nosuch", "", "None", "0"]]
    qs += [("name", v) for v in {v for _ in range(2 + nq // 10) if rows for v in variants(rnd.choice(rows)[0])}]
    qs += [("image", k) for k in range(nq)] + [("lut", 0)] * 2
    rnd.shuffle(qs)
    for q, a in qs:
        if q == "id":
            r = call(cc.category_id_to_rgb, a)
            log.ev("id", id=a, v=ints(r.val) if r.ok else [], **out(r))
        elif q == "name":
            r = call(cc.category_name_to_rgb, a)
            log.ev("name", name=a, v=ints(r.val) if r.ok else [], **out(r))
        elif q == "lut":
            r = call(lambda: cc.LUT)
            log.ev("lut", v=ints(r.val) if r.ok else [], **out(r))
        elif n:
            h, w = rnd.choice([1, 2, 3, 5]), rnd.choice([1, 2, 3, 4])
            dt = rnd.choice([np.uint8, np.uint16, np.int32, np.int64])
            hi = min(n, 250) if dt is np.uint8 else n
            im = np.array([[rnd.randrange(hi) for _ in range(w)] for _ in range(h)], dtype=dt)
            if rnd.random() < 0.3:
                bad = rnd.choice([n, n + 1, 255, 65535, 10 ** 6])
                if bad <= np.iinfo(dt).max and bad >= n:
                    im[rnd.randrange(h), rnd.randrange(w)] = bad
            if rnd.random() < 0.3:
                im = np.asfortranarray(im)
            keep = im.copy()
            r = call(cc.convert_to_rgb_im, im)
            log.ev("image", im=ints(im), v=ints(r.val) if r.ok else [], same=bool(np.array_equal(keep, im)), **out(r))


with open(SHIPPED, newline="") as f:
    rows = [(x["category"], x["is_evaluated"], tuple(map(int, x["color"].split(";")))) for x in csv.DictReader(f)]
run(SHIPPED, rows, 40)
for k in range(IN["n"]):
    n = rnd.choice([0, 1, 2, 3, 7, 30, 200, 257, 300])
    names = ["cat_%d" % i for i in range(n)]
    for i in range(0, n - 2, rnd.choice([3, 5, 8])):    # near twins, and names that need quotes
        names[i:i + 2] = rnd.choice([("wall %d" % i, "wall_%d" % i), ("Bed%d" % i, "bed%d" % i), ("lamp%d " % i, "lamp%d" % i),
                                     ("a, b;%d" % i, 'q"%d"' % i), ("größe %d" % i, "grösse %d" % i), ("%d" % i, "0%d" % i)])
    rnd.shuffle(names)
    rows = [(x, rnd.choice(["True", "False"]), tuple(rnd.randrange(256) for _ in range(3))) for x in names]
    p = os.path.join(WORK, "t%d.csv" % k)
    write(p, rows)
    run(p, rows, 10)
r = call(ColoredCategory, os.path.join(WORK, "nosuch.csv"))
log.ev("open", new=True, exists=False, table=[], **out(r))

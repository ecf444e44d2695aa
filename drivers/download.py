"""Runs the dataset downloader against a stand-in server (stubs/requests): every fault of the plan, kills at
any file system step of any of its processes, interrupts, full disks, restarts."""
import concurrent.futures as cf
import io
import signal
import subprocess
import zipfile
from common import *  # noqa

TOOL = os.path.join(os.environ["VF_TOOLS"], "download_sumo_datasets.py")
SERVER = "http://data.invalid/sumo"
FAIL = ["refuse", "404", "503", "cut", "short"]
ALL = [1, 2, 3]


class World:
    def __init__(self, k, n, r):
        self.r = r
        self.base = os.path.join(WORK, "w%s" % k)
        self.pub = os.path.join(self.base, "published")
        self.dest = os.path.join(self.base, r.choice(["data", "my data"]))
        os.makedirs(self.pub)
        self.names, self.body, self.members = [], {}, {}
        close = ["train_0.zip", "Train_0.zip", "train_00.zip", "train_0.0.zip", "TRAIN_0.zip", "0.zip", "train-0.zip", "train_0_.zip", "train.zip"]
        close = r.sample(close, n) if r.random() < .5 else None       # names that are easily taken for each other
        for i in range(n):
            name = close[i] if close else r.choice(["train_%02d.zip", "gt-%d.zip", "part.%d.zip"]) % i
            stem = name[:-4]
            mem = [("training/%s/a.bin" % stem, r.randbytes(r.randint(1, 30000))),
                   ("training/%s/sub/b.bin" % stem, r.randbytes(r.randint(1, 3000))),
                   ("training/%s.txt" % stem, b"x%d" % i * r.randint(1, 300))]
            buf = io.BytesIO()
            with zipfile.ZipFile(buf, "w", r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
                for f, b in mem:
                    z.writestr(f, b)
            self.names.append(name)
            self.body[name], self.members[name] = buf.getvalue(), mem
            with open(os.path.join(self.pub, name), "wb") as f:
                f.write(buf.getvalue())
        self.events = []
        self.nrun = 0

    def put(self, name, st):
        """put an archive into a state"""
        os.makedirs(os.path.join(self.dest, ".cache"), exist_ok=True)
        if st["zip"] != "none":
            b = self.body[name]
            bad = self.r.choice([b[:len(b) // 2], b"", b[:7] + bytes(len(b) - 7)])
            with open(os.path.join(self.dest, name), "wb") as f:
                f.write(b if st["zip"] == "full" else bad)
        for i in st["ext"]:
            f, b = self.members[name][i - 1]
            f = os.path.join(self.dest, f)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as h:
                h.write(b)
        if st["mark"]:
            with open(os.path.join(self.dest, ".cache", name[:-4] + ".cache"), "w") as h:
                h.write("complete")

    def state(self, name):
        def read(f):
            try:
                with open(os.path.join(self.dest, f), "rb") as h:
                    return h.read()
            except OSError:
                return None
        z = read(name)
        return dict(zip="none" if z is None else "full" if z == self.body[name] else "bad",
                    ext=[i for i in ALL if read(self.members[name][i - 1][0]) == self.members[name][i - 1][1]],
                    mark=os.path.exists(os.path.join(self.dest, ".cache", name[:-4] + ".cache")))

    def stats(self, name):
        out = []
        for f, _ in self.members[name]:
            try:
                s = os.stat(os.path.join(self.dest, f))
                out.append((s.st_ino, s.st_mtime_ns))
            except OSError:
                out.append(None)
        return out

    def run(self, outs, at=0, mode=0, config=True, space=True):
        self.nrun += 1
        r = self.r
        tag = os.path.join(self.base, "run%d" % self.nrun)
        names = list(self.names)
        cut = r.randint(0, len(names))
        plan = dict(config={"training_input": names[:cut], "training_ground_truth": names[cut:]} if config else None,
                    dir=self.pub, outs=outs, free=1 << 50 if space else 9 << 30)
        with open(tag + ".plan", "w") as f:
            json.dump(plan, f)
        env = dict(os.environ, DL_PLAN=tag + ".plan", DL_LOG=tag + ".log", DL_SERVER=SERVER)
        if at:
            env.update(LD_PRELOAD=IN["shim"], STOP_PREFIX=self.dest, STOP_AT=str(at), STOP_MODE=str(mode), STOP_LOG=tag + ".steps")
        before = {n: self.state(n) for n in names}
        stats = {n: self.stats(n) for n in names}
        dest = self.dest if r.random() < .7 else os.path.relpath(self.dest, self.base)
        p = subprocess.Popen([sys.executable, TOOL, dest, SERVER + r.choice(["", "/"])], cwd=self.base, env=env,
                             stdout=subprocess.DEVNULL, stderr=open(tag + ".err", "w"), stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(timeout=12 if mode == 6 else 60)
            kind = "killed" if p.returncode == -signal.SIGKILL else "done"
        except subprocess.TimeoutExpired:
            kind = "hang"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        if mode == 6:
            kind = "interrupted"
        asked = {}
        other = 0
        try:
            for line in open(tag + ".log").read().splitlines():
                k, f = line.split(" ", 1)
                if k == "file" and f in names:
                    asked[f] = asked.get(f, 0) + 1
                elif k != "config":
                    other += 1
        except OSError:
            pass
        arch = []
        for n in names:
            arch.append(dict(b=before[n], a=self.state(n), outs=outs[n], reqs=asked.get(n, 0), touched=self.stats(n) != stats[n]))
        self.events.append(dict(kind=kind, room=mode != 8, config=config, space=space, all=ALL, arch=arch, other=other, at=at, mode=mode,
                                rc=p.returncode if p.returncode is not None else 0, err=open(tag + ".err").read()[-300:] if kind in ("hang",) else ""))
        return kind


def spelled(r, o):
    return {"ok": "ok", "bad": "bad"}.get(o) or r.choice(FAIL)


def instances(k, group, seed):
    r = random.Random(seed)
    w = World(k, len(group), r)
    outs = {}
    for n, g in zip(w.names, group):
        w.put(n, g)
        outs[n] = [spelled(r, o) for o in g["outs"]] + ["ok"]
    w.run(outs)
    w.run({n: ["ok"] for n in w.names})
    return w.events


def history(k, seed):
    r = random.Random(seed)
    w = World(k, r.randint(1, 4), r)
    n = len(w.names)
    for _ in range(r.randint(1, 4)):
        outs = {}
        for name in w.names:
            outs[name] = [r.choice(["ok", "ok", "ok", "nolength", "bad"] + FAIL) for _ in range(4)]
            if r.random() < .3:
                outs[name] = [r.choice(FAIL)] * 4
            elif r.random() < .4:
                outs[name] = ["ok"]
        x = r.random()
        at = r.randint(1, 18 * n + 4)
        if x < .5:
            w.run(outs, at, r.choice([5, 5, 7]))
        elif x < .6:
            w.run(outs, at, 6)
        elif x < .7:
            w.run(outs, at, 8)
        elif x < .75:
            w.run(outs, config=False)
        elif x < .8:
            w.run(outs, space=False)
        else:
            w.run(outs)
        if r.random() < .15:            # the user moves extracted files of an archive elsewhere
            name = r.choice(w.names)
            if w.state(name)["mark"]:
                moved = os.path.join(w.dest, w.members[name][0][0])
                if os.path.exists(moved):
                    os.remove(moved)
    for _ in range(2):
        w.run({name: [r.choice(["ok", "ok", "nolength"])] for name in w.names})
    return w.events


def stops(k, seed, which, of):
    """one archive, killed at every step in turn (part <which> of <of>)"""
    r = random.Random(seed)
    evs = []
    for at in range(1 + which, 26, of):
        w = World("%d-%d" % (k, at), 1, r)
        name = w.names[0]
        w.run({name: ["ok"]}, at, r.choice([5, 7]))
        w.run({name: ["ok"]})
        w.run({name: ["ok"]})
        w.events[0]["new"] = True
        evs += w.events
    return evs


if __name__ == "__main__":
    jobs = []
    inst = IN["instances"]
    rnd.shuffle(inst)
    for i in range(0, len(inst), 7):
        jobs.append((instances, (len(jobs), inst[i:i + 7], rnd.random())))
    for _ in range(IN["random"]):
        jobs.append((history, (len(jobs), rnd.random())))
    for i in range(4):
        jobs.append((stops, (len(jobs), rnd.random(), i, 4)))
    with cf.ThreadPoolExecutor(8) as ex:
        for evs in ex.map(lambda j: j[0](*j[1]), jobs):
            for i, e in enumerate(evs):
                if i == 0:
                    e["new"] = True
                log.ev("run", **e)

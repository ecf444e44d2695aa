"""Common machinery of the checks: scratch build, TLC, drivers, trace validation, evidence."""
import atexit
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
VPY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def _env_sh():
    """The environment /opt/vp/env.sh sets, as a dict."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], stdout=subprocess.PIPE, check=True).stdout
    return dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        keep = os.environ.get("VERIF_KEEP")
        if not keep:
            atexit.register(shutil.rmtree, self.scratch, True)
        self.tree = None
        self.env = None
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.mc_runs = []
        self.coverage = {}
        self.samples = []
        self.fails = []           # dicts: event, clauses, run (context)
        self.assumptions = []
        self.clause_counts = {}

    # ------------------------------------------------------------------ build
    def build(self, native=True, asan=None):
        """A scratch copy of /repo/sumo-api with its extensions built from the current sources;
        asan: with AddressSanitizer, so that a driver is ended by the first access to foreign memory."""
        self.env = _env_sh()
        asan = bool(os.environ.get("VERIF_ASAN")) if asan is None else asan
        if native and asan:
            asan = self._asan()
        tree = os.path.join(self.scratch, "tree")
        src = os.path.join(REPO, "sumo-api")
        files = [f for f in _walk(src)]
        os.makedirs(tree)
        for rel in files:
            if rel.endswith(".so") or rel.startswith("build/") or "/tests/" in rel:
                continue
            if rel.endswith(".cpp") and os.path.exists(os.path.join(src, rel[:-4] + ".pyx")):
                continue
            d = os.path.join(tree, rel)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(os.path.join(src, rel), d)
        self.tree = tree
        self.tools = os.path.join(self.scratch, "tools")
        shutil.copytree(os.path.join(REPO, "tools"), self.tools,
                        ignore=shutil.ignore_patterns("__pycache__"))
        if not native:
            return tree
        if asan or not self._reuse(src, tree):
            env = dict(self.env)
            if asan:
                env["CXXFLAGS"] = env.get("CXXFLAGS", "") + " -O1 -g1 -fno-omit-frame-pointer -fsanitize=address -D_GLIBCXX_ASSERTIONS"
                env["LDFLAGS"] = env.get("LDFLAGS", "") + " -fsanitize=address"
            try:
                os.makedirs(env.get("CCACHE_DIR", ""), exist_ok=True)
                with tempfile.TemporaryFile(dir=env["CCACHE_DIR"]):
                    pass
            except Exception:
                env["CCACHE_DIR"] = os.path.join(self.scratch, "ccache")
            r = subprocess.run([VPY, os.path.join(VERIF, "lib", "build_tree.py"), tree], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            if r.returncode:
                raise MachineryError("build failed:\n" + r.stdout[-5000:])
        return tree

    def _asan(self):
        """Whether processes run with AddressSanitizer here; if so drivers will."""
        # libstdc++ as well: AddressSanitizer looks for the function that throws when the process starts
        libs = [os.path.realpath(subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip())
                for n in ("libasan.so", "libstdc++.so.6")]
        env = {"LD_PRELOAD": " ".join(libs), "VF_ASAN": "1",
                         "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:quarantine_size_mb=64"}
        for _ in range(3):
            if subprocess.run([VPY, "-c", "pass"], env=dict(self.env, **env), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                return False
        self.asan_env = env
        self.coverage["address_sanitizer"] = True
        return True

    def _reuse(self, src, tree):
        """Use the .so files beside the sources when build.sh's stamp says they belong to them."""
        script = r'''
. /opt/vp/env.sh; cd "$1" || exit 1
hash_of() {
    find sumo setup.py "$@" -type f -not -path '*/tests/*' -print0 | LC_ALL=C sort -z |
        while IFS= read -r -d '' f; do
            case "$f" in *.cpp) [ -e "${f%.cpp}.pyx" ] && continue ;; esac
            sha256sum "$f"
        done
    sha256sum /opt/vp/env.sh
}
hash_of '(' -name '*.pyx' -o -name '*.pxd' -o -name '*.h' -o -name '*.cpp' -o -name setup.py ')' | sha256sum'''
        try:
            stamp = open(os.path.join(src, "build", ".stamp-all")).read().strip()
        except OSError:
            return False
        r = subprocess.run(["bash", "-c", script, "x", src], stdout=subprocess.PIPE, text=True)
        if r.returncode or r.stdout.strip() != stamp:
            return False
        sos = [f for f in _walk(src) if f.endswith(".so")]
        pyx = [f for f in _walk(os.path.join(src, "sumo")) if f.endswith(".pyx")]
        have = {os.path.join("sumo", p[:-4]) for p in pyx}
        if {re.sub(r"\.cpython-.*\.so$", "", s) for s in sos} != have:
            return False
        newest = max(os.path.getmtime(os.path.join(src, s)) for s in sos)
        del newest
        for s in sos:
            shutil.copy2(os.path.join(src, s), os.path.join(tree, s))
        return True

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=1, simulate=None, timeout=600, xmx="3g", extra=()):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss32m", "-cp", JARS, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-workers", str(workers),
               "-fp", "1", "-config", (cfg or module) + ".cfg"]
        if simulate:
            cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, True)
        return r.returncode, r.stdout

    def mc(self, module, cfg=None, env=None, workers=8, timeout=800, xmx="6g", extra=("-coverage", "100"), simulate=None):
        """Model-check a specification; its invariants must hold (they speak about the spec only).
        Returns the list of JSON values the spec printed as <<"OUT", json>>."""
        t = time.time()
        rc, out = self.tlc(module, cfg, env, workers, simulate, timeout, xmx, extra if not simulate else ())
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if simulate:
            ms = re.findall(r"states checked[^0-9]*|(\d+) states checked", out)
            m = m or [(x, x) for x in ms if x]
        if rc != 0:
            raise MachineryError("TLC rejected the specification %s (%s):\n%s" % (module, cfg, _plain(out)[-6000:]))
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.states += dist
        self.transitions += gen
        d = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        dead = _zero_actions(out)
        self.mc_runs.append({"module": module, "cfg": cfg or module, "distinct_states": dist,
                             "states_generated": gen, "depth": int(d[-1]) if d else None,
                             "actions_never_taken": dead, "wall_s": round(time.time() - t, 2)})
        outs = []
        for line in out.splitlines():
            if line.startswith('<<"OUT", "'):
                s = line[len('<<"OUT", '):-2]
                outs.append(json.loads(json.loads(s)))
        return outs

    def mc_fails(self, module, cfg, what):
        """A broken variant of the design: TLC has to find the violation (the invariant has teeth)."""
        rc, out = self.tlc(module, cfg, None, 4, None, 300, "3g")
        if rc not in (12, 13):
            raise MachineryError("broken design variant %s not refuted (%s):\n%s" % (cfg, rc, out[-3000:]))
        self.coverage.setdefault("broken_designs_refuted", []).append(what)

    # ------------------------------------------------------------------ drivers
    def drive(self, name, inp=None, tag="", timeout=500, env=None, extra_args=()):
        """Run drivers/<name>.py on the scratch tree; returns the list of recorded events."""
        inpath = os.path.join(self.scratch, "in-%s%s.json" % (name, tag))
        trpath = os.path.join(self.scratch, "trace-%s%s.ndjson" % (name, tag))
        errpath = trpath + ".err"
        with open(inpath, "w") as f:
            json.dump(inp if inp is not None else {}, f)
        work = os.path.join(self.scratch, "work-%s%s" % (name, tag))
        os.makedirs(work, exist_ok=True)
        e = dict(self.env)
        e.update({"PYTHONPATH": ":".join([os.path.join(VERIF, "drivers"), self.tree,
                                          os.path.join(VERIF, "stubs"), "/opt/vp/compat"]),
                  "VF_TREE": self.tree, "VF_TOOLS": self.tools, "VF_IN": inpath, "VF_TRACE": trpath,
                  "VF_ERR": errpath, "VF_WORK": work, "VF_SEED": str(self.seed), "VF_TIER": self.tier,
                  "VF_STUBS": os.path.join(VERIF, "stubs"),
                  "MPLCONFIGDIR": os.path.join(self.scratch, "mpl"), "TMPDIR": work, "HOME": work,
                  "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1"})
        e.update(getattr(self, "asan_env", {}))
        e.update({k: str(v) for k, v in (env or {}).items()})
        p = subprocess.Popen([VPY, "-X", "faulthandler", os.path.join(VERIF, "drivers", name + ".py")] + list(extra_args),
                             cwd=self.tree, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, errors="replace", start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        events = []
        if os.path.exists(trpath):
            for line in open(trpath):
                try:
                    events.append(json.loads(line))
                except ValueError:
                    break
        if rc != 0:
            last = events[-1] if events else None
            if rc == 3 or rc == "timeout" or (isinstance(rc, int) and rc < 0):
                err = ""
                if os.path.exists(errpath):
                    err = open(errpath).read()[-3000:]
                clause = {3: "unexpected-exception", "timeout": "does-not-terminate"}.get(rc, "crash")
                self.fails.append({"event": {"op": clause, "detail": err or out[-3000:], "key": clause},
                                   "clauses": [clause], "run": [last] if last else []})
            else:
                raise MachineryError("driver %s failed (%s):\n%s" % (name, rc, out[-5000:]))
        if os.environ.get("VERIF_VERBOSE"):
            sys.stderr.write(out[-2000:])
        return events

    def drive_many(self, name, inputs, **kw):
        """The same driver on several inputs at once, each with a seed of its own."""
        with cf.ThreadPoolExecutor(len(inputs)) as ex:
            fs = [ex.submit(self.drive, name, i, tag="-%d" % n, env={"VF_SEED": self.seed * 100 + n}, **kw) for n, i in enumerate(inputs)]
            return [e for f in fs for e in f.result()]

    # ------------------------------------------------------------------ traces
    def validate(self, module, events, shards=4, cfg=None, env=None, timeout=700, count=True, record=True):
        """Validate recorded events with spec/<module>.tla.  An event with "new": true starts a run
        (shards never split a run).  Returns [(event index, [clauses])]."""
        if not events:
            raise MachineryError("no events recorded for " + module)
        starts = [i for i, e in enumerate(events) if e.get("new")]
        stateful = bool(starts)
        if stateful and starts[0] != 0:
            raise MachineryError("trace does not start with a run")
        bounds = starts if stateful else list(range(len(events)))
        n = max(1, min(shards, len(bounds), 8))
        per = (len(events) + n - 1) // n
        cuts, nxt = [0], per
        for b in bounds:
            if b >= nxt:
                cuts.append(b)
                nxt = b + per
        cuts.append(len(events))
        jobs = []
        for k in range(len(cuts) - 1):
            if cuts[k] == cuts[k + 1]:
                continue
            path = os.path.join(self.scratch, "val-%s-%d-%d.ndjson" % (module, time.time_ns() % 10**9, k))
            with open(path, "w") as f:
                for ev in events[cuts[k]:cuts[k + 1]]:
                    f.write(json.dumps(ev) + "\n")
            jobs.append((cuts[k], cuts[k + 1], path))

        def one(job):
            lo, hi, path = job
            out = path + ".out"
            e = {"VF_TRACE": path, "VF_OUT": out}
            e.update(env or {})
            rc, txt = self.tlc(module, cfg, e, 1, None, timeout)
            if os.path.exists(out) and rc == 0:
                v = json.load(open(out))
                if v["n"] != hi - lo:
                    raise MachineryError("%s judged %s of %s events" % (module, v["n"], hi - lo))
                return [(lo + b["line"] - 1, sorted(b["clauses"])) for b in v["bad"]], v
            # evaluation error: the recorded value has no meaning in the specification
            m = re.findall(r"^/\\ l = (\d+)", txt, re.M) or re.findall(r"^l = (\d+)", txt, re.M)
            if m and re.search(r"(Attempted to|evaluat|exception|Error:)", txt):
                if os.environ.get("VERIF_VERBOSE"):
                    sys.stderr.write('\n'.join(x for x in txt.splitlines() if 'rror' in x or 'ttempted' in x or 'verflow' in x)[:600] + '\n')
                return [(lo + int(m[-1]) - 1, ["not-explainable: " + _errline(txt)])], {"n": hi - lo}
            raise MachineryError("trace validation %s failed:\n%s" % (module, txt[-6000:]))

        bad = []
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            for r, v in ex.map(one, jobs):
                bad += r
                for k2, n2 in (v.get("seen") or {}).items():
                    self.clause_counts[k2] = self.clause_counts.get(k2, 0) + n2
        if count:
            self.events += len(events)
            self.traces += len(bounds)
            for e in events:
                k2 = e.get("op", "?")
                self.clause_counts[k2] = self.clause_counts.get(k2, 0) + 1
            if len(self.samples) < 6:
                step = max(1, len(events) // 3)
                self.samples += [_short(e) for e in events[::step][:3]]
        if record:
            for i, clauses in sorted(bad):
                run = []
                if stateful:
                    s = max(b for b in starts if b <= i)
                    run = events[s:i]
                self.fails.append({"event": events[i], "clauses": clauses, "run": run})
        return bad

    def must_reject(self, module, events, mutate, what, **kw):
        """Binding demonstration: a corrupted copy of a recorded trace has to be rejected."""
        if self.fails:
            return  # the trace itself is already rejected
        ev = json.loads(json.dumps(events))
        mutate(ev)
        bad = self.validate(module, ev, shards=1, count=False, record=False, **kw)
        if not bad:
            raise MachineryError("corrupted trace accepted: " + what)
        self.coverage.setdefault("corrupted_traces_rejected", []).append(what)

    # ------------------------------------------------------------------ verdict
    def finish(self):
        known = load_known()
        viol, seen = [], {}
        for f in self.fails:
            rest = []
            for c in f["clauses"]:
                k = next((k for k in known if k["property"] == self.pid and
                          k["key"] == f["event"].get("key") and k["clause"] == c), None)
                if k:
                    seen[id(k)] = k
                else:
                    rest.append(c)
            if rest:
                viol.append(dict(f, clauses=rest))
        for k in seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
               "events_validated": self.events, "events_by_op": self.clause_counts,
               "model_checking_runs": self.mc_runs}
        cov.update(self.coverage)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(viol)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if viol:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha1(json.dumps(viol[:5], sort_keys=True).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "total_failing_events": len(viol), "failures": viol[:int(os.environ.get("VERIF_NFAIL","20"))]}, f, indent=1)
            for v in viol[:3]:
                print("  failing: clauses=%s event=%s" % (v["clauses"], json.dumps(v["event"])[:300]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s events=%d traces=%d states=%d wall=%.1fs" %
              (self.pid, self.events, self.traces, self.states, time.time() - self.t0))
        return 0


def _walk(root):
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            yield os.path.relpath(os.path.join(d, f), root)


def _short(e):
    s = json.dumps(e)
    return e if len(s) < 1500 else s[:1500]


def _errline(txt):
    m = re.search(r"(Attempted[^\n]*|Overflow[^\n]*|The exception was[^\n]*\n[^\n]*)", txt)
    return (m.group(0) if m else "evaluation error")[:200]


def _plain(out):
    """TLC's output without the coverage statistics and emitted instances"""
    return "\n".join(x for x in out.splitlines() if not re.match(r'\s*\|*line \d+, col|<\w+ line|<<"OUT"', x.lstrip()))


def _zero_actions(out):
    # lines "<Action line 12, col 3 to line 14, col 9 of module X>: 0:0"
    return sorted(set(re.findall(r"^<(\w+) line [^>]*>: 0:0$", out, re.M)))


def load_known():
    """known_findings.txt: lines 'finding: property=ID key=K clause=C what...' (suppress exactly that
    failure) and 'fixed: property=ID commit what...' (suppress nothing)."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) clause=(\S+) (.*)", line.strip())
            if m:
                res.append(dict(property=m.group(1), key=m.group(2), clause=m.group(3), what=m.group(4)))
    return res


def main(pid, runner, argv):
    tier = argv[0] if argv else None
    c = Check(pid, tier)
    try:
        runner(c)
        return c.finish()
    except Exception as e:  # noqa
        if c.fails and c.finish() == 1:   # what was found before the machinery gave up stands
            return 1
        print("MACHINERY ERROR: %s: %s" % (type(e).__name__, e))
        return 2

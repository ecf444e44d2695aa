"""Shared by all drivers: event log, fixed point projection, guarded calls."""
import json
import math
import os
import random
import sys
import traceback

TREE = os.environ["VF_TREE"]
WORK = os.environ["VF_WORK"]
SEED = int(os.environ["VF_SEED"])
THOROUGH = os.environ["VF_TIER"] == "thorough"
IN = json.load(open(os.environ["VF_IN"]))
rnd = random.Random(SEED)

NAN = 2000000001
PINF = 2000000002
NINF = 2000000003
BIG = 2000000000


def fx(x, scale=10000):
    """float -> fixed-point int; NaN/inf/huge become sentinels outside every legal range."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return NAN
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    v = x * scale
    if abs(v) >= BIG:
        return BIG if v > 0 else -BIG
    return int(round(v))


def fxs(a, scale=10000):
    """nested array -> nested lists of fixed-point ints"""
    if a is None:
        return []
    if hasattr(a, "tolist"):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [fxs(x, scale) for x in a]
    return fx(a, scale)


class Log:
    def __init__(self):
        self.f = open(os.environ["VF_TRACE"], "w")
        self.n = 0

    def ev(self, op, **kw):
        kw["op"] = op
        self.f.write(json.dumps(kw) + "\n")
        self.f.flush()
        self.n += 1


log = Log()


class Result:
    def __init__(self, ok, val, err):
        self.ok, self.val, self.err = ok, val, err


def call(fn, *a, **kw):
    """Run fn; never raises.  err is the exception's class name ("" if none)."""
    try:
        return Result(True, fn(*a, **kw), "")
    except Exception as e:  # noqa
        names = [c.__name__ for c in type(e).__mro__ if c not in (object, BaseException, Exception)]
        r = Result(False, None, type(e).__name__)
        r.mro = names
        r.msg = str(e)[:200]
        return r


def isa(r, name):
    """did the call raise an exception that is a <name> (IOError == OSError)?"""
    if r.ok:
        return False
    alias = {"IOError": "OSError"}
    return alias.get(name, name) in r.mro or (name == "Exception")


def hook(t, v, tb):
    txt = "".join(traceback.format_exception(t, v, tb))
    with open(os.environ["VF_ERR"], "w") as f:
        f.write(txt)
    sys.stderr.write(txt)
    frames = [fr.filename for fr in traceback.extract_tb(tb)]
    # an exception that comes out of the code under test where the driver expects none
    inside = any(f.startswith(TREE) or f.startswith("sumo/") or f.startswith(os.environ["VF_TOOLS"]) for f in frames)
    sys.stderr.flush()
    log.f.flush()
    os._exit(3 if inside else 4)


sys.excepthook = hook

"""Runs harnesses on the unmodified modules of /repo with given inputs (under /opt/venv, through py2compat).

One JSON request per line on stdin: {"module", "name", "params", "inputs"}; one JSON answer per line.
"""
import sys
import json
import math
import random
import os
import io

sys.dont_write_bytecode = True
REPO = os.environ.get("SV_REPO", "/repo")
sys.path.insert(0, "/opt/vp/py2compat")
import py2compat
py2compat.REPO = os.path.realpath(REPO)
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(os.path.dirname(HERE), "harness")
sys.path.insert(0, HARNESS)
sys.path.insert(0, REPO)

import warnings
warnings.simplefilter("ignore")
import state
KEPT = []


class AssumeFailed(BaseException):
    pass


class Miss(BaseException):
    pass


class Ctx:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.tabs = inputs.setdefault("__uf__", {})
        self.failed = []
        self.requires = 0
        self.observed = []
        self.patches = []
        self.covered = []
        # where the symbolic path ended early, the rest is free
        free = inputs.get("__free__")
        self.rng = random.Random(free) if free is not None else None
        # a failure that only rounding explains goes away beside the inputs it was found at
        jitter = inputs.get("__jitter__")
        self.jig = random.Random(jitter) if jitter is not None else None
        if self.jig is not None:
            self.rng = self.jig

    def _in(self, n, make=None):
        if n in self.inputs:
            return self.inputs[n]
        if self.rng is None or make is None:
            raise Miss(n)
        self.inputs[n] = make(self.rng)
        return self.inputs[n]

    def int(self, name, lo, hi):
        return int(self._in(name, lambda r: r.randint(lo, hi)))

    def float(self, name, lo, hi, grid=None):
        v = float(self._in(name, lambda r: r.randint(math.ceil(lo * grid), math.floor(hi * grid)) / grid if grid else
                           round(r.uniform(lo, hi), 6)))
        if self.jig is not None and not grid:
            v = min(hi, max(lo, v + self.jig.uniform(-1e-6, 1e-6) * (1.0 + abs(v))))
        return v

    def bool(self, name):
        return bool(self._in(name, lambda r: r.random() < 0.5))

    def flag(self, name):
        return self.bool(name)

    def opt(self, name, make):
        if self.flag(name + "?"):
            return make(name)
        return None

    def choice(self, name, items):
        return items[self.int(name, 0, len(items) - 1)]

    def str(self, name, minlen, maxlen, lo=" ", hi="~", alphabet=None):
        n = minlen if minlen == maxlen else self.int(name + "#", minlen, maxlen)
        al = [ord(x) for x in alphabet] if alphabet is not None else list(range(ord(lo), ord(hi) + 1))
        return "".join(chr(int(self._in("%s[%d]" % (name, i), lambda r: r.choice(al)))) for i in range(n))

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def facts(self, *names):
        pass

    def reveal(self, *names):
        pass

    def axiom(self, c):
        if self.rng is not None and not c:
            raise AssumeFailed()

    def uf(self, name, *args, lo=None, hi=None):
        key = []
        for a in args:
            if a is None:
                key.append(-987654321.0)
            elif isinstance(a, float) and math.isnan(a):
                key.append(-987654322.0)
            else:
                key.append(float(a))
        best, bd = None, None
        for row, v in self.tabs.get(name, []):
            d = max([abs(x - y) / (1.0 + abs(y)) for x, y in zip(key, row)] or [0.0])
            if bd is None or d < bd:
                best, bd = v, d
        if best is None or bd > (1e-7 if self.jig is None else 1e-5):
            if self.rng is None or lo is None or hi is None:
                raise Miss("%s%r" % (name, key))
            best = self.rng.uniform(lo, hi)
            self.tabs.setdefault(name, []).append([key, best])
        return best

    def field(self, name, shape, lo, hi, masked=True):
        import numpy as np
        if math.prod(shape) > 3e7:
            return LazyField(self, name, shape, lo, masked)
        a = np.full(shape, 0.5 * (lo + hi))
        for row, v in self.tabs.get(name, []):
            a[tuple(int(x) for x in row)] = v
        if not masked:
            return a
        m = np.zeros(shape, dtype=bool)
        for row, v in self.tabs.get(name + ".mask", []):
            if v > 0.5:
                m[tuple(int(x) for x in row)] = True
        return np.ma.array(a, mask=m)

    def npfloat(self, x):
        import numpy as np
        return np.float64(x)

    def cover(self, label):
        self.covered.append(label)

    def require(self, cond, label):
        self.requires += 1
        if not cond:
            self.failed.append(label)

    def forbid(self, label):
        self.require(False, label)

    def close(self, a, b, tol=1e-6):
        if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
            return False
        return abs(a - b) <= tol * (1.0 + max(abs(a), abs(b)))

    def angle(self, name, lo, hi, unit=math.pi / 180.0):
        # the sine and cosine decide; the angle as such only where they do not (a half turn either way)
        x = self.float(name, lo, hi)
        if self.rng is not None and name + ".sin" not in self.inputs:
            self.inputs[name + ".sin"], self.inputs[name + ".cos"] = math.sin(x * unit), math.cos(x * unit)
        a = math.atan2(self.float(name + ".sin", -1, 1), self.float(name + ".cos", -1, 1)) / unit
        if a < lo - 1e-9:
            a += 2 * math.pi / unit
        if a < 0 < x and math.pi / unit - a < 1e-9:
            a = -a
        return min(hi, max(lo, a))

    def same(self, a, b):
        # sines and cosines: near one they hardly tell small angles apart
        return not math.isnan(a) and not math.isnan(b) and abs(a - b) <= 1e-10

    def merged(self, fn):
        return fn

    def concretise(self, x):
        return x

    def observe(self, name, value):
        self.observed.append((name, plain(value)))

    def shared(self, name, make):
        return make()

    def patch(self, obj, attr, value):
        missing = object()
        old = obj.__dict__.get(attr, missing)
        self.patches.append((obj, attr, old, missing))
        setattr(obj, attr, value)

    def undo(self):
        for obj, attr, old, missing in reversed(self.patches):
            if old is missing:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self.patches = []


class LazyField:
    """Stands for a numpy array too big to be built (only single cells are read)."""

    def __init__(self, c, name, shape, lo, masked):
        self.shape = tuple(shape)
        self.ndim = len(shape)
        self.cells = {tuple(int(x) for x in r): v for r, v in c.tabs.get(name, [])}
        self.masked = {tuple(int(x) for x in r) for r, v in c.tabs.get(name + ".mask", []) if v > 0.5}
        self.lo = lo

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, ix):
        import numpy as np
        import operator
        if len(ix) != len(self.shape):
            raise Miss("slice of a big field")
        out = []
        for i, n in zip(ix, self.shape):
            if isinstance(i, slice):
                raise Miss("slice of a big field")
            try:
                i = operator.index(i)
            except TypeError:
                raise IndexError("only integers, slices are valid indices")
            if not -n <= i < n:
                raise IndexError("index %d is out of bounds for size %d" % (i, n))
            out.append(i % n)
        if tuple(out) in self.masked:
            return np.ma.masked
        return np.float64(self.cells.get(tuple(out), self.lo))


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, "tolist"):
        return plain(v.tolist())
    if isinstance(v, float) and math.isnan(v):
        return "nan"
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if hasattr(v, "year"):
        return [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]
    return "?"


def run(req):
    import importlib
    import contextlib
    import api
    importlib.import_module(req["module"])
    real = [m for n, m in list(sys.modules.items()) if n != "api" and
            (getattr(m, "__file__", None) or "").startswith((REPO + "/", HARNESS + "/"))]
    if KEPT:
        KEPT[0].restore()
    if not KEPT or len(KEPT[0].modules) != len(real):
        KEPT[:] = [state.State(real)]
    h = api.REG[req["name"]]
    c = Ctx(req["inputs"])
    out = {"failed": [], "exc": None, "assume": False, "miss": None}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            h.fn(c, req["params"])
    except AssumeFailed:
        out["assume"] = True
    except Miss as e:
        out["miss"] = str(e)
    except Exception as e:
        import traceback
        out["exc"] = "%s: %s" % (type(e).__name__, e)
        out["tb"] = traceback.format_exc()[-1500:]
    finally:
        c.undo()
    if c.failed:
        out["assume"], out["miss"] = False, None        # what came later does not undo a failure
    out["failed"] = c.failed
    out["requires"] = c.requires
    out["observed"] = c.observed
    if c.rng is not None:
        out["inputs"] = {k: v for k, v in c.inputs.items() if not k.startswith("__free") and not k.startswith("__jit")}
    return out


def main():
    if len(sys.argv) > 1:                   # replay of a saved counterexample
        req = json.load(open(sys.argv[1]))
        out = run(req)
        print(json.dumps({k: out[k] for k in out if k != "observed"}, indent=1))
        bad = (out["failed"] or out["exc"]) and not out["assume"] and not out["miss"]
        print("REPRODUCED" if bad else "not reproduced")
        sys.exit(1 if bad else 0)
    real = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)                           # whatever the code prints stays out of the answers
    for line in sys.stdin:
        try:
            out = run(json.loads(line))
        except BaseException as e:
            out = {"failed": [], "exc": None, "assume": False, "miss": "harness error: %r" % e, "observed": []}
        real.write(json.dumps(out) + "\n")
        real.flush()


if __name__ == "__main__":
    main()

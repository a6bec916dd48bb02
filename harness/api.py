"""Registration of harnesses.  A harness is a function (c, p) run twice: by the symbolic engine, where c hands out
symbolic inputs, and on the unmodified modules of /repo, where c hands out the values of one counterexample."""

REG = {}


class H:
    def __init__(self, name, fn, quick, thorough, mode, time, opts):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.mode = mode
        self.time = time
        self.opts = opts


def harness(quick=None, thorough=None, mode="real", time=100, **opts):
    """quick / thorough: lists of parameter dicts (each a job of its own)."""
    def deco(fn):
        q = quick if quick is not None else [{}]
        t = thorough if thorough is not None else q
        REG.setdefault(fn.__module__ if hasattr(fn, "__module__") else "", {})
        REG[fn.__name__] = H(fn.__name__, fn, q, t, mode, time, opts)
        return fn
    return deco


class Named:
    """the inputs of one of several runs of a harness, by names of their own"""

    def __init__(self, c, tag):
        self.c, self.tag = c, tag

    def __getattr__(self, name):
        x = getattr(self.c, name)
        if name in ("flag", "int", "float", "choice", "opt", "str", "field", "uf", "angle", "observe"):
            return lambda n, *a, **k: x(self.tag + n, *a, **k)
        return x

    def shared(self, n, make):
        """made once, and the same object in all the runs"""
        d = self.c.__dict__.setdefault("shared_objects", {})
        if n not in d:
            d[n] = make()
        return d[n]

    def opt(self, n, f, *a, **k):
        return self.c.opt(self.tag + n, lambda m: f(m[len(self.tag):]), *a, **k)


def again(first, quick=None, thorough=None, mode="real", time=100, **opts):
    """the harness twice in a row, with inputs of their own: what is asked of it holds whatever was asked before"""
    h = REG[first]

    def twice(c, p):
        p = dict(p)
        then = p.pop("then", {})
        h.fn(Named(c, "before "), p)
        h.fn(Named(c, "after "), dict(p, **then))
    twice.__module__, twice.__name__ = h.fn.__module__, first + "_again"
    harness(quick=quick if quick is not None else h.quick, thorough=thorough if thorough is not None else quick if quick is not None else h.thorough,
            mode=mode, time=time, **opts)(twice)

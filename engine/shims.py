"""What the modules of /repo see in place of numpy, math, datetime, os ...

Elements of arrays and results of functions may be symbolic.  Transcendental
functions are uninterpreted, with the facts listed at each.
"""
import calendar as _calendar
import datetime as _dt
import math as _math
import operator as _op
import sys
import time
import types

import numpy as _np
import z3

from . import core
from .core import (SymBool, SymNum, Unsupported, Fraction, mkbool, bnot, ite, boolterm, lift, issym, realval, frac)


def _isnan_c(x):
    return isinstance(x, (float, _np.floating)) and _math.isnan(x)


# ------------------------------------------------------------------ functions of reals

PI = _math.pi


def uf(name, *args):
    return core.CTX.uf(name, *args)


def sym_sqrt(x):
    if not isinstance(x, SymNum):
        return _math.sqrt(x)
    c = core.CTX
    x = core.tofloat(x)
    if x.k == "F":
        neg = mkbool(z3.simplify(z3.fpLT(x.t, core.fpconst(0.0))))
        if bool(neg):
            return float("nan")
        return SymNum("F", z3.fpSqrt(core.RNE, x.t), x.np)
    t = z3.simplify(x.t)
    v = core.termval(t)
    if v is not None:
        f = Fraction(v)
        if f >= 0:
            n, d = _math.isqrt(f.numerator), _math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return SymNum("R", realval(Fraction(n, d)), x.np)
    if c.trig is not None and x.k == "R":
        return c.trig.sqrt(x)
    key = ("sqrt", t.get_id())
    if key in c.memo:
        return SymNum("R", c.memo[key][1], x.np)
    s = z3.Real("sqrt!%d" % len(c.memo))
    c.memo[key] = (t, s)
    c.axiom_term(z3.Implies(t >= 0, z3.And(s >= 0, s * s == t)))
    return SymNum("R", s, x.np)


def _dom(cond):
    if not bool(cond):
        raise ValueError("math domain error")


def _fn(name, lo=None, hi=None, facts=None, native=None):
    native = native or getattr(_math, name)

    def f(x, _n=native):
        if isinstance(x, SymArr):
            return x.map(f)
        if not issym(x):
            return _n(x)
        x = core.tofloat(x) if isinstance(x, SymNum) else core.tofloat(x.num())
        if x.k == "F":
            raise Unsupported("%s of an fp value" % name)
        v = core.termval(z3.simplify(x.t))
        if v is not None:
            return _n(float(v))
        c = core.CTX
        if c.trig is not None and name in ("sin", "cos"):
            return getattr(c.trig, name)(x)
        if "opaque" in c.trigfacts and lo is not None:
            return opaque(c, name, x, lo, hi)
        first = name not in c.tables or not any(z3.simplify(x.t).eq(r[0][0]) for r in c.tables[name])
        r = c.uf(name, x, lo=lo, hi=hi)
        if first and facts:
            facts(c, x, r)
        if first and c.trigfacts:
            more_facts(c, name, z3.simplify(x.t), r.t)
        r.np = x.np
        return r
    return f


def opaque(c, name, args, lo, hi):
    """Some number between lo and hi (the same one for the same arguments)."""
    args = args if isinstance(args, tuple) else (args,)
    key = (name,) + tuple(z3.simplify(lift(a, "R")).get_id() for a in args)
    if key not in c.memo:
        t = z3.Real("%s!%d" % (name, len(c.memo)))
        c.memo[key] = (args, t)
        c.axiom_term(z3.And(t >= realval(frac(lo)), t <= realval(frac(hi))))
        c.ranges[t.decl().name()] = frac(lo), frac(hi)
        if name == "cos":
            c.axiom_term(t != 0)
        c.calls.append((name, [z3.simplify(lift(a, "R")) for a in args], t))
    return SymNum("R", c.memo[key][1], bool(args[0].np) if isinstance(args[0], SymNum) else False)


def reveal(c, names):
    """Facts about what was opaque so far: "near" (the sines and cosines of two arguments are no further apart than
    these; used where the solver shows the arguments within a bound), "arcus", "period"."""
    pi = frac(PI)

    if c.model is None and c.check() == z3.sat:
        c.model = c.getmodel()
    model = c.model
    if model is None:                       # what does not depend on the inputs is left out then
        memo = {}
        sol = z3.SimpleSolver()
        sol.set("timeout", 4000)
        sol.add([t for t in c.pc if all(x in c.inputs for x in symbols(t, memo)[0])])
        if sol.check() == z3.sat:
            model = sol.model()

    def guess(d):
        """What d may be; what it is not on this input, it is not on all."""
        return core.termval(model.eval(d, model_completion=True)) if model is not None else None

    def turns(d):
        """(k, exact): d is k times pi on this path, but for whole turns (and, where not exact, rounding); or None."""
        v = core.termval(d)
        fixed = v is not None
        if not fixed:
            v = guess(d)
            if v is None:
                return None
        v = Fraction(v)
        k = round(v / pi)
        small = Fraction(1, 10 ** 9)
        if abs(v - k * pi) > small:
            return None
        if fixed:
            return k, v == k * pi
        for eps in (0, small):
            if eps == 0 and v != k * pi:
                continue
            m = [realval(v2) for v2 in (k * pi - 2 * pi, k * pi, k * pi + 2 * pi)]
            if part(c, z3.And([z3.Or(d - x > realval(eps), d - x < -realval(eps)) for x in m]), 3000, inputs=True):
                return k, eps == 0
        return None
    if "arcus" in names:
        for name, args, t in list(c.calls):
            if name not in ("asin", "acos", "atan2"):
                continue
            sn, cs = m_sin(SymNum("R", t)).t, m_cos(SymNum("R", t)).t
            if name == "asin":
                c.axiom_term(z3.And(sn == args[0], cs >= 0))
            elif name == "acos":
                c.axiom_term(z3.And(cs == args[0], sn >= 0))
            else:
                y, x = args
                c.axiom_term(z3.And(cs * y == sn * x, cs * x + sn * y >= 0))
    index, order = {}, {}
    for n, (name, args, t) in enumerate(c.calls):
        index.setdefault(name, []).append((args, t))
        order[t.get_id()] = n

    def close(s, t, m):
        c.axiom_term(z3.And(s - t <= realval(m), t - s <= realval(m)))
        # the later one as the earlier one and a small difference
        if t.decl().name() not in c.near:
            e = z3.FreshReal("near")
            c.near[t.decl().name()] = (t, s + e, e)
            c.ranges[e.decl().name()] = -m, m
    pairs = []
    for name in ("sin", "cos"):
        calls = index.get(name, [])
        for j in range(len(calls)):
            for i in range(j):
                pairs.append((order[calls[j][1].get_id()], name, calls[i], calls[j]))
    pairs.sort(key=lambda p: p[0])
    for _, name, ((a,), s), ((b,), t) in pairs:
        if "period" in names:
            for d, kind in ((a - b, 1), (a + b, -1)):
                k = turns(z3.simplify(d))
                if k is not None:
                    g = (1 if k[0] % 2 == 0 else -1) * (-1 if name == "sin" and kind < 0 else 1)
                    if k[1]:
                        c.axiom_term(t == g * s)
                        c.near.setdefault(t.decl().name(), (t, g * s, None))
                    else:
                        close(g * s, t, Fraction(1, 10 ** 9))
                    break
        if "near" in names:
            v = guess(a - b)
            if v is not None and abs(v) > 0.2:
                continue
            d = z3.simplify(a - b, som=True)
            m = widest(c, d)
            if m is not None:
                close(s, t, core.frac(core.termval(m)))


def symbols(t, memo):
    """The names of the constants in a term."""
    k = t.get_id()
    if k not in memo:
        if z3.is_const(t):
            memo[k] = (frozenset() if core.termval(t) is not None or z3.is_true(t) or z3.is_false(t)
                       else frozenset([t.decl().name()]), t)
        else:
            r = frozenset()
            for x in t.children():
                r |= symbols(x, memo)[0]
            memo[k] = (r, t)
    return memo[k]


def interval(c, t):
    """Bounds of a term, from those of the inputs; None where there are none."""
    v = core.termval(t)
    if v is not None:
        return Fraction(v), Fraction(v)
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
        return c.ranges.get(t.decl().name())
    if k not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_IDIV, z3.Z3_OP_TO_REAL, z3.Z3_OP_UMINUS):
        return None
    r = None
    for x in t.children():
        i = interval(c, x)
        if i is None:
            return None
        if k == z3.Z3_OP_UMINUS:
            return -i[1], -i[0]
        if r is None:
            r = i
        elif k == z3.Z3_OP_ADD:
            r = r[0] + i[0], r[1] + i[1]
        elif k == z3.Z3_OP_SUB:
            r = r[0] - i[1], r[1] - i[0]
        elif k == z3.Z3_OP_MUL:
            p = [u * w for u in r for w in i]
            r = min(p), max(p)
        else:
            if i[0] != i[1] or i[0] <= 0:
                return None
            r = r[0] // i[0], r[1] // i[0]
    return r


def widest(c, d):
    """The least of some bounds the solver shows d to keep, or None. Products are any numbers within their bounds."""
    terms, extra = [], []

    def flat(t):
        if t.decl().kind() == z3.Z3_OP_MUL and sum(core.termval(x) is None for x in t.children()) > 1:
            i = interval(c, t)
            if i is None:
                return None
            v = z3.FreshReal()
            extra.append(z3.And(v >= realval(i[0]), v <= realval(i[1])))
            return v
        return t
    for t in (d.children() if d.decl().kind() == z3.Z3_OP_ADD else [d]):
        t = flat(t)
        if t is None:
            return None
        terms.append(t)
    d = z3.Sum(terms)
    sol = z3.SimpleSolver()
    sol.set("timeout", 4000)
    memo = {}
    names = symbols(d, memo)[0]
    for t in c.pc:
        w = symbols(t, memo)[0]
        if w and (w <= names or all(x in c.inputs for x in w)):
            sol.add(t)
    for t in extra:
        sol.add(t)
    best = None
    for bound in ("0.1", "0.01", "0.003", "0.001", "0.0005", "0.0002", "0.0001", "0.00005"):
        m = realval(Fraction(bound))
        c.stats.queries += 1
        t0 = time.time()
        r = sol.check(z3.Or(d > m, d < -m))
        c.stats.solver_s += time.time() - t0
        if r != z3.unsat:
            break
        best = m
    return best


def terms_on(c, goal, wide=False, inputs=False):
    """The conditions of the path on what the goal speaks of (wide: and on what is opaque and goes with it)."""
    memo = {}
    names = symbols(goal, memo)[0]
    terms = []
    rest = []
    for t in c.pc:
        w = symbols(t, memo)[0]
        if w and (w <= names or inputs and all(x in c.inputs for x in w)):
            terms.append(t)
        elif wide and w and not any(x in c.inputs for x in w):
            rest.append((t, w))
    grown = bool(rest)
    while grown:
        grown = False
        for t, w in list(rest):
            if w & names and len(w - names) <= 3:
                terms.append(t)
                rest.remove((t, w))
                names = names | w
                grown = True
    return terms


def part(c, goal, ms=8000, inputs=False):
    """True when the conditions on what the goal speaks of (and on the inputs) refute it."""
    sol = z3.SimpleSolver()
    sol.set("timeout", ms)
    sol.add(terms_on(c, goal, inputs=inputs))
    c.stats.queries += 1
    t0 = time.time()
    r = sol.check(goal)
    c.stats.solver_s += time.time() - t0
    return r == z3.unsat


def linear(c, goal, ms=8000):
    """True when the goal is refuted with every product taken for a number of its own, between the products of the
    bounds of its factors, and what is near another number written as that number and a difference."""
    names = {}
    extra = []

    def factors(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            return [f for x in t.children() for f in factors(x)]
        if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1:
            return factors(t.arg(0)) * t.arg(1).numerator_as_long()
        return [t]

    def flat(t):
        v = Fraction(1)
        fs = []
        for f in factors(t):
            w = core.termval(f)
            if w is not None:
                v *= Fraction(w)
            else:
                fs.append(f)
        if len(fs) < 2:
            return t
        key = tuple(sorted(f.get_id() for f in fs))
        if key not in names:
            x = z3.FreshReal()
            names[key] = x, fs
            lo, hi = Fraction(1), Fraction(1)
            for f in fs:
                i = interval(c, f)
                if i is None:
                    lo = None
                    break
                p = [lo * i[0], lo * i[1], hi * i[0], hi * i[1]]
                lo, hi = min(p), max(p)
            if lo is not None:
                if len(fs) == 2 and fs[0].eq(fs[1]):
                    lo = max(lo, Fraction(0))
                extra.append(z3.And(x >= realval(lo), x <= realval(hi)))
        return realval(v) * names[key][0]

    def go(t):
        if z3.is_arith(t):
            t = z3.simplify(t, som=True)
            return z3.Sum([flat(x) for x in (t.children() if z3.is_add(t) else [t])])
        if t.num_args() == 0:
            return t
        return t.decl()(*[go(x) for x in t.children()])
    swap = [(a, b) for a, b, e in c.near.values()]
    bounds = []
    for a, b, e in c.near.values():
        if e is None:
            continue
        i = c.ranges[e.decl().name()]
        bounds.append(z3.And(e >= realval(i[0]), e <= realval(i[1])))
    terms = [goal] + terms_on(c, goal, wide=True)
    for _ in range(3):                      # a difference may lead to another
        terms = [z3.substitute(t, swap) for t in terms]

    def choice(ts):
        """A condition on which the value of a number depends."""
        seen = set()
        todo = list(ts)
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_arith(t) and t.decl().kind() == z3.Z3_OP_ITE:
                inner = choice([t.arg(0)])
                return inner if inner is not None else t.arg(0)
            todo.extend(t.children())
        return None

    def decide(ts, depth):
        cond = choice(ts)
        if cond is not None:
            if depth == 0:
                return False
            for v in (True, False):
                new = [z3.simplify(z3.substitute(t, (cond, z3.BoolVal(v)))) for t in ts]
                if any(z3.is_false(t) for t in new):
                    continue
                if not decide(new + [cond if v else z3.Not(cond)], depth - 1):
                    return False
            return True
        del extra[:]
        names.clear()
        sol = z3.SimpleSolver()
        sol.set("timeout", ms)
        try:
            sol.add([go(t) for t in ts])
        except z3.Z3Exception:
            return False
        sol.add(bounds + extra)
        c.stats.queries += 1
        t0 = time.time()
        r = sol.check()
        c.stats.solver_s += time.time() - t0
        return r == z3.unsat
    return decide(terms, 7)


def leap_t(y):
    m = core.imod_const
    return z3.And(m(y, 4) == 0, z3.Or(m(y, 100) != 0, m(y, 400) == 0))


def more_facts(c, name, x, r):
    """Facts about sines and cosines a harness asks for (true of the functions, pi as the float it is)."""
    pi = frac(PI)
    if name in ("sin", "cos"):
        for args, t in c.tables[name][:-1]:
            d = z3.simplify(x - args[0])
            if "period" in c.trigfacts:
                for k in (1, 2, 3, 4):
                    same = t if k % 2 == 0 else -t
                    c.axiom_term(z3.Implies(z3.Or(d == realval(k * pi), d == realval(-k * pi)), r == same))
                e = z3.simplify(x + args[0])
                for k in (-4, -2, 0, 2, 4):
                    c.axiom_term(z3.Implies(e == realval(k * pi), r == (t if name == "cos" else -t)))
            if "smooth" in c.trigfacts:
                a = z3.If(d >= 0, d, -d)
                c.axiom_term(z3.And(r - t <= a, t - r <= a))
        if "unit" in c.trigfacts:
            for args, t in c.tables.get("cos" if name == "sin" else "sin", []):
                if args[0].eq(x):
                    c.axiom_term(r * r + t * t == 1)
    if name in ("asin", "acos", "atan2") and "arcus" in c.trigfacts:
        u = SymNum("R", r)
        sn, cs = m_sin(u), m_cos(u)
        if name == "asin":
            c.axiom_term(z3.And(sn.t == x, cs.t >= 0))
        elif name == "acos":
            c.axiom_term(z3.And(cs.t == x, sn.t >= 0))
        else:
            y, x = x
            c.axiom_term(z3.And(cs.t * y == sn.t * x, cs.t * x + sn.t * y >= 0))


def _exp_facts(c, x, r):
    c.axiom_term(r.t > 0)
    c.axiom_term(z3.Implies(x.t > 0, r.t > 1))
    c.axiom_term(z3.Implies(x.t < 0, r.t < 1))
    c.axiom_term(z3.Implies(x.t == 0, r.t == 1))
    for args, t in c.tables["exp"]:
        if not args[0].eq(z3.simplify(x.t)):
            c.axiom_term((args[0] < x.t) == (t < r.t))


def _cos_facts(c, x, r):
    # cos is positive within (-pi/2, pi/2), and so at the float next below pi/2; no float is an odd multiple of pi/2
    h = realval(frac(PI / 2))
    c.axiom_term(z3.Implies(z3.And(x.t >= -h, x.t <= h), r.t > 0))
    c.axiom_term(r.t != 0)
    c.axiom_term(z3.Implies(x.t == 0, r.t == 1))


def _sin_facts(c, x, r):
    h = realval(Fraction("3.1415926535"))
    c.axiom_term(z3.Implies(z3.And(x.t > 0, x.t < h), r.t > 0))
    c.axiom_term(z3.Implies(z3.And(x.t < 0, x.t > -h), r.t < 0))
    c.axiom_term(z3.Implies(x.t == 0, r.t == 0))


def _erf_facts(c, x, r):
    c.axiom_term(z3.Implies(x.t > 0, r.t > 0))
    c.axiom_term(z3.Implies(x.t < 0, r.t < 0))
    c.axiom_term(z3.Implies(x.t == 0, r.t == 0))
    for args, t in c.tables["erf"]:
        if not args[0].eq(z3.simplify(x.t)):
            c.axiom_term((args[0] < x.t) == (t < r.t))
            # odd
            c.axiom_term(z3.Implies(args[0] == -x.t, t == -r.t))


m_sin = _fn("sin", -1, 1, _sin_facts)
m_cos = _fn("cos", -1, 1, _cos_facts)
m_exp = _fn("exp", facts=_exp_facts)
m_erf = _fn("erf", -1, 1, _erf_facts)
m_atan = _fn("atan", -1.5707963267948966, 1.5707963267948966)


def m_log(x):
    if isinstance(x, SymArr):
        return x.map(m_log)
    if not issym(x):
        return _math.log(x)
    if not (isinstance(x, SymNum) and x.np):
        _dom(x > 0)
    return _fn("log")(x)


def m_asin(x):
    if isinstance(x, SymArr):
        return x.map(m_asin)
    if not issym(x):
        return _math.asin(x)
    if not x.np:
        _dom((x >= -1) & (x <= 1))
    if core.CTX.trig is not None:
        return core.CTX.trig.asin(x)
    return _fn("asin", -1.5707963267948966, 1.5707963267948966)(x)


def m_acos(x):
    if isinstance(x, SymArr):
        return x.map(m_acos)
    if not issym(x):
        return _math.acos(x)
    if not x.np:
        _dom((x >= -1) & (x <= 1))
    if core.CTX.trig is not None:
        return core.CTX.trig.acos(x)
    return _fn("acos", 0, 3.141592653589793)(x)


def m_atan2(y, x):
    if not issym(y) and not issym(x):
        return _math.atan2(y, x)
    c = core.CTX
    if c.trig is not None:
        return c.trig.atan2(y, x)
    yr, xr = lift(y, "R"), lift(x, "R")
    if "opaque" in c.trigfacts:
        return opaque(c, "atan2", (SymNum("R", yr), SymNum("R", xr)), -3.141592653589793, 3.141592653589793)
    r = c.uf("atan2", SymNum("R", yr), SymNum("R", xr), lo=-3.141592653589793, hi=3.141592653589793)
    c.axiom_term(z3.Implies(yr >= 0, r.t >= 0))
    c.axiom_term(z3.Implies(yr < 0, r.t <= 0))
    h = realval(frac(PI / 2))
    c.axiom_term(z3.Implies(xr >= 0, z3.And(r.t <= h, r.t >= -h)))
    c.axiom_term(z3.Implies(xr < 0, z3.Or(r.t >= h, r.t <= -h)))
    c.axiom_term(z3.Implies(z3.And(yr == 0, xr >= 0), r.t == 0))
    c.axiom_term(z3.Implies(z3.And(yr > 0, xr > 0), r.t > 0))
    if c.trigfacts:
        more_facts(c, "atan2", (z3.simplify(yr), z3.simplify(xr)), r.t)
    return r


def m_fmod(x, y):
    if not issym(x) and not issym(y):
        return _math.fmod(x, y)
    xr, yr = lift(x, "R"), lift(y, "R")
    if bool(mkbool(z3.simplify(yr == 0))):
        raise ValueError("math domain error")
    q = xr / yr
    n = z3.If(q >= 0, z3.ToInt(q), -z3.ToInt(-q))
    return SymNum("R", z3.simplify(xr - yr * z3.ToReal(n)))


def m_floor(x):
    if isinstance(x, SymNum):
        return core.floor_(x)
    if isinstance(x, SymBool):
        return x.num()
    return _math.floor(x)


def m_ceil(x):
    if isinstance(x, SymNum):
        return -core.floor_(-x)
    return _math.ceil(x)


def m_sqrt(x):
    if isinstance(x, SymBool):
        x = x.num()
    if not isinstance(x, SymNum):
        return _math.sqrt(x)
    if not x.np:
        _dom(x >= 0)
    r = sym_sqrt(x)
    return SymNum(r.k, r.t) if isinstance(r, SymNum) else r


def m_isnan(x):
    if isinstance(x, SymNum):
        if x.k == "F":
            return mkbool(z3.simplify(z3.fpIsNaN(x.t)))
        return False
    if isinstance(x, SymBool):
        return False
    return _math.isnan(x)


def m_isinf(x):
    if isinstance(x, SymNum):
        if x.k == "F":
            return mkbool(z3.simplify(z3.fpIsInf(x.t)))
        return False
    return _math.isinf(x)


def m_fabs(x):
    if issym(x):
        return core.tofloat(abs(x))
    return _math.fabs(x)


def m_radians(x):
    return x * (PI / 180.0)


def m_degrees(x):
    return x * (180.0 / PI)


def m_pow(x, y):
    if issym(x) or issym(y):
        return core.tofloat(x) ** y if isinstance(x, SymNum) else x ** y
    return _math.pow(x, y)


def m_trunc(x):
    if isinstance(x, SymNum):
        return core.toint(x)
    return _math.trunc(x)


def m_fsum(xs):
    s = 0.0
    for x in xs:
        s = s + x
    return s


def m_hypot(a, b):
    return m_sqrt(a * a + b * b) if issym(a) or issym(b) else _math.hypot(a, b)


class _Mod(types.ModuleType):
    """A module shim: an attribute it lacks ends the path as unsupported."""

    def __init__(self, name, attrs):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(attrs)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self.__name__, n))


def math_module():
    return _Mod("math", dict(
        sin=m_sin, cos=m_cos, exp=m_exp, erf=m_erf, atan=m_atan, log=m_log, asin=m_asin, acos=m_acos, atan2=m_atan2,
        fmod=m_fmod, floor=m_floor, ceil=m_ceil, sqrt=m_sqrt, isnan=m_isnan, isinf=m_isinf, fabs=m_fabs,
        radians=m_radians, degrees=m_degrees, pow=m_pow, trunc=m_trunc, fsum=m_fsum, hypot=m_hypot,
        pi=PI, e=_math.e, nan=_math.nan, inf=_math.inf))


# ------------------------------------------------------------------ arrays

def npelem(x):
    """An element as numpy would hand it out."""
    if isinstance(x, SymNum):
        return SymNum(x.k, x.t, True)
    if isinstance(x, SymBool):
        return x
    if isinstance(x, bool):
        return _np.bool_(x)
    if isinstance(x, int):
        return _np.int64(x)
    if isinstance(x, float):
        return _np.float64(x)
    return x


def tofelem(x):
    """An element stored in a float array."""
    if x is None:
        return _math.nan
    if isinstance(x, (SymNum, SymBool)):
        r = core.tofloat(x)
        return SymNum(r.k, r.t, True)
    return float(x)


def toielem(x):
    if isinstance(x, (SymNum, SymBool)):
        return core.toint(x)
    return int(x)


def elem_div(a, b):
    """a / b as numpy divides (no exception on zero)."""
    if not issym(a) and not issym(b):
        with _np.errstate(all="ignore"):
            return (_np.float64(a) / _np.float64(b)).item()
    if isinstance(a, SymNum):
        a = SymNum(a.k, a.t, True)
    elif isinstance(b, SymNum):
        b = SymNum(b.k, b.t, True)
    return a / b


class SymArr:
    """A small numpy array whose elements may be symbolic."""
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, a, kind):
        self.a = a              # object ndarray
        self.kind = kind        # 'f' 'i' 'b' 'O'

    # building
    @staticmethod
    def of(x, kind=None):
        if isinstance(x, SymArr):
            return SymArr(x.a.copy(), kind or x.kind)
        if isinstance(x, _np.ndarray) and x.dtype != object:
            k = {"f": "f", "i": "i", "u": "i", "b": "b"}.get(x.dtype.kind, "O")
            return SymArr(_np.array(x.tolist(), dtype=object).reshape(x.shape), kind or k)

        def conv(y):
            if isinstance(y, SymArr):
                return [conv(z) for z in y]
            if isinstance(y, (list, tuple)):
                return [conv(z) for z in y]
            if isinstance(y, _np.generic):
                return y.item()
            return y
        lst = conv(list(x) if not isinstance(x, (list, tuple)) else x)
        shape = []
        l2 = lst
        while isinstance(l2, list):
            shape.append(len(l2))
            l2 = l2[0] if l2 else None
        a = _np.empty(tuple(shape), dtype=object)
        flat = []

        def walk(y):
            if isinstance(y, list):
                for z in y:
                    walk(z)
            else:
                flat.append(y)
        walk(lst)
        if len(flat) != a.size:
            raise ValueError("inhomogeneous shape")
        a_flat = a.reshape(-1)
        for i, v in enumerate(flat):
            a_flat[i] = v
        a = a_flat.reshape(tuple(shape))
        if kind is None:
            ks = {_ekind(v) for v in flat}
            if not flat or ks <= {"f", "i"} and "f" in ks:
                kind = "f"
            elif ks == {"i"}:
                kind = "i"
            elif ks == {"b"}:
                kind = "b"
            elif ks <= {"b", "i"}:
                kind = "i"
            elif "O" in ks:
                kind = "O"
            else:
                kind = "f"
        r = SymArr(a, kind)
        return r._norm()

    def _norm(self):
        fl = self.a.reshape(-1)
        for i in range(fl.size):
            fl[i] = self._cv(fl[i])
        self.a = fl.reshape(self.a.shape)
        return self

    def _cv(self, v):
        if isinstance(v, _np.generic):
            v = v.item()
        if self.kind == "f":
            return tofelem(v)
        if self.kind == "i":
            return toielem(v)
        if self.kind == "b":
            return v if isinstance(v, (bool, SymBool)) else bool(v)
        return v

    # shape
    @property
    def shape(self): return self.a.shape
    @property
    def size(self): return self.a.size
    @property
    def ndim(self): return self.a.ndim
    @property
    def dtype(self): return core._DType(self.kind)
    @property
    def T(self): return SymArr(self.a.T, self.kind)
    @property
    def flat(self): return iter([npelem(x) for x in self.a.reshape(-1)])
    def __len__(self): return len(self.a)
    def flatten(self): return SymArr(self.a.reshape(-1).copy(), self.kind)
    ravel = flatten
    def copy(self): return SymArr(self.a.copy(), self.kind)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def tolist(self): return self.a.tolist()
    def astype(self, t):
        k = {"float": "f", "int": "i", "bool": "b"}.get(getattr(t, "__name__", str(t)).replace("b_", ""), "O")
        return SymArr(self.a.copy(), k)._norm()
    def reshape(self, *s): return SymArr(self.a.reshape(*s), self.kind)

    def __iter__(self):
        for x in self.a:
            yield SymArr(x, self.kind) if isinstance(x, _np.ndarray) else npelem(x)

    # element access
    def _index(self, i):
        if isinstance(i, tuple):
            return tuple(self._index(j) for j in i)
        if isinstance(i, SymArr):
            if i.kind == "b":
                return _np.array([bool(x) for x in i.a.reshape(-1)], dtype=bool).reshape(i.a.shape)
            return _np.array([int(x) if not isinstance(x, SymNum) else x.__index__() for x in i.a.reshape(-1)],
                             dtype=int).reshape(i.a.shape)
        if isinstance(i, list):
            if i and isinstance(i[0], (bool, SymBool, _np.bool_)):
                return _np.array([bool(x) for x in i], dtype=bool)
            return [x.__index__() for x in i]
        if isinstance(i, SymNum):
            if i.k not in "IG":
                raise IndexError("only integers, slices are valid indices")
            return i.__index__()
        if isinstance(i, SymBool):
            return bool(i)
        if isinstance(i, slice):
            return slice(*[x.__index__() if isinstance(x, SymNum) else x for x in (i.start, i.stop, i.step)])
        return i

    def __getitem__(self, i):
        if isinstance(i, SymNum) and self.a.ndim == 1:
            from . import hooks
            n = len(self.a)
            bad = (i >= n) | (i < -n)
            if bool(bad):
                raise IndexError("index out of bounds")
            ok, v = core.CTX.speculate(lambda: hooks._merge_items(list(self.a), i, n))
            if ok and v is not NotImplemented:
                return npelem(v)
        r = self.a[self._index(i)]
        return SymArr(r, self.kind) if isinstance(r, _np.ndarray) else npelem(r)

    def __setitem__(self, i, v):
        i = self._index(i)
        if isinstance(v, SymArr):
            vv = _np.empty(v.a.shape, dtype=object)
            f, g = vv.reshape(-1), v.a.reshape(-1)
            for j in range(g.size):
                f[j] = self._cv(g[j])
            self.a[i] = f.reshape(v.a.shape)
        elif isinstance(v, (list, tuple, _np.ndarray)):
            w = SymArr.of(list(v))
            self[i] = w
        else:
            cv = self._cv(v)
            tgt = self.a[i]
            if isinstance(tgt, _np.ndarray):
                fill = _np.empty(tgt.shape, dtype=object)
                fill.fill(cv)
                self.a[i] = fill
            else:
                self.a[i] = cv

    # elementwise
    def map(self, f, kind=None):
        out = _np.empty(self.a.shape, dtype=object)
        o, s = out.reshape(-1), self.a.reshape(-1)
        for j in range(s.size):
            r = f(s[j])
            o[j] = r.item() if isinstance(r, _np.generic) else r
        r = SymArr(o.reshape(self.a.shape), kind or self.kind)
        return r if kind else r._rekind()

    def _rekind(self):
        ks = {_ekind(v) for v in self.a.reshape(-1)}
        if "O" in ks:
            self.kind = "O"
        elif "f" in ks:
            self.kind = "f"
        elif "i" in ks:
            self.kind = "i"
        elif ks:
            self.kind = "b"
        return self

    def _bin(self, o, f):
        if isinstance(o, (list, tuple)):
            o = SymArr.of(o)
        elif isinstance(o, _np.ndarray):
            o = SymArr.of(o)
        if isinstance(o, SymArr):
            x, y = _np.broadcast_arrays(self.a, o.a)
        else:
            if isinstance(o, _np.generic):
                o = o.item()
            x = self.a
            y = _np.empty(x.shape, dtype=object)
            y.fill(o)
        out = _np.empty(x.shape, dtype=object)
        u, p, q = out.reshape(-1), x.reshape(-1), y.reshape(-1)
        for j in range(u.size):
            r = f(p[j], q[j])
            u[j] = r.item() if isinstance(r, _np.generic) else r
        r = SymArr(u.reshape(x.shape), self.kind)._rekind()
        if not r.a.size:
            r.kind = "f" if "f" in (self.kind, getattr(o, "kind", "f")) else self.kind
        return r

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, elem_div)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: elem_div(b, a))
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a // b)
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: b // a)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)
    def __neg__(self): return self.map(lambda a: -a)
    def __abs__(self): return self.map(abs)

    def _inplace(self, r):
        if self.kind == "i" and r.kind == "f":
            raise TypeError("cannot cast ufunc output")
        x = r.a
        self.a[...] = x
        self._norm_inplace()
        return self

    def _norm_inplace(self):
        it = _np.ndindex(self.a.shape)
        for ix in it:
            self.a[ix] = self._cv(self.a[ix])

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def _cmpop(self, o, name):
        from . import hooks
        r = self._bin(o, lambda a, b: hooks.compare1(name, a, b))
        r.kind = "b"
        return r

    def __lt__(self, o): return self._cmpop(o, "Lt")
    def __le__(self, o): return self._cmpop(o, "LtE")
    def __gt__(self, o): return self._cmpop(o, "Gt")
    def __ge__(self, o): return self._cmpop(o, "GtE")
    def __eq__(self, o): return self._cmpop(o, "Eq")
    def __ne__(self, o): return self._cmpop(o, "NotEq")

    def __and__(self, o): return self._bin(o, lambda a, b: _band(a, b))
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, lambda a, b: _bor(a, b))
    __ror__ = __or__
    def __invert__(self): return self.map(bnot, "b")

    def __bool__(self):
        if self.a.size == 1:
            return bool(self.a.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __float__(self):
        if self.a.size == 1:
            return float(self.a.reshape(-1)[0])
        raise TypeError("only length-1 arrays can be converted")

    # reductions
    def sum(self, axis=None):
        if axis is not None:
            raise Unsupported("sum over an axis")
        s = 0.0 if self.kind == "f" else 0
        for x in self.a.reshape(-1):
            s = s + (x.num() if isinstance(x, SymBool) else x)
        return npelem(s)

    def mean(self, axis=None):
        if axis is not None:
            raise Unsupported("mean over an axis")
        n = self.a.size
        if n == 0:
            return _np.float64("nan")
        s = self.sum()
        if isinstance(s, SymNum):
            s = core.tofloat(s)
            return SymNum(s.k, (s / float(n)).t, True)
        return _np.float64(float(s) / n)

    def var(self):
        m = self.mean()
        d = [(x - m) for x in self.a.reshape(-1)]
        return SymArr.of([y * y for y in d], "f").mean() if d else _np.float64("nan")

    def std(self):
        v = self.var()
        r = sym_sqrt(v) if isinstance(v, SymNum) else _np.float64(_math.sqrt(v) if v == v else v)
        return npelem(r)

    def sort(self, axis=-1):
        fl = sym_sort(list(self.a.reshape(-1)))
        for i, x in enumerate(fl):
            self.a.reshape(-1)[i] = x

    def max(self):
        from . import hooks
        return npelem(hooks.b_max(list(self.a.reshape(-1))))

    def min(self):
        from . import hooks
        return npelem(hooks.b_min(list(self.a.reshape(-1))))

    def any(self):
        from . import hooks
        return hooks.b_any(self.a.reshape(-1))

    def all(self):
        from . import hooks
        return hooks.b_all(self.a.reshape(-1))

    def argmax(self):
        return _argmax(list(self.a.reshape(-1)))

    def argmin(self):
        return _argmax([-x for x in self.a.reshape(-1)])

    def cumsum(self):
        return np_cumsum(self)

    def nonzero(self):
        return np_nonzero(self)

    def fill(self, v):
        self[...] = v

    @property
    def mask(self):
        raise AttributeError("mask")

    def symvalue(self, model):
        c = core.CTX
        return [c.evalue(x) for x in self.a.reshape(-1)]


def _ekind(v):
    if isinstance(v, (bool, SymBool, _np.bool_)):
        return "b"
    if isinstance(v, SymNum):
        return "i" if v.k in "IG" else "f"
    if isinstance(v, (int, _np.integer)):
        return "i"
    if isinstance(v, (float, _np.floating)):
        return "f"
    return "O"


def _band(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return mkbool(z3.simplify(z3.And(boolterm(a), boolterm(b))))
    return a & b


def _bor(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return mkbool(z3.simplify(z3.Or(boolterm(a), boolterm(b))))
    return a | b


def sym_sort(items):
    """Sorted copy; symbolic numbers go through a comparator network (no case split)."""
    if not any(issym(x) for x in items):
        return sorted(items)
    xs = list(items)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            c = a <= b
            if isinstance(c, SymBool):
                lo, hi = ite(c, a, b), ite(c, b, a)
                if lo is NotImplemented or hi is NotImplemented:
                    lo, hi = (a, b) if c else (b, a)
            else:
                lo, hi = (a, b) if c else (b, a)
            xs[j], xs[j + 1] = lo, hi
    return xs


def _argmax(items):
    best, bi = items[0], 0
    for i, x in enumerate(items[1:], 1):
        c = x > best
        if isinstance(c, SymBool):
            best = ite(c, x, best)
            bi = ite(c, i, bi)
        elif c:
            best, bi = x, i
    return npelem(bi) if isinstance(bi, SymNum) else _np.int64(bi)


# ------------------------------------------------------------------ numpy

BIG = 20000


class SparseArr:
    """A big array: one default value and the cells that were written (concrete indices).  Indexing with integers and
    slices gives views on the same cells; a view small enough behaves as a SymArr for everything else."""
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, shape, default, cells=None, view=None):
        self.full = tuple(shape)
        self.default = default
        self.cells = {} if cells is None else cells
        self.pre = () if view is None else None         # the leading indices, when the rest is whole
        self._view = view

    @property
    def view(self):
        """int or range for each axis"""
        if self._view is None:
            self._view = self.pre + tuple(range(n) for n in self.full[len(self.pre):])
        return self._view

    @property
    def shape(self): return tuple(len(v) for v in self.view if isinstance(v, range))
    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self): return _math.prod(self.shape)
    @property
    def dtype(self): return core._DType("b" if isinstance(self.default, bool) else "f")
    def __len__(self): return self.shape[0]

    def _one(self, x, rng):
        if isinstance(x, SymNum):
            if x.k not in "IG":
                raise IndexError("only integers, slices are valid indices")
            x = x.__index__()
        if isinstance(x, (float, _np.floating)) or not isinstance(x, (int, _np.integer)) or isinstance(x, (bool, _np.bool_)):
            raise IndexError("only integers, slices are valid indices")
        x = int(x)
        if not -len(rng) <= x < len(rng):
            raise IndexError("index %d is out of bounds for size %d" % (x, len(rng)))
        return rng[x]

    def _plan(self, i):
        """(view, fancy): the new view, or the list of cells of a fancy index"""
        i = i if isinstance(i, tuple) else (i,)
        if any(x is Ellipsis for x in i):
            k = [x is Ellipsis for x in i].index(True)
            i = i[:k] + (slice(None),) * (self.ndim - len(i) + 1) + i[k + 1:]
        if len(i) == 1 and isinstance(i[0], SparseArr):
            i = np_nonzero(i[0])
        if len(i) > self.ndim:
            raise IndexError("too many indices for array")
        if any(isinstance(x, (list, tuple, _np.ndarray, SymArr)) for x in i):
            if len(i) != self.ndim or any(isinstance(x, slice) for x in i) or self.ndim != len(self.full):
                raise Unsupported("fancy index of a part of a big array")
            seqs = [list(x) if hasattr(x, "__iter__") else None for x in i]
            n = max(len(s) for s in seqs if s is not None)
            seqs = [[x] * n if s is None else s * n if len(s) == 1 and n > 1 else s for s, x in zip(seqs, i)]
            if any(len(s) != n for s in seqs):
                raise IndexError("shape mismatch")
            return None, [tuple(self._one(x, r) for x, r in zip(t, self.view)) for t in zip(*seqs)]
        i = list(i)
        view = []
        for r in self.view:
            if not isinstance(r, range):
                view.append(r)
            elif not i:
                view.append(r)
            else:
                x = i.pop(0)
                if isinstance(x, slice):
                    view.append(r[slice(*[y.__index__() if isinstance(y, SymNum) else y for y in (x.start, x.stop, x.step)])])
                else:
                    view.append(self._one(x, r))
        return tuple(view), None

    def __getitem__(self, i):
        if self.pre is not None and type(i) in (int, _np.int64):
            n = self.full[len(self.pre)]
            if -n <= i < n:
                ix = self.pre + (int(i) % n,)
                if len(ix) == len(self.full):
                    return npelem(self.cells.get(ix, self.default))
                r = SparseArr.__new__(SparseArr)
                r.full, r.default, r.cells, r.pre, r._view = self.full, self.default, self.cells, ix, None
                return r
        view, fancy = self._plan(i)
        if fancy is not None:
            return SymArr.of([self.cells.get(k, self.default) for k in fancy], self.dtype.kind)
        if any(isinstance(v, range) for v in view):
            return SparseArr(self.full, self.default, self.cells, view)
        return npelem(self.cells.get(view, self.default))

    def _put(self, k, v):
        self.cells[k] = (v if isinstance(v, (bool, SymBool)) else bool(v)) if isinstance(self.default, bool) else tofelem(v)

    def __setitem__(self, i, v):
        view, fancy = self._plan(i)
        if fancy is not None:
            vs = list(v) if hasattr(v, "__iter__") else [v] * len(fancy)
            if len(vs) == 1 and len(fancy) > 1:
                vs = vs * len(fancy)
            for k, x in zip(fancy, vs):
                self._put(k, x)
            return
        if not any(isinstance(r, range) for r in view):
            self._put(view, v)
            return
        to = SparseArr(self.full, self.default, self.cells, view)
        if to.ndim == len(self.full) and to.size == _math.prod(self.full):
            if hasattr(v, "__iter__") and not isinstance(v, SparseArr):
                raise Unsupported("array stored in a big array")
            if isinstance(v, SparseArr):
                self.cells.clear()
                self.cells.update(v.cells)
                self.default = v.default
            else:
                self.fill(v)
            return
        if to.size > BIG:
            raise Unsupported("slice of a big array")
        ks = to._keys()
        vs = v.mat() if isinstance(v, SparseArr) else v
        vs = [x for x in vs.a.reshape(-1)] if isinstance(vs, SymArr) else list(_np.asarray(vs).reshape(-1)) \
            if hasattr(vs, "__iter__") else [vs] * len(ks)
        if len(vs) != len(ks):
            raise Unsupported("broadcast into a big array")
        for k, x in zip(ks, vs):
            self._put(k, x)

    def _keys(self):
        import itertools
        return list(itertools.product(*[v if isinstance(v, range) else (v,) for v in self.view]))

    def mat(self):
        if self.size > BIG:
            raise Unsupported("whole big array")
        a = _np.empty(self.size, dtype=object)
        for j, k in enumerate(self._keys()):
            a[j] = self.cells.get(k, self.default)
        return SymArr(a.reshape(self.shape), self.dtype.kind)

    def __iter__(self):
        for j in range(len(self)):
            yield self[j]

    def nonzero(self):
        return np_nonzero(self)

    def fill(self, v):
        if self.size != _math.prod(self.full):
            raise Unsupported("fill of a part of a big array")
        self.cells.clear()
        self.default = v if isinstance(v, bool) else tofelem(v)

    def copy(self):
        return SparseArr(self.full, self.default, dict(self.cells), self.view)
    __copy__ = copy

    def __deepcopy__(self, memo): return self.copy()

    def _op(self, o, f):
        whole = self.size == _math.prod(self.full)
        if not whole:
            return f(self.mat(), o.mat() if isinstance(o, SparseArr) and o.size != _math.prod(o.full) else o)
        if isinstance(o, SparseArr):
            if o.full != self.full or o.size != self.size:
                raise Unsupported("broadcast of a big array")
            get = lambda k: o.cells.get(k, o.default)
            keys, od = set(self.cells) | set(o.cells), o.default
        elif hasattr(o, "__iter__"):
            raise Unsupported("broadcast of a big array")
        else:
            get = lambda k: o
            keys, od = set(self.cells), o
        e = lambda x: _np.float64(x) if isinstance(x, float) else npelem(x)
        with _np.errstate(all="ignore"):
            d = f(e(self.default), e(od))
        d = bool(d) if isinstance(d, (bool, _np.bool_)) else d if isinstance(d, SymBool) else tofelem(d)
        r = SparseArr(self.full, d)
        for k in keys:
            r.cells[k] = f(npelem(self.cells.get(k, self.default)), npelem(get(k)))
        return r

    def any(self):
        return any(bool(x) for x in list(self.cells.values()) + [self.default]) if self.size == _math.prod(self.full) \
            else self.mat().any()

    def sum(self, *a, **k):
        if a or k or self.size != _math.prod(self.full):
            return self.mat().sum(*a, **k)
        if self.default != 0:
            raise Unsupported("sum of a big array")
        t = 0.0
        for k in sorted(self.cells):
            t = t + self.cells[k]
        return npelem(tofelem(t))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.mat(), name)


def _sparse_ops():
    import operator as op
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "lt", "le", "gt", "ge", "eq", "ne", "and_", "or_"):
        f = getattr(op, n)
        d = n.rstrip("_")
        setattr(SparseArr, "__%s__" % d, lambda s, o, f=f: s._op(o, f))
        if n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
            setattr(SparseArr, "__r%s__" % d, lambda s, o, f=f: s._op(o, lambda a, b: f(b, a)))
    SparseArr.__neg__ = lambda s: s._op(0.0, lambda a, b: -a)
    SparseArr.__abs__ = lambda s: s._op(0.0, lambda a, b: abs(a))
    SparseArr.__invert__ = lambda s: s._op(False, lambda a, b: ~a)


_sparse_ops()


class FuncArr:
    """A read-only array of symbolic contents: get(indices) gives an element (an uninterpreted function of them)."""
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, shape, get):
        self.shape = tuple(shape)
        self.get = get

    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self): return _math.prod(self.shape)
    @property
    def dtype(self): return core._DType("f")
    def __len__(self): return self.shape[0]
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def copy(self): return self

    def __getitem__(self, i):
        i = i if isinstance(i, tuple) else (i,)
        if Ellipsis in [x for x in i if x is Ellipsis]:
            k = [x is Ellipsis for x in i].index(True)
            i = i[:k] + (slice(None),) * (self.ndim - len(i) + 1) + i[k + 1:]
        if len(i) > self.ndim:
            raise IndexError("too many indices for array")
        i = i + (slice(None),) * (self.ndim - len(i))
        plan, shape = [], []
        for x, n in zip(i, self.shape):
            if isinstance(x, slice):
                r = range(*slice(*[y.__index__() if isinstance(y, SymNum) else y
                                   for y in (x.start, x.stop, x.step)]).indices(n))
                plan.append(r)
                shape.append(len(r))
                continue
            if isinstance(x, SymNum):
                if x.k not in "IG":
                    raise IndexError("only integers, slices are valid indices")
                if bool((x >= n) | (x < -n)):
                    raise IndexError("index out of bounds")
                pos = x >= 0
                plan.append(x if not isinstance(pos, SymBool) or core.CTX.entails(pos.t) else core.ite(pos, x, x + n))
                continue
            if isinstance(x, (bool, SymBool)) or not isinstance(x, (int, _np.integer)):
                raise IndexError("only integers, slices are valid indices")
            x = int(x)
            if not -n <= x < n:
                raise IndexError("index out of bounds")
            plan.append(x % n)
        if not shape:
            return self.get(tuple(plan))

        def get(ix):
            ix = list(ix)
            return self.get(tuple(p[0] + p.step * ix.pop(0) if isinstance(p, range) else p for p in plan))
        return FuncArr(shape, get)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def transpose(self, *axes):
        axes = axes[0] if len(axes) == 1 and isinstance(axes[0], (tuple, list)) else axes
        axes = tuple(axes) or tuple(reversed(range(self.ndim)))

        def get(ix):
            out = [None] * len(ix)
            for j, a in enumerate(axes):
                out[a] = ix[j]
            return self.get(tuple(out))
        return FuncArr([self.shape[a] for a in axes], get)

    @property
    def T(self):
        return self.transpose()

    def flip(self, axis=None):
        ax = range(self.ndim) if axis is None else (axis,)
        ax = [a % self.ndim for a in ax]
        return FuncArr(self.shape, lambda ix: self.get(tuple(
            self.shape[j] - 1 - x if j in ax else x for j, x in enumerate(ix))))

    def roll(self, shift, axis):
        axis %= self.ndim
        n = self.shape[axis]
        return FuncArr(self.shape, lambda ix: self.get(tuple(
            (x - shift) % n if j == axis else x for j, x in enumerate(ix))))

    def nonzero(self):
        raise Unsupported("nonzero of a field")


def _shape(s):
    if isinstance(s, SymNum):
        return (s.__index__(),)
    if isinstance(s, (int, _np.integer)):
        return (int(s),)
    return tuple(int(x) for x in s)


def np_zeros(s, dtype=None):
    sh = _shape(s)
    if _math.prod(sh) > BIG:
        return SparseArr(sh, 0.0)
    a = _np.empty(sh, dtype=object)
    k = "f"
    if dtype is not None:
        k = {"int": "i", "float": "f", "bool": "b"}.get(getattr(dtype, "__name__", str(dtype)).replace("b_", ""), "f")
    a.fill({"f": 0.0, "i": 0, "b": False}[k])
    return SymArr(a, k)


def np_ones(s, dtype=None):
    r = np_zeros(s, dtype)
    r.fill(1)
    return r


def np_full(s, v, dtype=None):
    r = np_zeros(s)
    if isinstance(v, (bool, SymBool)):
        r.kind = "b"
    elif isinstance(v, int) and dtype is None:
        r.kind = "i"
    r.fill(v)
    return r


def np_array(x, dtype=None):
    if isinstance(x, SparseArr):
        return x
    k = None
    if dtype is not None:
        k = {"int": "i", "float": "f", "bool": "b"}.get(getattr(dtype, "__name__", str(dtype)).replace("b_", ""))
    if not hasattr(x, "__iter__"):
        return npelem(x)
    return SymArr.of(x, k)


def _lift1(f, kind=None):
    def g(x):
        if isinstance(x, SymArr):
            return x.map(f, kind)
        if isinstance(x, (list, tuple)):
            return SymArr.of(x).map(f, kind)
        return f(x)
    return g


def _isnan1(x):
    if x is None:
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return m_isnan(x)


def _npfn(f):
    """numpy's version of a math function: no domain errors, arrays too."""
    def one(x):
        if isinstance(x, SymBool):
            x = x.num()
        if isinstance(x, SymNum):
            return npelem(f(SymNum(x.k, x.t, True)))
        try:
            return npelem(float(f(float(x))))
        except ValueError:
            return _np.float64("nan")
        except OverflowError:
            return _np.float64("inf")
    return _lift1(one, "f")


def _log1(x):
    if isinstance(x, SymNum):
        return m_log(x)
    return float(_np.log(x))


def np_sum(x, axis=None):
    return (x if isinstance(x, SymArr) else SymArr.of(list(x))).sum(axis)


def np_mean(x, axis=None):
    return (x if isinstance(x, SymArr) else SymArr.of(list(x))).mean(axis)


def np_std(x, axis=None):
    return (x if isinstance(x, SymArr) else SymArr.of(list(x))).std()


def np_var(x):
    return (x if isinstance(x, SymArr) else SymArr.of(list(x))).var()


def np_median(x):
    items = list(x.a.reshape(-1)) if isinstance(x, SymArr) else [pn(y) for y in x]
    n = len(items)
    if n == 0 or any(_isnan_c(y) for y in items):
        return _np.float64("nan")
    s = sym_sort(items)
    if n % 2:
        return npelem(tofelem(s[n // 2]))
    return npelem((tofelem(s[n // 2 - 1]) + tofelem(s[n // 2])) / 2.0)


def pn(y):
    return y.item() if isinstance(y, _np.generic) else y


def np_sort(x):
    r = x.copy() if isinstance(x, SymArr) else SymArr.of(list(x))
    r.sort()
    return r


def np_cumsum(x):
    x = x if isinstance(x, SymArr) else SymArr.of(list(x))
    out = []
    s = 0
    for i, v in enumerate(x.a.reshape(-1)):
        s = v if i == 0 else s + v
        out.append(s)
    return SymArr.of(out, x.kind if out else "f")


def np_diff(x):
    x = x if isinstance(x, SymArr) else SymArr.of(list(x))
    return x[1:] - x[:-1]


def np_flip(x, axis=None):
    if isinstance(x, FuncArr):
        return x.flip(axis)
    x = x if isinstance(x, SymArr) else SymArr.of(list(x))
    return SymArr(_np.flip(x.a, axis), x.kind)


def np_flipud(x):
    if isinstance(x, FuncArr):
        return x.flip(0)
    x = x if isinstance(x, SymArr) else SymArr.of(list(x))
    return SymArr(x.a[::-1], x.kind)


def np_roll(x, shift, axis=None):
    if isinstance(x, FuncArr):
        return x.roll(shift, axis)
    return SymArr(_np.roll(x.a, shift, axis), x.kind)


def np_nonzero(x):
    if isinstance(x, SparseArr) and x.size != _math.prod(x.full):
        x = x.mat()
    if isinstance(x, SparseArr):
        idx = []
        if bool(x.default != 0):
            raise Unsupported("nonzero cells of a big array")
        for ix in sorted(x.cells):
            if bool(x.cells[ix] != 0):
                idx.append(ix)
        if not idx:
            return tuple(_np.array([], dtype=int) for _ in x.shape)
        return tuple(_np.array(c, dtype=int) for c in zip(*idx))
    x = x if isinstance(x, SymArr) else SymArr.of(list(x))
    m = _np.array([bool(v != 0) if not isinstance(v, SymBool) else bool(v) for v in x.a.reshape(-1)],
                  dtype=bool).reshape(x.a.shape)
    return _np.nonzero(m)


def np_where(c, *ab):
    if not ab:
        return np_nonzero(c)
    a, b = ab
    c = c if isinstance(c, SymArr) else SymArr.of(list(c)) if hasattr(c, "__iter__") else c
    if not isinstance(c, SymArr):
        r = ite(c, a, b)
        return npelem(r)

    def get(v, i):
        if isinstance(v, SymArr):
            return v.a.reshape(-1)[i]
        if isinstance(v, (list, tuple, _np.ndarray)):
            return pn(v[i])
        return v
    out = []
    for i, k in enumerate(c.a.reshape(-1)):
        v = ite(k, get(a, i), get(b, i)) if isinstance(k, SymBool) else (get(a, i) if k else get(b, i))
        if v is NotImplemented:
            v = get(a, i) if k else get(b, i)
        out.append(v)
    return SymArr.of(out)


def np_argmax(x):
    return (x if isinstance(x, SymArr) else SymArr.of(list(x))).argmax()


def np_argmin(x):
    return (x if isinstance(x, SymArr) else SymArr.of(list(x))).argmin()


def np_any(x):
    from . import hooks
    return hooks.b_any(x.a.reshape(-1) if isinstance(x, SymArr) else x)


def np_all(x):
    from . import hooks
    return hooks.b_all(x.a.reshape(-1) if isinstance(x, SymArr) else x)


def np_logical_or(a, b):
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        a = a if isinstance(a, SymArr) else SymArr.of(a)
        return a | b
    return _bor(a, b)


def np_logical_and(a, b):
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        a = a if isinstance(a, SymArr) else SymArr.of(a)
        return a & b
    return _band(a, b)


def np_logical_not(a):
    return ~a if isinstance(a, SymArr) else bnot(a)


def np_arange(*args):
    args = [a.__index__() if isinstance(a, SymNum) and a.k in "IG" else a for a in args]
    return SymArr.of(_np.arange(*args).tolist(), "i" if all(isinstance(a, (int, _np.integer)) for a in args) else "f")


def np_arctan2(y, x):
    if not issym(y) and not issym(x):
        return _np.float64(_math.atan2(y, x))
    return npelem(m_atan2(y, x))


def np_abs(x):
    if isinstance(x, SymArr):
        return abs(x)
    if isinstance(x, (list, tuple)):
        return abs(SymArr.of(x))
    return npelem(abs(x))


def np_clip(x, lo, hi):
    from . import hooks
    f = lambda v: hooks.b_min([hooks.b_max([v, lo]), hi])
    return x.map(f) if isinstance(x, SymArr) else npelem(f(x))


def np_maximum(a, b):
    from . import hooks
    if isinstance(a, SymArr):
        return a._bin(b, lambda p, q: hooks.b_max([p, q]))
    return npelem(hooks.b_max([a, b]))


def np_minimum(a, b):
    from . import hooks
    if isinstance(a, SymArr):
        return a._bin(b, lambda p, q: hooks.b_min([p, q]))
    return npelem(hooks.b_min([a, b]))


def np_max(x):
    return (x if isinstance(x, SymArr) else SymArr.of(list(x))).max()


def np_min(x):
    return (x if isinstance(x, SymArr) else SymArr.of(list(x))).min()


def np_count_nonzero(x):
    x = x if isinstance(x, SymArr) else SymArr.of(list(x))
    return SymArr.of([v if isinstance(v, (bool, SymBool)) else v != 0 for v in x.a.reshape(-1)], "b").sum()


def np_floor(x):
    return _lift1(lambda v: npelem(core.tofloat(core.floor_(v)) if isinstance(v, SymNum) else float(_math.floor(v))))(x)


def np_concatenate(xs, axis=0):
    out = []
    for x in xs:
        out += list(x)
    return SymArr.of(out)


def np_array_equal(a, b):
    if len(a) != len(b):
        return False
    from . import hooks
    return hooks.b_all([hooks.compare1("Eq", x, y) for x, y in zip(a, b)])


class float64(float):
    """Stands for numpy.float64 in type tests."""

    def __new__(cls, x=0.0):
        if isinstance(x, SymNum):
            r = core.tofloat(x)
            return SymNum(r.k, r.t, True)
        return _np.float64(x)


def np_float(x=0.0):
    from . import hooks
    return hooks.b_float(x)


class _MA(_Mod):
    pass


def np_square(x):
    return x * x

def np_flatnonzero(x):
    x = x if isinstance(x, (SymArr, SparseArr)) else SymArr.of(list(x))
    r = np_nonzero(x)
    if len(r) == 1:
        return SymArr.of(r[0])
    return SymArr.of(_np.ravel_multi_index(r, x.shape))


def np_argwhere(x):
    r = np_nonzero(x)
    return SymArr.of([[int(v) for v in t] for t in zip(*r)])


def _npbin(f):
    """A two-argument numpy function: element by element, arrays and numbers."""
    def g(a, b):
        a = SymArr.of(a) if isinstance(a, (list, tuple)) else a if isinstance(a, SymArr) else npelem(a)
        b = SymArr.of(b) if isinstance(b, (list, tuple)) else b if isinstance(b, SymArr) else npelem(b)
        if isinstance(a, SymArr):
            return a._bin(b, f)
        if isinstance(b, SymArr):
            return b._bin(a, lambda p, q: f(q, p))
        return npelem(f(a, b))
    return g


def _npop(f):
    """The same, by the operator arrays and numpy numbers have."""
    def g(a, b):
        a = SymArr.of(a) if isinstance(a, (list, tuple)) else a if isinstance(a, SymArr) else npelem(a)
        b = SymArr.of(b) if isinstance(b, (list, tuple)) else b if isinstance(b, SymArr) else npelem(b)
        return f(a, b)
    return g


def _tf(v):
    return core.tofloat(v) if issym(v) else float(v)


def np_prod(x):
    r = 1
    for v in (x.a.reshape(-1) if isinstance(x, SymArr) else x):
        r = r * v
    return npelem(r)


def np_ptp(x):
    return np_max(x) - np_min(x)


def np_append(x, v):
    return np_concatenate([x, v if hasattr(v, "__iter__") else [v]])


def np_round(x, n=0):
    if n:
        raise Unsupported("numpy.round to decimals")

    def one(v):
        if not isinstance(v, SymNum):
            return float(_np.round(v))
        f = core.floor_(v)                                  # to the nearest, halves to the even one
        d = v - f
        odd = (f % 2) == 1
        return core.tofloat(ite(d > 0.5, f + 1, ite(d < 0.5, f, ite(odd, f + 1, f))))
    return _lift1(lambda v: npelem(one(v)), "f")(x)


def _sign1(v):
    return ite(v > 0, 1, ite(v < 0, -1, 0)) if issym(v) else int(_np.sign(v))


def np_nanmean(x):
    from . import hooks
    xs = [v for v in (x.a.reshape(-1) if isinstance(x, SymArr) else x) if not bool(m_isnan(v))]
    return np_mean(xs)


def np_isclose(a, b, rtol=1e-05, atol=1e-08):
    return _npbin(lambda p, q: abs(p - q) <= atol + rtol * abs(q))(a, b)


def np_searchsorted(a, v, side="left"):
    n = 0
    for x in (a.a.reshape(-1) if isinstance(a, SymArr) else a):
        n = n + ite((x < v) if side == "left" else (x <= v), 1, 0)
    return n


def numpy_module():
    ma = _Mod("numpy.ma", dict(array=ma_array, masked=_np.ma.masked))
    return _Mod("numpy", dict(
        pi=PI, nan=_math.nan, NaN=_math.nan, inf=_math.inf, e=_math.e,
        float64=_np.float64, float32=_np.float32, int64=_np.int64, bool_=_np.bool_, ndarray=SymArr,
        sin=_npfn(m_sin), cos=_npfn(m_cos), exp=_npfn(m_exp), log=_npfn(_log1), arctan=_npfn(m_atan),
        arccos=_npfn(m_acos), arcsin=_npfn(m_asin), sqrt=_npfn(sym_sqrt), arctan2=np_arctan2,
        isnan=_lift1(_isnan1, None), zeros=np_zeros, ones=np_ones, full=np_full, empty=np_zeros, array=np_array,
        asarray=np_array, sum=np_sum, mean=np_mean, average=np_mean, std=np_std, var=np_var, median=np_median,
        sort=np_sort, cumsum=np_cumsum, diff=np_diff, flip=np_flip, flipud=np_flipud, roll=np_roll,
        nonzero=np_nonzero, where=np_where, argmax=np_argmax, argmin=np_argmin, any=np_any, all=np_all,
        logical_or=np_logical_or, logical_and=np_logical_and, logical_not=np_logical_not, arange=np_arange,
        abs=np_abs, absolute=np_abs, fabs=np_abs, clip=np_clip, maximum=np_maximum, minimum=np_minimum, max=np_max,
        min=np_min, amax=np_max, amin=np_min, count_nonzero=np_count_nonzero, floor=np_floor,
        concatenate=np_concatenate, array_equal=np_array_equal, square=np_square, power=lambda a, b: a ** b,
        radians=lambda x: x * (PI / 180.0), deg2rad=lambda x: x * (PI / 180.0),
        degrees=lambda x: x * (180.0 / PI), rad2deg=lambda x: x * (180.0 / PI),
        ma=ma, float=np_float, int=lambda x: x, bool=bool,
        isfinite=_lift1(lambda x: bnot(m_isnan(x)) if issym(x) else _math.isfinite(x)),
        zeros_like=lambda x, dtype=None: np_zeros(x.shape), empty_like=lambda x, dtype=None: np_zeros(x.shape),
        ones_like=lambda x, dtype=None: np_ones(x.shape), full_like=lambda x, v, dtype=None: np_full(x.shape, v),
        flatnonzero=np_flatnonzero, argwhere=np_argwhere, prod=np_prod, ptp=np_ptp, append=np_append,
        round=np_round, around=np_round, rint=np_round, sign=_lift1(lambda v: npelem(_sign1(v))), nanmean=np_nanmean,
        isclose=np_isclose, searchsorted=np_searchsorted, hypot=_npbin(m_hypot), size=lambda x: x.size,
        ceil=_npfn(lambda v: _tf(m_ceil(v))), trunc=_npfn(lambda v: _tf(m_trunc(v))),
        fix=_npfn(lambda v: _tf(m_trunc(v))), hstack=np_concatenate,
        mod=_npop(_op.mod), remainder=_npop(_op.mod), fmod=_npbin(m_fmod), negative=_lift1(lambda v: -v),
        add=_npop(_op.add), subtract=_npop(_op.sub), multiply=_npop(_op.mul), divide=_npop(_op.truediv),
        true_divide=_npop(_op.truediv), greater=_npop(_op.gt), less=_npop(_op.lt), greater_equal=_npop(_op.ge),
        less_equal=_npop(_op.le), equal=_npop(_op.eq), not_equal=_npop(_op.ne),
        ravel=lambda x: SymArr.of(list(x.a.reshape(-1))), ndim=lambda x: x.a.ndim, shape=lambda x: x.shape))



def ma_array(x, mask=False):
    r = x
    r.all_masked = bool(mask)
    return r


# ------------------------------------------------------------------ dates

CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def isleap(y):
    if not isinstance(y, SymNum):
        return _calendar.isleap(y)
    t = y.t
    return mkbool(z3.simplify(leap_t(t)))


def _t(x):
    return x.t if isinstance(x, SymNum) else z3.IntVal(int(x))


def month_len_t(y, m):
    lp = leap_t(y)
    return z3.If(m == 2, z3.If(lp, z3.IntVal(29), z3.IntVal(28)),
                 z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))


def ordinal_t(y, m, d):
    """date.toordinal() as a term."""
    lp = leap_t(y)
    cum = z3.IntVal(0)
    for k in range(12, 1, -1):
        pass
    cum = z3.IntVal(CUM[11])
    for k in range(10, -1, -1):
        cum = z3.If(m == k + 1, z3.IntVal(CUM[k]), cum)
    y1 = y - 1
    return z3.simplify(365 * y1 + core.idiv_const(y1, 4) - core.idiv_const(y1, 100) + core.idiv_const(y1, 400) + cum + z3.If(z3.And(m > 2, lp), 1, 0) + d)


class SymTimedelta:
    def __init__(self, us):
        self.us = us            # Int term, microseconds

    @property
    def days(self):
        return SymNum("I", z3.simplify(core.idiv_const(self.us, 86400000000)))

    @property
    def seconds(self):
        return SymNum("I", z3.simplify((core.parts_of(self.us, 86400000000)[1] % 86400000000) / 1000000))

    @property
    def microseconds(self):
        return SymNum("I", z3.simplify(self.us % 1000000))

    def total_seconds(self):
        return SymNum("R", z3.simplify(z3.ToReal(self.us) / 1000000))

    def __neg__(self):
        return SymTimedelta(-self.us)

    def __abs__(self):
        return SymTimedelta(z3.If(self.us >= 0, self.us, -self.us))

    def __add__(self, o):
        if isinstance(o, (SymTimedelta, _dt.timedelta)):
            return SymTimedelta(self.us + td_us(o))
        if isinstance(o, (SymDatetime, _dt.datetime)):
            return as_symdt(o) + self
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return SymTimedelta(self.us - td_us(o))

    def __mul__(self, k):
        return SymTimedelta(self.us * _t(k))
    __rmul__ = __mul__

    def _cmp(self, o, op):
        return core.compare(op, SymNum("I", self.us), SymNum("I", td_us(o)))
    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o): return self._cmp(o, "==") if isinstance(o, (SymTimedelta, _dt.timedelta)) else False
    __hash__ = None


def td_us(o):
    if isinstance(o, SymTimedelta):
        return o.us
    return z3.IntVal((o.days * 86400 + o.seconds) * 1000000 + o.microseconds)


def as_symdt(o):
    if isinstance(o, SymDatetime):
        return o
    if isinstance(o, _dt.datetime):
        return SymDatetime(o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond)
    return SymDatetime(o.year, o.month, o.day, 0, 0, 0, 0)


class TimeTuple(tuple):
    tm_year, tm_mon, tm_mday, tm_hour, tm_min, tm_sec, tm_wday, tm_yday, tm_isdst = [
        property(lambda self, i=i: self[i]) for i in range(9)]


class SymDatetime:
    def __init__(self, y, mo, d, h=0, mi=0, s=0, us=0):
        self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond = y, mo, d, h, mi, s, us

    def total_us(self):
        o = ordinal_t(_t(self.year), _t(self.month), _t(self.day))
        return z3.simplify(((((o * 24 + _t(self.hour)) * 60 + _t(self.minute)) * 60 + _t(self.second)) * 1000000) + _t(
            self.microsecond))

    def toordinal(self):
        return SymNum("I", ordinal_t(_t(self.year), _t(self.month), _t(self.day)))

    def date(self):
        return SymDatetime(self.year, self.month, self.day)

    def timetuple(self):
        yday = SymNum("I", z3.simplify(ordinal_t(_t(self.year), _t(self.month), _t(self.day)) - ordinal_t(
            _t(self.year), z3.IntVal(1), z3.IntVal(1)) + 1))
        return TimeTuple((self.year, self.month, self.day, self.hour, self.minute, self.second, self.weekday(), yday, -1))

    def time(self):
        return TimeTuple((self.hour, self.minute, self.second, self.microsecond))

    def weekday(self):
        return SymNum("I", z3.simplify((self.toordinal().t + 6) % 7))

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None):
        return new_datetime(self.year if year is None else year, self.month if month is None else month,
                            self.day if day is None else day, self.hour if hour is None else hour,
                            self.minute if minute is None else minute, self.second if second is None else second,
                            self.microsecond if microsecond is None else microsecond)

    def isoformat(self):
        from .symstr import fmt_value
        r = fmt_value(self.year, "04d") + "-" + fmt_value(self.month, "02d") + "-" + fmt_value(self.day, "02d")
        return r

    def strftime(self, f):
        from .symstr import fmt_value, as_sym
        out = as_sym("")
        i = 0
        while i < len(f):
            if f[i] == "%":
                k = f[i + 1]
                i += 2
                if k == "Y":
                    out = out + fmt_value(self.year, "04d")
                elif k in "mdHMS":
                    v = {"m": self.month, "d": self.day, "H": self.hour, "M": self.minute, "S": self.second}[k]
                    out = out + fmt_value(v, "02d")
                else:
                    raise Unsupported("strftime %" + k)
            else:
                out = out + f[i]
                i += 1
        return out

    def __add__(self, o):
        us = td_us(o)
        tot = z3.simplify(self.total_us() + us)
        return from_us(tot, self, us)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymTimedelta, _dt.timedelta)):
            return self + SymTimedelta(-td_us(o))
        return SymTimedelta(z3.simplify(self.total_us() - as_symdt(o).total_us()))

    def __rsub__(self, o):
        return SymTimedelta(z3.simplify(as_symdt(o).total_us() - self.total_us()))

    def _lex(self, o, op):
        """Comparison of the fields in turn."""
        a = [_t(x) for x in self.fields()]
        b = [_t(x) for x in as_symdt(o).fields()]
        if op == "==":
            return mkbool(z3.simplify(z3.And([x == y for x, y in zip(a, b)])))
        acc = z3.BoolVal(op == "<=")
        for x, y in reversed(list(zip(a, b))):
            acc = z3.Or(x < y, z3.And(x == y, acc))
        return mkbool(z3.simplify(acc))

    def fields(self):
        return (self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond)

    def _isdt(self, o):
        return isinstance(o, (SymDatetime, _dt.date))

    def __lt__(self, o):
        return self._lex(o, "<") if self._isdt(o) else NotImplemented

    def __le__(self, o):
        return self._lex(o, "<=") if self._isdt(o) else NotImplemented

    def __gt__(self, o):
        return bnot(self._lex(o, "<=")) if self._isdt(o) else NotImplemented

    def __ge__(self, o):
        return bnot(self._lex(o, "<")) if self._isdt(o) else NotImplemented

    def __eq__(self, o):
        return self._lex(o, "==") if self._isdt(o) else False

    def __ne__(self, o):
        return bnot(self == o)

    __hash__ = None

    def __deepcopy__(self, memo):
        return self

    def symvalue(self, model):
        c = core.CTX
        return [c.evalue(x) for x in self.fields()]


def from_us(tot, near, us):
    """The date and time at a number of microseconds (new integers, defined by it)."""
    c = core.CTX
    key = ("date", z3.simplify(tot).get_id())
    if key not in c.memo:
        n = len(c.memo)
        y, m, d = z3.Int("date_y!%d" % n), z3.Int("date_m!%d" % n), z3.Int("date_d!%d" % n)
        if not bool(SymNum("I", tot) >= 86400000000):
            raise OverflowError("date value out of range")
        day = z3.simplify(tot / 86400000000)
        c.axiom_term(z3.Implies(tot >= 86400000000, z3.And(
            m >= 1, m <= 12, d >= 1, d <= month_len_t(y, m), y >= 1, ordinal_t(y, m, d) == day)))
        c.memo[key] = (tot, y, m, d)
    _, y, m, d = c.memo[key]
    rest = tot % 86400000000
    return SymDatetime(SymNum("I", y), SymNum("I", m), SymNum("I", d),
                       SymNum("I", z3.simplify(rest / 3600000000)),
                       SymNum("I", z3.simplify(rest / 60000000 % 60)),
                       SymNum("I", z3.simplify(rest / 1000000 % 60)),
                       SymNum("I", z3.simplify(rest % 1000000)))


def new_datetime(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0):
    fs = [year, month, day, hour, minute, second, microsecond]
    for f in fs:
        if isinstance(f, SymNum) and f.k not in "IG" or isinstance(f, float) or f is None:
            raise TypeError("an integer is required")
    if not any(issym(f) for f in fs):
        return _dt.datetime(*[int(f) for f in fs])
    y, m, d, h, mi, s, us = [_t(f) for f in fs]
    ok = z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= month_len_t(y, m), h >= 0, h < 24, mi >= 0, mi < 60,
                s >= 0, s < 60, us >= 0, us < 1000000)
    if not bool(mkbool(z3.simplify(ok))):
        raise ValueError("date out of range")
    return SymDatetime(*fs)


class datetime(metaclass=type("DTMeta", (type,), {
        "__instancecheck__": lambda cls, x: isinstance(x, (SymDatetime, _dt.datetime)),
        "__call__": lambda cls, *a, **k: new_datetime(*a, **k)})):
    @staticmethod
    def strptime(s, f):
        from .symstr import SymStr, Text
        if not isinstance(s, SymStr):
            return _dt.datetime.strptime(s, f)
        if isinstance(s, Text) and f == "%Y %m %d":
            nums = []
            for p in s.pieces:
                if isinstance(p, str):
                    nums += [int(x) for x in p.split()]
                else:
                    nums.append(p.num)
            if len(nums) == 3:
                return new_datetime(*nums)
        raise Unsupported("strptime")

    @staticmethod
    def fromordinal(n):
        if isinstance(n, SymNum):
            return from_us(z3.simplify(n.t * 86400000000), None, None)
        return _dt.datetime.fromordinal(n)

    @staticmethod
    def now():
        return _dt.datetime(2020, 1, 1)

    min = _dt.datetime.min
    max = _dt.datetime.max


class timedelta(metaclass=type("TDMeta", (type,), {
        "__instancecheck__": lambda cls, x: isinstance(x, (SymTimedelta, _dt.timedelta)),
        "__call__": lambda cls, *a, **k: new_timedelta(*a, **k)})):
    pass


def new_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    parts = [(days, 86400000000), (seconds, 1000000), (microseconds, 1), (milliseconds, 1000), (minutes, 60000000),
             (hours, 3600000000), (weeks, 7 * 86400000000)]
    if not any(issym(p) for p, _ in parts):
        return _dt.timedelta(days, seconds, microseconds, milliseconds, minutes, hours, weeks)
    tot = z3.IntVal(0)
    for p, k in parts:
        if isinstance(p, SymNum) and p.k == "R":
            y = p.t * k
            fl = z3.ToInt(y + realval(Fraction(1, 2)))
            tot = tot + fl          # (rounded to the microsecond; halves away from even are not told apart)
        else:
            tot = tot + _t(p) * k if not isinstance(p, float) else tot + z3.IntVal(int(round(p * k)))
    return SymTimedelta(z3.simplify(tot))


class date(metaclass=type("DMeta", (type,), {
        "__instancecheck__": lambda cls, x: isinstance(x, (SymDatetime, _dt.date)),
        "__call__": lambda cls, *a, **k: new_datetime(*a, **k)})):
    pass


def monthrange(y, m):
    if not issym(y) and not issym(m):
        return _calendar.monthrange(y, m)
    if not bool((m >= 1) & (m <= 12)):
        raise _calendar.IllegalMonthError(0)
    first = new_datetime(y, m, 1).weekday()
    return first, SymNum("I", z3.simplify(month_len_t(_t(y), _t(m))))


# ------------------------------------------------------------------ the rest

class Recorder:
    """Calls with effects outside the program: noted, never made."""

    def __init__(self):
        self.log = []
        self.files = {}


class Remembering:
    """functools.lru_cache: the arguments of the calls so far, and what came of them"""

    def __init__(self, fn, size):
        self.__wrapped__ = fn
        self.size = size
        self.calls = []

    def __call__(self, *args, **kw):
        from . import hooks
        key = args + tuple(x for k in sorted(kw) for x in (k, kw[k]))
        for i, (old, result) in enumerate(self.calls):
            if len(old) == len(key) and all(a is b or bool(hooks.compare1("Eq", a, b)) for a, b in zip(key, old)):
                self.calls.append(self.calls.pop(i))
                return result
        result = self.__wrapped__(*args, **kw)
        self.calls.append((key, result))
        if self.size is not None and len(self.calls) > self.size:
            self.calls.pop(0)
        return result

    def __get__(self, obj, cls=None):
        import types as _types
        return self if obj is None else _types.MethodType(self, obj)

    def cache_clear(self):
        del self.calls[:]


def functools_module():
    import functools

    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize):
            return Remembering(maxsize, 128)
        return lambda fn: Remembering(fn, maxsize)
    return _Mod("functools", dict(functools.__dict__, lru_cache=lru_cache, cache=lambda fn: Remembering(fn, None)))


def modules():
    mods = {
        "numpy": numpy_module(),
        "math": math_module(),
        "datetime": _Mod("datetime", dict(datetime=datetime, timedelta=timedelta, date=date)),
        "calendar": _Mod("calendar", dict(isleap=isleap, monthrange=monthrange,
                                          IllegalMonthError=_calendar.IllegalMonthError)),
        "netCDF4": _Mod("netCDF4", dict(Dataset=None)),
        "gzip": _Mod("gzip", dict(open=None)),
        "subprocess": _Mod("subprocess", dict(call=None, check_output=None)),
    }
    import posixpath
    mods["os"] = _Mod("os", dict(path=_Mod("os.path", dict(
        join=posixpath.join, isfile=None, exists=None, basename=posixpath.basename, dirname=posixpath.dirname)),
        mkdir=None, makedirs=None, stat=None, environ={}, system=None, remove=None, sep="/"))
    mods["os.path"] = mods["os"].path
    dp = _Mod("dateutil.parser", dict(parse=None))
    mods["dateutil"] = _Mod("dateutil", dict(parser=dp))
    mods["dateutil.parser"] = dp
    import configparser
    mods["ConfigParser"] = configparser
    mods["functools"] = functools_module()
    mods["time"] = _Mod("time", dict(sleep=lambda s: None, time=lambda: 0.0))
    return mods

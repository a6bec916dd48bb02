"""Sines and cosines in closed form.

An angle is a symbolic real together with two numbers S, C with S^2 + C^2 = 1 that stand for its sine and cosine.  The
sine or cosine of a sum of whole multiples of angles is expanded by the addition formulas, arcus functions make new
angles, and terms are brought to a normal form modulo the relations known (S^2 = 1 - C^2, w^2 = u for a root w of u,
inv * den = 1).  What is left for the solver is arithmetic over S, C and the roots.  Relations the solver does not need
to refute a condition are kept apart (`defs`) and only added when it looks for a counterexample.
"""
import math
from fractions import Fraction

import z3

from . import core
from .core import SymNum, SymBool, Unsupported, frac, realval, mkbool

PI = frac(math.pi)
EPS = Fraction(1, 10 ** 9)
LIMIT = 200000


def near_int(x):
    n = round(x)
    return int(n) if abs(x - n) < EPS else None


class Trig:
    def __init__(self, c):
        self.c = c
        self.atoms = {}        # name -> z3 term
        self.byid = {}         # term id -> atom name
        self.order = {}        # name -> rank (greater: rewritten first)
        self.square = {}       # atom -> polynomial of its square
        self.prod = []         # (monomial as dict, polynomial)
        self.keep = []
        self.memo = {}
        self.angles = []       # (monomial, unit, S poly, C poly)
        self.defs = []
        self.square0 = {}      # as introduced
        self.den = {}          # inverse atom -> its denominator
        self.nonneg = []       # atoms that are not negative
        self.alias = {}        # atom -> the polynomial it stands for
        self.bases = []        # (S term, C term)
        self.n = 0
        self.cache = {}

    # ---------------------------------------------------------------- atoms
    def fresh(self, kind):
        self.n += 1
        t = z3.Real("%s!t%d" % (kind, self.n))
        return self.atom(t), t

    def atom(self, t):
        i = t.get_id()
        if i in self.byid:
            return self.byid[i]
        name = "a%03d" % len(self.atoms)
        self.atoms[name] = t
        self.byid[i] = name
        self.keep.append(t)
        return name

    # ---------------------------------------------------------------- polynomials: {((atom, exponent), ...): coefficient}
    @staticmethod
    def const(k):
        return {(): Fraction(k)} if k else {}

    @staticmethod
    def var(a):
        return {((a, 1),): Fraction(1)}

    @staticmethod
    def add(p, q, k=1):
        r = dict(p)
        for m, v in q.items():
            s = r.get(m, 0) + k * v
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def mono(m, n):
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items()))

    def mul(self, p, q):
        r = {}
        for m, v in p.items():
            for n, w in q.items():
                k = self.mono(m, n)
                s = r.get(k, 0) + v * w
                if s:
                    r[k] = s
                else:
                    r.pop(k, None)
        return self.reduce(r)

    def scale(self, p, k):
        return {m: v * k for m, v in p.items()} if k else {}

    def unfold(self, p):
        """The normal form in the atoms first introduced: nothing stands for a longer polynomial."""
        for _ in range(10):
            hit = [(m, v) for m, v in p.items() if any(a in self.alias for a, _ in m)]
            if not hit:
                break
            p = {m: v for m, v in p.items() if not any(a in self.alias for a, _ in m)}
            for m, v in hit:
                q = {(): v}
                for a, e in m:
                    for _ in range(e):
                        f = self.alias.get(a) or self.var(a)
                        q = self.reduce_mul(q, f)
                p = self.add(p, q)
        return self.reduce(p, True)

    def clear(self, p):
        """p, its denominators multiplied out, with nothing folded: zero exactly when p is (denominators are not zero)."""
        p = self.unfold(p)
        for _ in range(12):
            top = {}
            for m in p:
                for a, e in m:
                    if a in self.den:
                        top[a] = max(top.get(a, 0), e)
            if not top:
                break
            a, e = sorted(top.items())[-1]
            d = self.unfold(self.den[a])
            out = {}
            for m, v in p.items():
                f = dict(m)
                k = e - f.pop(a, 0)
                q = {tuple(sorted(f.items())): v}
                for _ in range(k):
                    q = self.reduce_mul(q, d)
                out = self.add(out, q)
            p = self.unfold(out)
        return p

    def reduce_mul(self, p, q):
        r = {}
        for m, v in p.items():
            for n, w in q.items():
                k = self.mono(m, n)
                r[k] = r.get(k, 0) + v * w
        return self.reduce({m: v for m, v in r.items() if v}, True)

    def reduce(self, p, plain=False):
        todo, out, steps = dict(p), {}, 0
        while todo:
            m, v = todo.popitem()
            steps += 1
            if steps > LIMIT:
                raise Unsupported("a trigonometric term too large")
            rep = self.rewrite(m, plain)
            if rep is None:
                s = out.get(m, 0) + v
                if s:
                    out[m] = s
                else:
                    out.pop(m, None)
                continue
            rest, poly = rep
            for n, w in poly.items():
                k = self.mono(rest, n)
                s = todo.get(k, 0) + v * w
                if s:
                    todo[k] = s
                else:
                    todo.pop(k, None)
        return out

    def rewrite(self, m, plain):
        d = dict(m)
        square = self.square0 if plain else self.square
        for lhs, rhs, folds in self.prod:
            if not (plain and folds) and all(d.get(a, 0) >= e for a, e in lhs):
                for a, e in lhs:
                    d[a] -= e
                return tuple(sorted((a, e) for a, e in d.items() if e)), rhs
        for a, e in m:
            if e >= 2 and a in square:
                d[a] -= 2
                return tuple(sorted((b, f) for b, f in d.items() if f)), square[a]
        return None

    def rule(self, lhs, rhs, folds=False):
        self.prod.insert(0, (tuple(sorted(lhs)), rhs, folds))
        self.cache.clear()

    def term(self, p):
        s = []
        for m, v in sorted(p.items()):
            t = realval(v)
            first = v == 1 and m
            for a, e in m:
                for _ in range(e):
                    t = self.atoms[a] if first else t * self.atoms[a]
                    first = False
            s.append(t)
        if not s:
            return z3.RealVal(0)
        return z3.simplify(z3.Sum(s)) if len(s) > 1 else z3.simplify(s[0])

    # ---------------------------------------------------------------- terms
    def nf(self, t):
        t = z3.simplify(t)
        i = t.get_id()
        if i in self.cache:
            return self.cache[i]
        r = self._nf(t)
        self.keep.append(t)
        self.cache[i] = r
        return r

    def _nf(self, t):
        if z3.is_rational_value(t):
            return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t):
            return self.const(t.as_long())
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD:
            r = {}
            for x in t.children():
                r = self.add(r, self.nf(x))
            return self.reduce(r)
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            r = self.nf(ch[0])
            for x in ch[1:]:
                r = self.add(r, self.nf(x), -1)
            return self.reduce(r)
        if k == z3.Z3_OP_UMINUS:
            return self.scale(self.nf(t.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = self.const(1)
            for x in t.children():
                r = self.mul(r, self.nf(x))
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
            e = t.arg(1)
            if e.denominator_as_long() == 1 and 0 <= e.numerator_as_long() <= 6:
                r = self.const(1)
                for _ in range(e.numerator_as_long()):
                    r = self.mul(r, self.nf(t.arg(0)))
                return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.nf(t.arg(0)), self.inverse(self.nf(t.arg(1))))
        return self.reduce(self.var(self.atom(t)))

    def inverse(self, p):
        if not p:
            raise Unsupported("division by zero in a trigonometric term")
        if len(p) > 1:
            return self.var(self.inv_of(None, p))
        (m, v), = p.items()
        r = self.const(1 / v)
        for a, e in m:
            i = self.inv_of(a, None)
            for _ in range(e):
                r = self.mul(r, self.var(i))
        return r

    def inv_of(self, a, p):
        key = ("inv", a if p is None else tuple(sorted(p.items())))
        if key in self.memo:
            return self.memo[key]
        i, t = self.fresh("inv")
        self.memo[key] = i
        if p is None:
            self.rule([(i, 1), (a, 1)], self.const(1))
            den = self.atoms[a]
            self.den[i] = self.var(a)
            q = self.square.get(a)
            if q is not None and q.get((), 0) == 1 and len(q) == 2:
                # a^2 = 1 - b^2, so b^2 / a^2 = 1 / a^2 - 1
                (m, v), = [x for x in q.items() if x[0]]
                if v == -1 and len(m) == 1 and m[0][1] == 2:
                    self.rule([(i, 2), m[0]], {((i, 2),): Fraction(1), (): Fraction(-1)})
        else:
            den = self.term(p)
            self.den[i] = p
        self.defs.append(z3.Implies(den != 0, t * den == 1))
        return i

    # ---------------------------------------------------------------- angles
    def pair(self, p, kind="C"):
        """An atom for a cosine given as a polynomial (itself when it is one already)."""
        if len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1 and list(p)[0][0][1] == 1:
            return p
        if not p or list(p) == [()]:
            return p
        key = ("alias", tuple(sorted(self.unfold(p).items())))
        if key not in self.memo:
            a, t = self.fresh(kind)
            self.alias[a] = p
            self.defs.append(t == self.term(p))
            lead = max(p, key=lambda m: (sum(e for _, e in m), sum(1 for x, e in m if x in self.square), m))
            v = p[lead]
            rest = {m: -w / v for m, w in p.items() if m != lead}
            self.rule(lead, self.add({((a, 1),): 1 / v}, rest), True)
            self.memo[key] = a
        return self.var(self.memo[key])

    def new_angle(self, t, unit, s, c):
        """t: a real variable; unit: radians per unit of t."""
        self.angles.append((((self.atom(t), 1),), Fraction(unit), s, c))

    def circle(self, kind):
        s, st = self.fresh("S" + kind)
        k, kt = self.fresh("C" + kind)
        self.square[s] = self.square0[s] = {(): Fraction(1), ((k, 2),): Fraction(-1)}
        self.cache.clear()
        self.c.axiom_term(st * st + kt * kt == 1)
        for x in (st, kt):
            self.c.axiom_term(z3.And(x >= -1, x <= 1))
        return self.var(s), self.var(k), st, kt

    def resolve(self, t):
        """t without if-then-else (by forking)."""
        for _ in range(20):
            x = find_ite(t)
            if x is None:
                return t
            b = bool(mkbool(z3.simplify(x.arg(0))))
            t = z3.simplify(z3.substitute(t, (x, x.arg(1) if b else x.arg(2))))
        raise Unsupported("too many cases in an angle")

    def sincos(self, t):
        p = self.nf(self.resolve(t))
        key = ("sc", tuple(sorted(p.items())))
        if key in self.memo:
            return self.memo[key]
        s, c = {}, self.const(1)
        for m, v in sorted(p.items()):
            if m == ():
                q = near_int(v * 2 / PI)
                if q is not None:
                    s1, c1 = [({}, self.const(1)), (self.const(1), {}), ({}, self.const(-1)), (self.const(-1), {})][q % 4]
                else:
                    s1, c1 = self.const(frac(math.sin(v))), self.const(frac(math.cos(v)))
            else:
                if len(m) == 1 and m[0][1] == 1:
                    a = self.atoms[m[0][0]]
                    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL and near_int(v / (2 * PI)) is not None:
                        continue                 # whole turns
                s1, c1 = self.multiple(m, v)
            s, c = (self.add(self.mul(s, c1), self.mul(c, s1)), self.add(self.mul(c, c1), self.mul(s, s1), -1))
        s, c = self.reduce(s), self.reduce(c)
        self.memo[key] = (s, c)
        return s, c

    def multiple(self, m, v):
        for n, unit, s, c in self.angles:
            if n == m:
                k = near_int(v / unit)
                if k is not None and abs(k) <= 8:
                    return self.times(k, s, c)
                k = near_int(2 * v / unit)
                if k is not None and abs(k) <= 8:
                    return self.times(k, *self.half(n, unit, s, c))
        s, c, st, ct = self.circle("x")
        self.angles.append((m, abs(v), s, c))
        return self.times(1 if v > 0 else -1, s, c)

    def half(self, m, unit, s, c):
        """Sine and cosine of half an angle of at most half a turn."""
        key = ("half", m, unit)
        if key not in self.memo:
            p, q, st, ct = self.circle("h")
            ((a, _),), = p
            ((b, _),), = q
            h = Fraction(1, 2)
            self.square[a] = self.square0[a] = self.add(self.const(h), c, -h)
            self.square[b] = self.square0[b] = self.add(self.const(h), c, h)
            self.rule([(a, 1), (b, 1)], self.scale(s, h))
            if len(s) == 1 and len(list(s)[0]) == 1 and list(s.values()) == [1]:
                w = list(s)[0][0]
                self.rule([(b, 1), w], self.mul(p, self.add(self.const(1), c)))
                self.rule([(a, 1), w], self.mul(q, self.add(self.const(1), c, -1)))
            self.c.axiom_term(ct >= 0)
            self.c.axiom_term(z3.And((st > 0) == (self.atoms[m[0][0]] > 0), (st < 0) == (self.atoms[m[0][0]] < 0)))
            self.defs += [2 * st * st == 1 - self.term(c), 2 * ct * ct == 1 + self.term(c), 2 * st * ct == self.term(s)]
            self.memo[key] = (p, q)
        return self.memo[key]

    def times(self, k, s, c):
        a, b = {}, self.const(1)
        for _ in range(abs(k)):
            a, b = self.add(self.mul(a, c), self.mul(b, s)), self.add(self.mul(b, c), self.mul(a, s), -1)
        return (self.scale(a, -1) if k < 0 else a), b

    def root(self, p):
        """A polynomial whose square is p, nonnegative."""
        if not p:
            return {}
        if list(p) == [()]:
            k = p[()]
            if k < 0:
                raise ValueError("math domain error")
            n, d = math.isqrt(k.numerator), math.isqrt(k.denominator)
            if n * n == k.numerator and d * d == k.denominator:
                return self.const(Fraction(n, d))
        u = self.unfold(p)
        if u != p and (not u or list(u) == [()]):
            return self.root(u)
        key = ("root", tuple(sorted(u.items())))
        if key not in self.memo:
            cand = [self.var(a) for a in self.nonneg[-8:]]
            sq = [self.reduce_mul(x, x) for x in map(self.unfold, cand)]
            for i in range(len(cand)):
                for j in range(i + 1, len(cand)):
                    if not self.clear(self.add(self.reduce_mul(sq[i], sq[j]), u, -1)):
                        return self.mul(cand[i], cand[j])
            w, t = self.fresh("root")
            self.nonneg.append(w)
            self.square[w] = self.square0[w] = p
            self.cache.clear()
            self.c.axiom_term(t >= 0)
            self.defs.append(t * t == self.term(p))
            self.memo[key] = w
        return self.var(self.memo[key])

    # ---------------------------------------------------------------- functions of the code
    def num(self, p, np=True):
        t = self.term(p)
        v = core.termval(t)
        if v is not None:
            return float(v)
        return SymNum("R", t, np)

    def sin(self, x):
        if not core.issym(x):
            return math.sin(x)
        return self.num(self.sincos(core.tofloat(x).t)[0], x.np)

    def cos(self, x):
        if not core.issym(x):
            return math.cos(x)
        return self.num(self.sincos(core.tofloat(x).t)[1], x.np)

    def sqrt(self, x):
        return self.num(self.root(self.nf(core.tofloat(x).t)), x.np)

    def angle_of(self, s, c, kind, lo, hi):
        key = (kind, tuple(sorted(self.unfold(s).items())), tuple(sorted(self.unfold(c).items())))
        if key in self.memo:
            return SymNum("R", self.memo[key], True), False
        c = self.pair(c)
        sa = self.pair(s, "S")
        if len(sa) == 1 and list(sa)[0] and len(c) == 1 and list(c)[0]:
            a, b = list(sa)[0][0][0], list(c)[0][0][0]
            if sa == self.var(a) and c == self.var(b):
                self.square[a] = {(): Fraction(1), ((b, 2),): Fraction(-1)}
                self.c.axiom_term(self.atoms[a] * self.atoms[a] + self.atoms[b] * self.atoms[b] == 1)
                self.cache.clear()
        _, t = self.fresh(kind)
        self.memo[key] = t
        self.c.axiom_term(z3.And(t >= realval(frac(lo)), t <= realval(frac(hi))))
        self.new_angle(t, 1, sa, c)
        st, ct = self.term(sa), self.term(c)
        pi, half = realval(PI), realval(PI / 2)
        ax = self.c.axiom_term
        if kind == "atan2":
            ax(z3.Implies(st > 0, z3.And(t > 0, t < pi)))
            ax(z3.Implies(st < 0, z3.And(t < 0, t > -pi)))
            ax(z3.Implies(z3.And(st == 0, ct > 0), t == 0))
            ax(z3.Implies(z3.And(st == 0, ct < 0), t == pi))
            ax((ct > 0) == z3.And(t > -half, t < half))
            ax(z3.Implies(ct == 0, z3.Or(t == half, t == -half)))
        elif kind == "acos":
            ax((ct > 0) == (t < half))
            ax((t == 0) == (ct == 1))
            ax((t == pi) == (ct == -1))
        else:
            ax((st > 0) == (t > 0))
            ax((st < 0) == (t < 0))
            ax((t == half) == (st == 1))
            ax((t == -half) == (st == -1))
        return SymNum("R", t, True), True

    def acos(self, x):
        c = self.nf(core.tofloat(x).t)
        s = self.root(self.add(self.const(1), self.mul(c, c), -1))
        return self.angle_of(s, c, "acos", 0.0, math.pi)[0]

    def asin(self, x):
        s = self.nf(core.tofloat(x).t)
        c = self.root(self.add(self.const(1), self.mul(s, s), -1))
        return self.angle_of(s, c, "asin", -math.pi / 2, math.pi / 2)[0]

    def atan2(self, y, x):
        p, q = self.nf(core.lift(y, "R")), self.nf(core.lift(x, "R"))
        h = self.root(self.add(self.mul(p, p), self.mul(q, q)))
        if not h:
            return 0.0
        if list(h) != [()]:
            t = self.term(h)
            if bool(mkbool(z3.simplify(t == 0))):
                return 0.0
            i = self.inverse(h)
            y0, x0 = self.term(p), self.term(q)
            p, q = self.mul(p, i), self.mul(q, i)
            r, new = self.angle_of(p, q, "atan2", -math.pi, math.pi)
            if new:
                # the root divided by is positive
                s, c = [x for x in self.angles if x[0] == ((self.atom(r.t), 1),)][0][2:]
                for a, b in ((self.term(s), y0), (self.term(c), x0)):
                    self.c.axiom_term(z3.And((a > 0) == (b > 0), (a < 0) == (b < 0)))
            return r
        else:
            k = 1 / h[()]
            p, q = self.scale(p, k), self.scale(q, k)
        if (not p or list(p) == [()]) and (not q or list(q) == [()]):
            return math.atan2(float(p.get((), 0)), float(q.get((), 0)))
        return self.angle_of(p, q, "atan2", -math.pi, math.pi)[0]

    # ---------------------------------------------------------------- for harnesses
    def base(self, name, lo, hi, unit):
        """An input angle in the given unit (radians per unit)."""
        c = self.c
        x = c.float(name, lo, hi)
        s, k = c.float(name + ".sin", -1.0, 1.0), c.float(name + ".cos", -1.0, 1.0)
        sa, ka = self.atom(s.t), self.atom(k.t)
        self.square[sa] = self.square0[sa] = {(): Fraction(1), ((ka, 2),): Fraction(-1)}
        c.axiom_term(s.t * s.t + k.t * k.t == 1)
        self.bases.append((s.t, k.t))
        self.new_angle(x.t, frac(unit), self.var(sa), self.var(ka))
        half = realval(PI / 2 / frac(unit))
        turn = realval(PI / frac(unit))
        u = 0.0
        if hi * unit <= math.pi / 2 + 1e-9 and lo * unit >= -math.pi / 2 - 1e-9:
            u = 90.0
            c.axiom_term(k.t >= 0)
            self.nonneg.append(ka)
            c.axiom_term(z3.And((s.t > 0) == (x.t > 0), (s.t < 0) == (x.t < 0)))
        elif lo * unit >= -math.pi - 1e-9 and hi * unit <= math.pi + 1e-9:
            tol = realval(frac(1e-9))
            c.axiom_term(z3.Implies(s.t > 0, z3.And(x.t > 0, x.t < turn + tol)))
            c.axiom_term(z3.Implies(s.t < 0, z3.And(x.t < 0, x.t > -turn - tol)))
            c.axiom_term(z3.Implies(s.t == 0, z3.If(k.t > 0, x.t == 0, z3.Or(x.t >= turn - tol, x.t <= tol - turn))))
            if lo >= 0:
                c.axiom_term(s.t >= 0)
        return x

    def zero(self, x, y):
        """x == y, decided on the normal form."""
        p = self.nf(core.lift(x, "R") - core.lift(y, "R"))
        if p:
            u = self.clear(p)
            p = u if len(u) < len(p) else p
        return mkbool(z3.simplify(self.term(p) == 0))


def find_ite(t):
    seen = set()

    def go(x):
        if x.get_id() in seen:
            return None
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return x
        for y in x.children():
            r = go(y)
            if r is not None:
                return r
        return None
    return go(t)


TRIPLES = [(0, 1), (1, 0)] + [(Fraction(2 * m * n, m * m + n * n), Fraction(m * m - n * n, m * m + n * n))
                             for m, n in ((2, 1), (3, 2), (4, 1), (3, 1), (5, 2), (8, 1), (12, 1), (30, 1))]


SMALL = [(Fraction(2 * m, m * m + 1), Fraction(m * m - 1, m * m + 1)) for m in (200, 3000, 50000)]


def guesses(trig, rng, n):
    """Assignments of the input angles: points of the circle anywhere, near the axes, and near each other."""
    for _ in range(n):
        out = []
        back = rng.choice((0, 0, 0, 1, 2, 2))    # near the input so many before, all along
        for s, k in trig.bases:
            if out and (len(out) >= back if back else rng.random() < 0.3):
                a, b = (out[-back] if back else rng.choice(out))[2:]
                x, y = rng.choice(SMALL + [(Fraction(0), Fraction(1))])
                if rng.random() < 0.5:
                    x = -x
                a, b = a * y + b * x, b * y - a * x
            else:
                a, b = rng.choice(TRIPLES[2:] * 3 + TRIPLES + SMALL * 2)
                if rng.random() < 0.5:
                    a, b = b, a
                if rng.random() < 0.5:
                    a = -a
                if rng.random() < 0.5:
                    b = -b
            out.append((s, k, Fraction(a), Fraction(b)))
        yield out

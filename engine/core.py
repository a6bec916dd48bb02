"""Symbolic values and path exploration (z3) for the Python 2 sources of /repo.

A SymNum stands for a Python number:  kind 'I' int (z3 Int), 'R' float taken as
an exact real (z3 Real), 'F' float as IEEE double (z3 FP64), 'G' an int held in
an integer-valued IEEE double (int(x) of kind F).  A SymBool stands for a bool.
Path exploration is by re-execution: each truth test whose outcome the path
condition does not settle is a decision; the alternatives are queued.
"""
import fractions
import math
import random
import os
import sys
import time

import z3

F64 = z3.Float64()
RNE = z3.RNE()
Fraction = fractions.Fraction


class Control(BaseException):
    """Steers exploration; never visible to the code under test."""


class Infeasible(Control):
    pass


class Unsupported(Control):
    pass


class NoFork(Control):
    pass


class Budget(Control):
    pass


FORCE = bool(os.environ.get("SV_FORCE"))      # for trials of the sampling of paths that are not encoded
CTX = None


def ctx():
    return CTX


def frac(x):
    """The decimal a float literal was written as (0.1 is 1/10)."""
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


def realval(fr):
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def isnum(x):
    return isinstance(x, (int, float)) or type(x).__module__ == "numpy" and hasattr(x, "dtype") and x.ndim == 0


def pynum(x):
    if type(x).__module__ == "numpy":
        return x.item()
    return x


def boolterm(x):
    if isinstance(x, SymBool):
        return x.t
    return z3.BoolVal(bool(x))


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self.t)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ == "bool_":
            return mkbool(z3.And(self.t, boolterm(o)))
        return self.num() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ == "bool_":
            return mkbool(z3.Or(self.t, boolterm(o)))
        return self.num() | o
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, boolterm(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def num(self):
        return SymNum("I", z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.t == boolterm(o))
        if o is None or isinstance(o, str):
            return False
        return self.num() == o

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return id(self) >> 4 if KEYED else hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __add__(self, o): return self.num() + o
    def __radd__(self, o): return o + self.num()
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * o
    def __rmul__(self, o): return o * self.num()
    def __truediv__(self, o): return self.num() / o
    def __floordiv__(self, o): return self.num() // o
    def __lt__(self, o): return self.num() < o
    def __le__(self, o): return self.num() <= o
    def __gt__(self, o): return self.num() > o
    def __ge__(self, o): return self.num() >= o
    def __neg__(self): return -self.num()

    def __repr__(self):
        return "<symbolic bool>"

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def all(self): return self
    def any(self): return self
    def item(self): return self

    @property
    def dtype(self):
        return _DType("b")


class _DType:
    def __init__(self, kind):
        self.kind = kind


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bnot(x):
    if isinstance(x, SymBool):
        return mkbool(z3.simplify(z3.Not(x.t)))
    return not x


def fpconst(v):
    return z3.FPVal(float(v), F64)


def numkind(x):
    if isinstance(x, SymNum):
        return x.k
    if isinstance(x, bool):
        return "I"
    if isinstance(x, int):
        return "I"
    return "R"


def _special(x):
    return isinstance(x, float) and (math.isnan(x) or math.isinf(x))


def lift(x, k):
    """z3 term of x in kind k."""
    if isinstance(x, SymBool):
        x = x.num()
    if isinstance(x, SymNum):
        if x.k == k:
            return x.t
        if k == "R" and x.k == "I":
            return toreal(x.t)
        if k in "FG" and x.k in "FG":
            return x.t
        if k in "FG" and x.k == "I":
            return z3.fpRealToFP(RNE, z3.ToReal(x.t), F64)
        if k in "FG" and x.k == "R":
            return z3.fpRealToFP(RNE, x.t, F64)
        raise Unsupported("lift %s to %s" % (x.k, k))
    if k in "FG":
        return fpconst(x)
    if k == "I":
        return z3.IntVal(int(x))
    return realval(frac(x))


def toreal(t):
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    return z3.ToReal(t)


def join(a, b):
    ka, kb = numkind(a), numkind(b)
    s = {ka, kb}
    if "F" in s:
        return "F"
    if "G" in s:
        return "F" if "R" in s else "G"
    if "R" in s:
        return "R"
    return "I"


def split_int(t, depth=0):
    """(Int term, Fraction) with t equal to their sum, or None."""
    if z3.is_rational_value(t):
        return z3.IntVal(0), Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0), Fraction(0)
    if depth > 6 or not z3.is_app(t):
        return None
    k = t.decl().kind()
    if k == z3.Z3_OP_UMINUS:
        x = split_int(t.arg(0), depth + 1)
        return x and (-x[0], -x[1])
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        out = None
        for i in range(t.num_args()):
            x = split_int(t.arg(i), depth + 1)
            if x is None:
                return None
            if out is None:
                out = x
            elif k == z3.Z3_OP_ADD:
                out = out[0] + x[0], out[1] + x[1]
            else:
                out = out[0] - x[0], out[1] - x[1]
        return out
    if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
        f = Fraction(t.arg(0).numerator_as_long(), t.arg(0).denominator_as_long())
        x = split_int(t.arg(1), depth + 1)
        if x is None or f.denominator != 1:
            return None
        return z3.IntVal(f.numerator) * x[0], f * x[1]
    if k == z3.Z3_OP_ITE:
        x, y = split_int(t.arg(1), depth + 1), split_int(t.arg(2), depth + 1)
        if x is None or y is None or (x[1] - y[1]).denominator != 1:
            return None
        return z3.If(t.arg(0), x[0], y[0] + z3.IntVal(int(y[1] - x[1]))), x[1]
    return None


def floor_t(t):
    """floor of a Real term as Int term."""
    x = split_int(t)
    if x is not None:
        return z3.simplify(x[0] + z3.IntVal(math.floor(x[1])))
    return z3.ToInt(t)


def trunc_t(t):
    x = split_int(t)
    if x is not None and x[1].denominator == 1:
        return z3.simplify(x[0] + z3.IntVal(int(x[1])))
    if CTX is not None and CTX.quick_nonneg(t):
        return floor_t(t)
    return z3.If(t >= 0, floor_t(t), -floor_t(z3.simplify(-t)))


def parts_of(a, n):
    """(q, r): a = n * q + r, q what of a is divisible by n term by term."""
    a = z3.simplify(a)
    q, r = [], []
    for t in (a.children() if z3.is_add(a) else [a]):
        if z3.is_int_value(t):
            v = t.as_long()
            q.append(z3.IntVal(v // n))
            r.append(z3.IntVal(v % n))
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % n == 0:
            q.append(z3.IntVal(t.arg(0).as_long() // n) * t.arg(1))
        else:
            r.append(t)
    return z3.simplify(z3.Sum(q)) if q else z3.IntVal(0), z3.simplify(z3.Sum(r)) if r else z3.IntVal(0)


def idiv_const(a, n):
    q, r = parts_of(a, n)
    if z3.is_int_value(r):
        return z3.simplify(q + z3.IntVal(r.as_long() // n))
    if CTX is not None and CTX.ranges:
        from . import shims
        i = shims.interval(CTX, r)
        if i is not None and i[0] // n == i[1] // n:
            return z3.simplify(q + z3.IntVal(int(i[0] // n)))
    if z3.is_int_value(q):
        return a / z3.IntVal(n)
    return q + r / z3.IntVal(n)


def imod_const(a, n):
    return z3.simplify(a - n * idiv_const(a, n))


def _idiv_t(a, b):
    """floor division of Int terms (b not zero)."""
    if z3.is_int_value(b):
        bv = b.as_long()
        if bv > 0:
            return idiv_const(a, bv)
        return (-a) / z3.IntVal(-bv)
    return z3.If(b > 0, a / b, (-a) / (-b))


class SymNum:
    __slots__ = ("k", "t", "np")
    __array_ufunc__ = None          # numpy leaves mixed operations to us

    def __init__(self, k, t, np=False):
        self.k = k
        self.t = t
        self.np = np

    # arithmetic -----------------------------------------------------------
    def _bin(self, o, op, swap=False):
        if isinstance(o, SymBool):
            o = o.num()
        if not isinstance(o, SymNum):
            if not isnum(o):
                return NotImplemented
            o = pynum(o)
            if _special(o):
                return _special_arith(op, self, o, swap)
        a, b = (o, self) if swap else (self, o)
        return arith(op, a, b)

    def __add__(self, o): return self._bin(o, "+")
    def __radd__(self, o): return self._bin(o, "+", True)
    def __sub__(self, o): return self._bin(o, "-")
    def __rsub__(self, o): return self._bin(o, "-", True)
    def __mul__(self, o): return self._bin(o, "*")
    def __rmul__(self, o): return self._bin(o, "*", True)
    def __truediv__(self, o): return self._bin(o, "/")
    def __rtruediv__(self, o): return self._bin(o, "/", True)
    def __floordiv__(self, o): return self._bin(o, "//")
    def __rfloordiv__(self, o): return self._bin(o, "//", True)
    def __mod__(self, o): return self._bin(o, "%")
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, "%", True)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self

    def __pow__(self, o):
        if isinstance(o, float) and o == int(o):
            o = int(o)
            fl = True
        else:
            fl = False
        if isinstance(o, int) and 0 <= o <= 6:
            if o == 0:
                return 1.0 if (fl or self.k in "RF") else 1
            r = self
            for _ in range(o - 1):
                r = r * self
            if fl:
                r = tofloat(r)
            return r
        if isinstance(o, int) and -6 <= o < 0:
            return 1.0 / (self ** (-o))
        if o == 0.5:
            from . import shims
            return shims.sym_sqrt(self)
        from . import shims
        return shims.uf("pow", self, o)

    def __rpow__(self, o):
        from . import shims
        return shims.uf("pow", o, self)

    def __neg__(self):
        if self.k in "FG":
            return SymNum(self.k, z3.fpNeg(self.t), self.np)
        return SymNum(self.k, -self.t, self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.k in "FG":
            return SymNum(self.k, z3.fpAbs(self.t), self.np)
        return SymNum(self.k, z3.If(self.t >= 0, self.t, -self.t), self.np)

    def _bit(self, o, op):
        # bit operations: only on small ranges, by case split
        a = self.__index__()
        b = o.__index__()
        return op(a, b)
    def __and__(self, o): return self._bit(o, lambda a, b: a & b)
    def __or__(self, o): return self._bit(o, lambda a, b: a | b)
    def __rand__(self, o): return self._bit(o, lambda a, b: b & a)
    def __ror__(self, o): return self._bit(o, lambda a, b: b | a)

    # comparison -----------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = o.num()
        if not isinstance(o, SymNum):
            if o is None or isinstance(o, str):
                return NotImplemented
            if not isnum(o):
                return NotImplemented
            o = pynum(o)
            if _special(o):
                if math.isnan(o):
                    return op == "!="
                if self.k == "F":
                    return mkbool(z3.simplify(_cmpterm(op, self.t, fpconst(o), "F")))
                if op == "==":
                    return False
                if op == "!=":
                    return True
                return (o > 0) == (op in ("<", "<="))
        return compare(op, self, o)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented and (o is None or isinstance(o, str)) else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented and (o is None or isinstance(o, str)) else r

    # conversion -----------------------------------------------------------
    def __hash__(self):
        if KEYED:                       # kept as a key as it is; looked up by hooks.find_key
            return id(self) >> 4
        return hash(CTX.concretise(self))

    def __index__(self):
        if self.k not in "IG":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.concretise(self)

    def __int__(self):
        return CTX.concretise(toint(self))

    def __float__(self):
        return float(CTX.concretise(self))

    def __bool__(self):
        return bool(self != 0)

    def __round__(self, nd=None):
        raise Unsupported("py3 round")

    def __trunc__(self):
        return toint(self)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __str__(self):
        return str(CTX.concretise(self))

    def __format__(self, spec):
        return format(CTX.concretise(self), spec)

    def __repr__(self):
        return "<symbolic %s>" % self.k

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def is_integer(self):
        if self.k == "R":
            return mkbool(z3.simplify(z3.IsInt(self.t)))
        if self.k == "F":
            return mkbool(z3.fpEQ(self.t, z3.fpRoundToIntegral(z3.RTZ(), self.t)))
        return True

    def item(self):
        return SymNum(self.k, self.t)

    def copy(self):
        return self

    def conjugate(self):
        return self

    def sqrt(self):
        from . import shims
        return shims.sym_sqrt(self)

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        return _DType("i" if self.k in "IG" else "f")

    @property
    def shape(self):
        return ()

    @property
    def mask(self):
        if self.np == "masked_elem":
            return False
        raise AttributeError("mask")


def _special_arith(op, a, o, swap):
    if math.isnan(o):
        return float("nan")
    if op in "+-":
        if op == "-" and not swap:
            return -o
        return o
    if op == "/" and not swap:
        return 0.0
    raise Unsupported("arithmetic with inf")


def _fpop(op, a, b):
    if op == "+":
        return z3.fpAdd(RNE, a, b)
    if op == "-":
        return z3.fpSub(RNE, a, b)
    if op == "*":
        return z3.fpMul(RNE, a, b)
    if op == "/":
        return z3.fpDiv(RNE, a, b)
    raise Unsupported("fp " + op)


def arith(op, a, b):
    k = join(a, b)
    np = getattr(a, "np", False) or getattr(b, "np", False)
    if op == "/" and k in "IG":
        k = "R" if k == "I" else "F"          # true division; the py2 hook asks for // itself
    if k in "FG":
        x, y = lift(a, k), lift(b, k)
        if op == "/" and not np:
            CTX.zero_div(mkbool(z3.simplify(z3.fpIsZero(y))))
        if op == "//":
            CTX.zero_div(mkbool(z3.simplify(z3.fpIsZero(y))))
            # (rounded quotient; exact for a divisor that is a power of two)
            q = z3.fpRoundToIntegral(z3.RTN(), z3.fpDiv(RNE, x, y))
            return SymNum(k, q, np)
        if op == "%":
            raise Unsupported("fp modulo")
        return SymNum(k, _fpop(op, x, y), np)
    x, y = lift(a, k), lift(b, k)
    if op in ("/", "//", "%"):
        z = mkbool(z3.simplify(y == 0))
        if np and op == "/":
            if z is True or (isinstance(z, SymBool) and bool(z)):
                num0 = mkbool(z3.simplify(x == 0))
                if num0 is True or (isinstance(num0, SymBool) and bool(num0)):
                    return float("nan")
                return float("inf") if bool(mkbool(z3.simplify(x > 0))) else float("-inf")
        else:
            CTX.zero_div(z)
    if op == "+":
        t = x + y
    elif op == "-":
        t = x - y
    elif op == "*":
        t = x * y
    elif op == "/":
        if "opaque" in CTX.trigfacts and termval(z3.simplify(y)) is None:
            key = ("/", z3.simplify(x).get_id(), z3.simplify(y).get_id())
            if key not in CTX.memo:
                CTX.memo[key] = (x, y, z3.Real("quotient!%d" % len(CTX.memo)))
                CTX.axiom_term(CTX.memo[key][2] * y == x)
            t = CTX.memo[key][2]
        else:
            t = x / y
    elif op == "//":
        if k == "I":
            t = _idiv_t(x, y)
        else:
            t = z3.ToReal(floor_t(x / y))
    elif op == "%":
        if k == "I":
            t = x - y * _idiv_t(x, y)
        else:
            t = x - y * z3.ToReal(floor_t(x / y))
    else:
        raise Unsupported(op)
    return SymNum(k, z3.simplify(t), np)


def _cmpterm(op, x, y, k):
    if k in "FG":
        return {"<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ, "==": z3.fpEQ,
                "!=": lambda p, q: z3.Not(z3.fpEQ(p, q))}[op](x, y)
    return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
            "==": lambda: x == y, "!=": lambda: x != y}[op]()


def compare(op, a, b):
    k = join(a, b)
    if isinstance(a, SymNum) and isinstance(b, SymNum) and a.t.eq(b.t):
        if k != "F":
            return op in ("<=", ">=", "==")
    return mkbool(z3.simplify(_cmpterm(op, lift(a, k), lift(b, k), k)))


def toint(x):
    """Python's int(x)."""
    if isinstance(x, SymBool):
        return x.num()
    if x.k in "IG":
        return SymNum(x.k, x.t)
    if x.k == "F":
        return SymNum("G", z3.fpRoundToIntegral(z3.RTZ(), x.t))
    return SymNum("I", z3.simplify(trunc_t(x.t)))


def tofloat(x):
    if isinstance(x, SymBool):
        x = x.num()
    if x.k == "I":
        return SymNum("R", toreal(x.t), x.np)
    if x.k == "G":
        return SymNum("F", x.t, x.np)
    return SymNum(x.k, x.t)


def floor_(x):
    if x.k == "F":
        return SymNum("G", z3.fpRoundToIntegral(z3.RTN(), x.t))
    if x.k in "IG":
        return x
    return SymNum("I", z3.simplify(floor_t(x.t)))


def issym(x):
    return isinstance(x, (SymNum, SymBool))


def ite(c, a, b):
    """Value of  a if c else b  without a decision, when both fit one kind; None if they do not."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    ba = isinstance(a, (bool, SymBool))
    bb = isinstance(b, (bool, SymBool))
    if ba and bb:
        return mkbool(z3.simplify(z3.If(c.t, boolterm(a), boolterm(b))))
    if ba or bb:
        return NotImplemented
    na = isinstance(a, SymNum) or (isnum(a) and not _special(pynum(a)))
    nb = isinstance(b, SymNum) or (isnum(b) and not _special(pynum(b)))
    if na and nb:
        a = a if isinstance(a, SymNum) else pynum(a)
        b = b if isinstance(b, SymNum) else pynum(b)
        ka, kb = numkind(a), numkind(b)
        if ka == kb or {ka, kb} == {"R", "F"} or {ka, kb} == {"I", "G"}:
            k = join(a, b)
            np = getattr(a, "np", False) or getattr(b, "np", False)
            return SymNum(k, z3.simplify(z3.If(c.t, lift(a, k), lift(b, k))), np)
        return NotImplemented
    if type(a) is type(b) and isinstance(a, (str, type(None))) and a == b:
        return a
    return NotImplemented


def merge_value(c, a, b):
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        out = []
        for x, y in zip(a, b):
            v = merge_value(c, x, y)
            if v is NotImplemented:
                return v
            out.append(v)
        return type(a)(out)
    return ite(c, a, b)


# ------------------------------------------------------------------ exploration

class Violation:
    def __init__(self, label, inputs, detail=""):
        self.label = label
        self.inputs = inputs
        self.detail = detail


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.unknown = 0
        self.unknown_branches = 0
        self.unreplayed = {}
        self.unsupported = {}
        self.infeasible = 0
        self.budget = 0
        self.concretised = 0
        self.covers = set()
        self.exceptions = {}
        self.labels = {}


KEYED = 0


class Explorer:
    """Runs one harness over all its paths."""

    def __init__(self, harness, params, mode="real", time_limit=120.0, max_paths=200000, query_ms=20000,
                 check_ms=60000, max_viol=3, witnesses=6, nonlinear=False, replay=None, max_steps=200000, sampler=None):
        self.harness = harness
        self.params = params
        self.mode = mode
        self.time_limit = time_limit
        self.max_paths = max_paths
        self.query_ms = query_ms
        self.check_ms = check_ms
        self.max_viol = max_viol
        self.stats = Stats()
        self.violations = []
        self.witnesses = []
        self.want_witnesses = witnesses
        self.nonlinear = nonlinear
        self.replay = replay            # (inputs) -> text of what failed on the real code, or None
        self.max_steps = max_steps
        self.max_unreplayed = 12
        self.sampler = sampler          # (inputs, seed) -> (completed inputs, text of what failed or None)
        self.samples = 0
        self.max_samples = 60
        self.rng = random.Random(1)
        self.deadline = None
        self.stop_labels = set()

    def run(self, call):
        global CTX
        self.deadline = time.time() + self.time_limit
        work = [[]]
        while work:
            if time.time() > self.deadline or self.stats.paths >= self.max_paths:
                self.stats.budget += len(work)
                break
            prefix = work.pop()
            c = PathCtx(self, prefix)
            CTX = c
            if FORCE:
                self.abort_at = self.rng.randrange(1, 60)
            try:
                try:
                    call(c)
                except Exception as e:          # the code under test let an exception out
                    if os.environ.get("SV_DEBUG"):
                        import traceback
                        traceback.print_exc()
                    k = type(e).__name__
                    self.stats.exceptions[k] = self.stats.exceptions.get(k, 0) + 1
                    n = len(self.violations)
                    c.require(False, "no %s" % k)
                    if len(self.violations) == n:   # not on the real code: the path is not encoded
                        self.sample(c)
                c.finish()
                self.stats.paths += 1
            except Infeasible:
                self.stats.infeasible += 1
            except Budget:
                self.stats.budget += 1
            except (Unsupported, NoFork) as e:
                key = "%s: %s" % (type(e).__name__, e)
                self.stats.unsupported[key] = self.stats.unsupported.get(key, 0) + 1
                if os.environ.get("SV_DEBUG"):
                    import traceback
                    traceback.print_exc()
                self.sample(c)
            finally:
                CTX = None
                c.undo()
            work.extend(c.alternatives)
            if len(self.violations) >= self.max_viol:
                break
        return self


    def sample(self, c):
        """A path the machine cannot follow to its end: solver-made inputs of what is known of it, away from borders,
        are run on the real code. They discharge nothing; a failure there is a violation all the same."""
        if self.sampler is None or self.samples >= self.max_samples or self.stop_labels.intersection(["*"]):
            return
        # the first such paths get more tries than the later ones
        for _ in range(6 if self.samples < 12 else 2):
            if self.samples >= self.max_samples or time.time() > self.deadline:
                return
            self.samples += 1
            try:
                m = c.generic_model(self.rng)
            except (Control, z3.Z3Exception):
                return
            if m is None:
                return
            full, what = self.sampler(c.readmodel(m), self.rng.randrange(1 << 30))
            if what is not None:
                label = "on a path that is not encoded"
                if label not in self.stop_labels:
                    self.violations.append(Violation(label, full, what))
                    self.stop_labels.add(label)
                return


class PathCtx:
    symbolic = True

    def __init__(self, ex, prefix):
        self.ex = ex
        self.stats = ex.stats
        self.prefix = prefix
        self.trace = []
        self.alternatives = []
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.query_ms)
        self.pc = []
        self.inputs = {}          # name -> (kind, term)
        self.bounds = {}          # name of a real input -> (lo, hi)
        self.model = None
        self.nofork = 0
        self.patches = []
        self.observed = []
        self.nonlinear = ex.nonlinear
        self.mode = ex.mode
        self.fresh_n = 0
        self.digits = []          # (number, characters of its digits)
        self.ufs = {}
        self.memo = {}
        self.posts = []
        self.tables = {}
        self.steps = 0
        self.merging = 0
        self.axioms = []
        self.trig = None
        self.trigfacts = frozenset()
        self.calls = []           # of opaque functions
        self.revealed = False
        self.near = {}
        self.ranges = {}          # name of a number -> its bounds

    # ---- solver
    def axiom_term(self, t):
        """A fact that holds on every path (kept when the paths of a call are merged)."""
        if self.merging:
            self.axioms.append(t)
        self.add(t)

    def add(self, t):
        if z3.is_true(t):
            return
        self.pc.append(t)
        self.solver.add(t)
        if self.model is not None and not z3.is_true(self.model.eval(t, model_completion=True)):
            self.model = None

    def check(self, *extra):
        s = self.stats
        if time.time() > self.ex.deadline:
            raise Budget()
        s.queries += 1
        t0 = time.time()
        r = self.solver.check(*extra)
        if r == z3.unknown:
            r = self.retry(extra)
        s.solver_s += time.time() - t0
        return r

    def retry(self, extra, ms=None):
        """A fresh solver, other tactics."""
        self._m = None
        for tac in ("default", "nlsat"):
            try:
                if tac == "nlsat":
                    sol = z3.Tactic("qfnra-nlsat").solver()
                else:
                    sol = z3.SolverFor("QF_UFNIRA") if False else z3.SimpleSolver()
                sol.set("timeout", ms or self.ex.query_ms)
                for t in self.pc:
                    sol.add(t)
                for t in extra:
                    sol.add(t)
                r = sol.check()
                if r != z3.unknown:
                    if r == z3.sat:
                        self._m = sol.model()
                    return r
            except z3.Z3Exception:
                continue
        return z3.unknown

    def getmodel(self):
        if getattr(self, "_m", None) is not None:
            m, self._m = self._m, None
            return m
        return self.solver.model()

    def sat(self, t):
        """True / False / None (unknown)."""
        if self.model is not None and z3.is_true(self.model.eval(t, model_completion=True)):
            return True
        r = self.check(t)
        if r == z3.sat:
            self.model = self.getmodel()
            return True
        if r == z3.unsat:
            return False
        return None

    def quick_nonneg(self, t):
        return False

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        self.steps += 1
        if self.steps > self.ex.max_steps:
            raise Budget()
        if FORCE and self.steps == self.ex.abort_at:
            raise Unsupported("forced")
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] == "n":
                self.trace.append(d)
                if d[1] is None:
                    raise NoFork()
                return d[1]
            if d[0] != "b":
                raise Unsupported("non-deterministic replay of decisions")
            self.trace.append(d)
            self.add(t if d[1] else z3.Not(t))
            return d[1]
        st = self.sat(t)
        sf = self.sat(z3.Not(t))
        if st is False and sf is False:
            raise Infeasible()
        if sf is False or st is False:
            self.trace.append(("n", st is not False))
            return st is not False
        if self.nofork:
            self.trace.append(("n", None))
            raise NoFork()
        if st is None or sf is None:
            self.stats.unknown_branches += 1
        self.stats.decisions += 1
        self.alternatives.append(self.trace + [("b", False)])
        self.trace.append(("b", True))
        self.add(t)
        return True

    def entails(self, t):
        return self.sat(z3.Not(t)) is False

    def concretise(self, x):
        """A concrete value of x, all its other values queued as alternatives."""
        if isinstance(x, SymBool):
            return bool(x)
        t = z3.simplify(x.t)
        v = termval(t)
        if v is not None:
            return self._as(x, v)
        if self.nofork:
            raise NoFork()
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                if d[0] != "v":
                    raise Unsupported("non-deterministic replay of values")
                self.trace.append(d)
                eq = self._eqval(x, t, d[1])
                if d[2]:
                    self.add(eq)
                    return self._as(x, d[1])
                self.add(z3.Not(eq))
                continue
            if self.check() != z3.sat:
                raise Infeasible()
            self.model = self.getmodel()
            v = termval(self.model.eval(t, model_completion=True))
            if v is None:
                raise Unsupported("cannot read a value from the model")
            eq = self._eqval(x, t, v)
            r = self.sat(z3.Not(eq))
            if r is not False:
                self.stats.decisions += 1
                if x.k in "IG":
                    self.alternatives.append(self.trace + [("v", v, False)])
                else:
                    # a real number pinned to one value: the rest is left unexplored
                    self.stats.concretised += 1
            self.trace.append(("v", v, True))
            self.add(eq)
            return self._as(x, v)

    def _eqval(self, x, t, v):
        if x.k in "FG":
            return t == fpconst(v)
        if x.k == "I":
            return t == z3.IntVal(int(v))
        return t == realval(v if isinstance(v, Fraction) else frac(v))

    @staticmethod
    def _as(x, v):
        if x.k in "IG":
            return int(v)
        return float(v)

    def zero_div(self, z):
        if z is False:
            return
        if z is True or bool(z):
            raise ZeroDivisionError("division by zero")

    def speculate(self, thunk):
        """(True, value) if thunk runs without a decision or an exception."""
        self.nofork += 1
        try:
            return True, thunk()
        except NoFork:
            return False, None
        except Exception:
            return False, None
        finally:
            self.nofork -= 1

    def merged(self, fn):
        """fn with its paths joined into one value (fn must be free of side effects)."""
        def joined(*args, **kw):
            return self.join_paths(lambda: fn(*args, **kw))
        joined.__name__ = getattr(fn, "__name__", "joined")
        return joined

    def join_paths(self, thunk):
        if self.nofork:
            return thunk()
        i = len(self.trace)
        outer_trace, outer_prefix, outer_alts = self.trace, self.prefix, self.alternatives
        npc = len(self.pc)
        if i < len(outer_prefix):
            d = outer_prefix[i]
            if d[0] == "m0":           # could not be merged: an ordinary call
                self.trace.append(d)
                return thunk()
            if d[0] != "m1":
                raise Unsupported("non-deterministic replay of a merged call")
        results = []
        work = [[]]
        ok = True
        model0 = self.model
        try:
            while work:
                self.trace, self.prefix, self.alternatives = [], work.pop(), []
                self.solver.push()
                self.merging += 1
                nax = len(self.axioms)
                try:
                    v = thunk()
                    results.append((list(self.pc[npc:]), v))
                except Infeasible:
                    pass
                except Exception:
                    ok = False
                finally:
                    self.merging -= 1
                    self.solver.pop()
                    del self.pc[npc:]
                    self.model = None
                    for t in self.axioms[nax:]:
                        self.add(t)
                    npc = len(self.pc)
                if not ok:
                    break
                work.extend(self.alternatives)
                if len(results) > 300:
                    ok = False
                    break
        finally:
            self.trace, self.prefix, self.alternatives = outer_trace, outer_prefix, outer_alts
            self.model = model0
        if ok and results:
            v = results[-1][1]
            for cond, w in reversed(results[:-1]):
                v = merge_value(SymBool(z3.And(cond) if len(cond) != 1 else cond[0]) if cond else True, w, v)
                if v is NotImplemented:
                    break
            if v is not NotImplemented:
                self.trace.append(("m1",))
                return v
        self.trace.append(("m0",))
        return thunk()

    # ---- inputs (harness API)
    def _reg(self, name, kind, term):
        if name in self.inputs:
            raise RuntimeError("input declared twice: " + name)
        self.inputs[name] = (kind, term)

    def int(self, name, lo, hi):
        t = z3.Int(name)
        self._reg(name, "I", t)
        self.ranges[name] = Fraction(lo), Fraction(hi)
        self.add(z3.And(t >= lo, t <= hi))
        return SymNum("I", t)

    def float(self, name, lo, hi, grid=None):
        """A float in [lo, hi]; grid=n: a multiple of 1/n (n a power of two: exact as a double)."""
        if self.mode == "fp" and grid is None:
            t = z3.FP(name, F64)
            self._reg(name, "F", t)
            self.add(z3.And(z3.fpGEQ(t, fpconst(lo)), z3.fpLEQ(t, fpconst(hi))))
            return SymNum("F", t)
        if grid:
            i = z3.Int(name)
            self._reg(name, "grid%d" % grid, i)
            self.add(z3.And(i >= math.ceil(frac(lo) * grid), i <= math.floor(frac(hi) * grid)))
            return SymNum("R", z3.ToReal(i) / grid if grid != 1 else z3.ToReal(i))
        t = z3.Real(name)
        self._reg(name, "R", t)
        self.bounds[name] = (float(lo), float(hi))
        self.ranges[name] = frac(lo), frac(hi)
        self.add(z3.And(t >= realval(frac(lo)), t <= realval(frac(hi))))
        return SymNum("R", t)

    def bool(self, name):
        t = z3.Bool(name)
        self._reg(name, "B", t)
        return SymBool(t)

    def str(self, name, minlen, maxlen, lo=" ", hi="~", alphabet=None):
        """A string of minlen..maxlen characters (the length is a decision)."""
        from . import symstr
        n = minlen if minlen == maxlen else self.concretise(self.int(name + "#", minlen, maxlen))
        chars = []
        for i in range(n):
            t = z3.Int("%s[%d]" % (name, i))
            self._reg("%s[%d]" % (name, i), "I", t)
            if alphabet is not None:
                self.add(z3.Or([t == ord(x) for x in alphabet]))
            else:
                self.add(z3.And(t >= ord(lo), t <= ord(hi)))
            chars.append(t)
        return symstr.make(chars)

    def flag(self, name):
        """A fork right away: True or False."""
        return bool(self.bool(name))

    def opt(self, name, make):
        """None, or make(name)."""
        if self.flag(name + "?"):
            return make(name)
        return None

    def choice(self, name, items):
        i = self.int(name, 0, len(items) - 1)
        return items[self.concretise(i)]

    def assume(self, c):
        if isinstance(c, SymBool):
            t = z3.simplify(c.t)
            if z3.is_true(t):
                return
            if z3.is_false(t):
                raise Infeasible()
            self.add(t)
            i = len(self.trace)
            if i >= len(self.prefix):
                if self.check() == z3.unsat:
                    raise Infeasible()
                self.model = None
        elif not c:
            raise Infeasible()

    def uf(self, name, *args, lo=None, hi=None):
        """An arbitrary but fixed real function of its arguments."""
        terms = []
        for a in args:
            if a is None:
                terms.append(z3.RealVal(-987654321))
            elif isinstance(a, float) and math.isnan(a):
                terms.append(z3.RealVal(-987654322))
            else:
                terms.append(z3.simplify(lift(a, "R")))
        f = self.ufs.get(name)
        if f is None:
            f = z3.Function(name, *([z3.RealSort()] * (len(terms) + 1)))
            self.ufs[name] = f
        t = f(*terms)
        tab = self.tables.setdefault(name, [])
        if not any(t.eq(x[1]) for x in tab):
            tab.append((terms, t))
            if lo is not None:
                self.axiom_term(t >= realval(frac(lo)))
            if hi is not None:
                self.axiom_term(t <= realval(frac(hi)))
        return SymNum("R", t)

    def field(self, name, shape, lo, hi, masked=True):
        """A (masked) float array of the given shape with arbitrary contents."""
        from . import shims
        import numpy

        def get(ix):
            if masked and bool(self.uf(name + ".mask", *ix, lo=0, hi=1) > 0.5):
                return numpy.ma.masked
            return shims.npelem(self.uf(name, *ix, lo=lo, hi=hi))
        return shims.FuncArr(shape, get)

    def angle(self, name, lo, hi, unit=math.pi / 180.0):
        """An angle; from here on sines and cosines are kept in closed form (see trig.py)."""
        from . import trig
        if self.trig is None:
            self.trig = trig.Trig(self)
        return self.trig.base(name, lo, hi, unit)

    def facts(self, *names):
        """More about sines and cosines of arbitrary numbers: "period", "smooth" (they change no faster than their
        argument), "unit" (their squares add to one), "arcus" (they undo the arcus functions); or less: "opaque" (all
        are some number in their range)."""
        self.trigfacts = frozenset(names)

    def reveal(self, *names):
        """Facts about the functions that were opaque so far (see shims.reveal)."""
        from . import shims
        self.revealed = True
        shims.reveal(self, names)

    def same(self, a, b):
        """a equals b, up to the relations between sines and cosines."""
        if self.trig is None or not (isinstance(a, SymNum) or isinstance(b, SymNum)):
            return self.close(a, b)
        return self.trig.zero(a, b)

    def npfloat(self, x):
        """x as an element of a numpy float array."""
        from . import shims
        return shims.npelem(shims.tofelem(x))

    def fresh_real(self, name, *conds):
        self.fresh_n += 1
        t = z3.Real("%s!%d" % (name, self.fresh_n))
        return SymNum("R", t)

    def fresh_int(self, name):
        self.fresh_n += 1
        return SymNum("I", z3.Int("%s!%d" % (name, self.fresh_n)))

    def axiom(self, c):
        """A fact about a stub or an auxiliary value (no feasibility check)."""
        self.axiom_term(boolterm(c))

    # ---- properties
    def cover(self, label):
        self.stats.covers.add(label)

    def require(self, cond, label):
        """The property: cond must hold on every input of this path."""
        s = self.stats
        s.checks += 1
        s.labels[label] = s.labels.get(label, 0) + 1
        if isinstance(cond, (SymNum,)):
            cond = cond != 0
        if not isinstance(cond, SymBool):
            if cond:
                return
            neg = z3.BoolVal(True)
        else:
            neg = z3.simplify(z3.Not(cond.t))
            if z3.is_false(neg):
                return
        if label in self.ex.stop_labels:
            return
        if self.revealed:
            from . import shims
            if shims.linear(self, neg) or shims.part(self, neg):
                return
        self.solver.set("timeout", self.ex.check_ms)
        r = None
        try:
            r = self.check(neg)
        finally:
            self.solver.set("timeout", self.ex.query_ms)
        if r == z3.unsat:
            return
        m = self.guided(neg) if self.trig is not None else None
        if m is None and r == z3.unknown:
            s.unknown += 1
            if self.calls:
                self.ex.sample(self)
            return
        if m is None:
            m = self.getmodel()
        cands = [m]
        # nicer counterexamples: on dyadic and decimal grids, then as found
        real_inputs = [t for (k, t) in self.inputs.values() if k == "R"]
        if real_inputs:
            nicer = []
            for g in (4, 64, 10, 1000):
                self.solver.push()
                self.solver.set("timeout", 3000)
                for t in real_inputs:
                    self.solver.add(z3.IsInt(t * g))
                self.solver.add(neg)
                try:
                    if self.solver.check() == z3.sat:
                        nicer.append(self.solver.model())
                except z3.Z3Exception:
                    pass
                self.solver.pop()
                self.solver.set("timeout", self.ex.query_ms)
            cands = nicer + cands
        if self.ex.replay is None:
            self.ex.violations.append(Violation(label, self.readmodel(cands[0])))
            self.ex.stop_labels.add(label)
            return
        seen = []
        for mm in cands:
            inp = self.readmodel(mm)
            if inp in seen:
                continue
            seen.append(inp)
            what = self.ex.replay(inp)
            if what is not None:
                self.ex.violations.append(Violation(label, inp, what))
                self.ex.stop_labels.add(label)
                return
        n = s.unreplayed.setdefault(label, [0, seen[0]])
        n[0] += 1
        if n[0] >= self.ex.max_unreplayed:
            self.ex.stop_labels.add(label)
        if self.revealed:
            # found in a picture coarser than the code: other inputs of this path may show it
            self.ex.sample(self)

    def guided(self, neg, secs=40):
        """A model with the input angles at rational points of the circle, all definitions included."""
        from . import trig
        rng = random.Random(len(self.trig.atoms))
        t0 = time.time()
        try:
            for g in trig.guesses(self.trig, rng, 400):
                if time.time() - t0 > secs:
                    break
                sub = [(x, realval(v)) for s, k, a, b in g for x, v in ((s, Fraction(a)), (k, Fraction(b)))]
                sol = z3.SimpleSolver()
                sol.set("timeout", 1500)
                ok = True
                for t in self.pc + self.trig.defs + [neg]:
                    u = z3.simplify(z3.substitute(t, *sub))
                    if z3.is_false(u):
                        ok = False
                        break
                    sol.add(u)
                if not ok:
                    continue
                self.stats.queries += 1
                if sol.check() == z3.sat:
                    sol.add([x == v for x, v in sub])
                    if sol.check() == z3.sat:
                        return sol.model()
            return None
        finally:
            self.stats.solver_s += time.time() - t0

    def forbid(self, label):
        self.require(False, label)

    def generic_model(self, rng):
        """A model of the path with real inputs at random where the path leaves them free."""
        self.solver.set("timeout", 2000)
        try:
            if self.check() != z3.sat:
                return None
            m = self.solver.model()
            n = 0
            names = [x for x, (k, t) in self.inputs.items() if k in ("R", "I")]
            rng.shuffle(names)
            self.solver.push()
            try:
                for x in names[:30]:
                    k, t = self.inputs[x]
                    v0 = termval(m.eval(t, model_completion=True))
                    if v0 is None:
                        continue
                    if k == "R":
                        lo, hi = self.bounds[x]
                        tries = [rng.uniform(lo, hi) for _ in range(2)] + \
                            [min(hi, max(lo, float(v0) + rng.choice((-1, 1)) * rng.uniform(0.1, 1) * s)) for s in (1.0, 0.01)]
                        tries = [z3.RealVal(str(round(v, 6))) for v in tries]
                    else:
                        tries = [z3.IntVal(v0 + rng.randrange(-3, 4))]
                    for v in tries:
                        self.solver.push()
                        self.solver.add(t == v)
                        if self.solver.check() == z3.sat:
                            m = self.solver.model()
                            n += 1
                            break
                        self.solver.pop()
                        continue
                    else:
                        continue
            finally:
                while self.solver.num_scopes() > 0:
                    self.solver.pop()
            return m
        finally:
            self.solver.set("timeout", self.ex.query_ms)

    def observe(self, name, value):
        self.observed.append((name, value))

    def shared(self, name, make):
        return make()

    def patch(self, obj, attr, value):
        missing = object()
        old = obj.__dict__.get(attr, missing)
        self.patches.append((obj, attr, old, missing))
        setattr(obj, attr, value)

    def undo(self):
        for obj, attr, old, missing in reversed(self.patches):
            if old is missing:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self.patches = []

    def readmodel(self, m):
        out = {}
        for n, (k, t) in self.inputs.items():
            v = m.eval(t, model_completion=True)
            if k == "B":
                out[n] = bool(z3.is_true(v))
            elif k == "I":
                out[n] = v.as_long()
            elif k.startswith("grid"):
                out[n] = float(Fraction(v.as_long(), int(k[4:])))
            elif k == "S":
                out[n] = unescape(v.as_string())
            else:
                x = termval(v)
                out[n] = float(x)
        tabs = {}
        for name, tab in self.tables.items():
            rows = []
            for args, t in tab:
                try:
                    rows.append([[float(termval(m.eval(a, model_completion=True))) for a in args],
                                 float(termval(m.eval(t, model_completion=True)))])
                except (TypeError, OverflowError):
                    pass
            tabs[name] = rows
        if tabs:
            out["__uf__"] = tabs
        return out

    def finish(self):
        """End of a path: a witness of it for replay on the real code."""
        if len(self.ex.witnesses) >= self.ex.want_witnesses:
            # keep a spread: replace every so often
            n = self.stats.paths
            if n & (n - 1):
                return
        if self.trig is not None:
            self.model = self.guided(z3.BoolVal(True), 10)
            if self.model is None:
                return
        if self.model is None:
            try:
                if self.check() != z3.sat:
                    return
            except Budget:
                return
            self.model = self.getmodel()
        obs = []
        for n, v in self.observed:
            obs.append((n, self.evalue(v)))
        w = (self.readmodel(self.model), obs)
        if len(self.ex.witnesses) >= self.ex.want_witnesses:
            self.ex.witnesses[self.stats.paths.bit_length() % self.ex.want_witnesses] = w
        else:
            self.ex.witnesses.append(w)

    def evalue(self, v):
        if isinstance(v, SymBool):
            return bool(z3.is_true(self.model.eval(v.t, model_completion=True)))
        if isinstance(v, SymNum):
            x = termval(self.model.eval(v.t, model_completion=True))
            if x is None:
                return "?"
            return int(x) if v.k in "IG" else float(x)
        if isinstance(v, (list, tuple)):
            return [self.evalue(x) for x in v]
        if v is None or isinstance(v, (bool, int, str)):
            return v
        if isinstance(v, float):
            return "nan" if math.isnan(v) else v
        if type(v).__module__ == "numpy" and hasattr(v, "item"):
            return self.evalue(v.item())
        if hasattr(v, "symvalue"):
            return v.symvalue(self.model)
        return "?"


def unescape(s):
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def termval(v):
    """Python value of a z3 numeral, or None."""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_fp_value(v):
        if v.isNaN():
            return float("nan")
        if v.isInf():
            return float("-inf") if v.isNegative() else float("inf")
        if v.isZero():
            return -0.0 if v.isNegative() else 0.0
        sig = z3.simplify(z3.fpToIEEEBV(v)).as_long()
        import struct
        return struct.unpack(">d", struct.pack(">Q", sig))[0]
    return None


def _close(self, a, b, tol=None):
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return False
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        return a == b
    return abs(a - b) <= 1e-6 * (1.0 + max(abs(a), abs(b)))


PathCtx.close = _close

"""Strings whose characters may be symbolic (the length is always concrete)."""
import z3

from . import core
from .core import SymBool, SymNum, Unsupported, Fraction, mkbool, bnot


def make(chars):
    """A SymStr, or a plain str when every character is known."""
    out = []
    plain = True
    for c in chars:
        if not isinstance(c, str):
            c = z3.simplify(c)
            if z3.is_int_value(c):
                c = chr(c.as_long())
            else:
                plain = False
        out.append(c)
    if plain:
        return "".join(out)
    return SymStr(out)


def as_sym(s):
    return s if isinstance(s, SymStr) else SymStr(list(s))


def any_sym(x):
    if isinstance(x, (tuple, list)):
        return any(any_sym(y) for y in x)
    if isinstance(x, dict):
        return any(any_sym(y) for y in x.values())
    return isinstance(x, (SymStr, SymNum, SymBool)) or hasattr(x, "symtext")


def code(c):
    return z3.IntVal(ord(c)) if isinstance(c, str) else c


def _ceq(a, b):
    """Do two characters agree: True, False or a term."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    t = z3.simplify(code(a) == code(b))
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


_WS = " \t\n\r\x0b\x0c"


class SymStr:
    def __init__(self, chars, num=None):
        self.c = list(chars)
        self.num = num          # the number this is the text of (pieces of text stay opaque)

    def __len__(self):
        return len(self.chars())

    def __bool__(self):
        return self.num is not None or len(self.c) > 0

    def __iter__(self):
        return iter([make([x]) for x in self.chars()])

    def chars(self):
        if self.num is not None:
            if self.num.k == "I":
                return list(as_sym(int_text(self.num)).c)
            raise Unsupported("characters of the text of a symbolic number")
        return self.c

    def __hash__(self):
        return 77

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symbolic str %d>" % len(self.c)

    def __str__(self):
        # a real str is asked for: pick the characters one by one
        return "".join(chr(core.CTX.concretise(SymNum("I", code(x)))) if not isinstance(x, str) else x
                       for x in self.chars())

    __format__ = lambda self, spec: format(str(self), spec)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return make(self.chars()[i])
        if isinstance(i, SymNum):
            i = i.__index__()
        return make([self.chars()[i]])

    def __add__(self, o):
        if isinstance(o, str):
            return make(self.parts() + list(o)) if not self.opaque(o) else Text([self, o])
        if isinstance(o, SymStr):
            if self.opaque(o):
                return Text([self, o])
            return make(self.parts() + o.parts())
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            if self.opaque(o):
                return Text([o, self])
            return make(list(o) + self.parts())
        return NotImplemented

    def opaque(self, o):
        return self.num is not None or isinstance(o, SymStr) and o.num is not None or isinstance(o, Text) \
            or isinstance(self, Text)

    def parts(self):
        return self.chars()

    def __mul__(self, n):
        return make(self.chars() * n)

    # comparison
    def eq(self, o):
        if isinstance(self, Text) or isinstance(o, Text):
            return text_eq(self, o)
        if isinstance(o, SymStr) and (self.num is not None or o.num is not None):
            if self.num is not None and o.num is not None:
                return self.num == o.num
            return text_eq(self, o)
        if self.num is not None:
            return text_eq(self, o)
        oc = list(o) if isinstance(o, str) else o.chars()
        if len(oc) != len(self.c):
            return False
        terms = []
        for a, b in zip(self.c, oc):
            r = _ceq(a, b)
            if r is False:
                return False
            if r is not True:
                terms.append(r)
        if not terms:
            return True
        return mkbool(z3.simplify(z3.And(terms)))

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        return self.eq(o)

    def __ne__(self, o):
        if not isinstance(o, (str, SymStr)):
            return True
        return bnot(self.eq(o))

    def _lt(self, o, orequal):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        a, b = self.chars(), list(o) if isinstance(o, str) else o.chars()
        acc = z3.BoolVal(len(a) < len(b) or orequal and len(a) == len(b))
        for x, y in reversed(list(zip(a, b))):
            acc = z3.Or(code(x) < code(y), z3.And(code(x) == code(y), acc))
        return mkbool(z3.simplify(acc))

    def __lt__(self, o): return self._lt(o, False)
    def __le__(self, o): return self._lt(o, True)
    def __gt__(self, o): return NotImplemented if not isinstance(o, (str, SymStr)) else bnot(self._lt(o, True))
    def __ge__(self, o): return NotImplemented if not isinstance(o, (str, SymStr)) else bnot(self._lt(o, False))

    # searching
    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            terms = [self.startswith(x, start) for x in p]
            return mkbool(z3.simplify(z3.Or([core.boolterm(x) for x in terms])))
        pc = list(p) if isinstance(p, str) else p.chars()
        ch = self.chars()
        if len(pc) + start > len(ch):
            return False
        return make(ch[start:start + len(pc)]) == p

    def endswith(self, p):
        n, ch = len(p), self.chars()
        if n > len(ch):
            return False
        return make(ch[len(ch) - n:]) == p

    def contains(self, p):
        n, ch = len(p), self.chars()
        terms = []
        for i in range(len(ch) - n + 1):
            r = make(ch[i:i + n]) == p
            if r is True:
                return True
            if r is not False:
                terms.append(r.t)
        return mkbool(z3.simplify(z3.Or(terms))) if terms else False

    def __contains__(self, p):
        return bool(self.contains(p))

    def find(self, p, start=0):
        n, ch = len(p), self.chars()
        for i in range(start, len(ch) - n + 1):
            if bool(make(ch[i:i + n]) == p):
                return i
        return -1

    def index(self, p, start=0):
        i = self.find(p, start)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, p):
        if len(p) != 1:
            raise Unsupported("count of a long substring")
        n = 0
        for x in self.chars():
            if bool(make([x]) == p):
                n += 1
        return n

    def replace(self, a, b, *cnt):
        if cnt:
            raise Unsupported("replace with a count")
        n = len(a)
        if n == 0:
            raise Unsupported("replace of nothing")
        out = []
        i = 0
        ch = self.chars()
        while i < len(ch):
            if i + n <= len(ch) and bool(make(ch[i:i + n]) == a):
                out += list(b) if isinstance(b, str) else b.chars()
                i += n
            elif n == 1 or True:
                out.append(ch[i])
                i += 1
        return make(out)

    def split(self, sep=None, maxsplit=-1):
        ch = self.chars()
        out = []
        cur = []
        if sep is None:
            for x in ch:
                if bool(_in_chars(x, _WS)):
                    if cur:
                        out.append(make(cur))
                    cur = []
                else:
                    cur.append(x)
            if cur:
                out.append(make(cur))
            return out
        if len(sep) != 1:
            raise Unsupported("split on a long separator")
        for x in ch:
            if (maxsplit < 0 or len(out) < maxsplit) and bool(make([x]) == sep):
                out.append(make(cur))
                cur = []
            else:
                cur.append(x)
        out.append(make(cur))
        return out

    def _strip(self, chars, left, right):
        ch = list(self.chars())
        cs = _WS if chars is None else chars
        while left and ch and bool(_in_chars(ch[0], cs)):
            ch.pop(0)
        while right and ch and bool(_in_chars(ch[-1], cs)):
            ch.pop()
        return make(ch)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def _map(self, lo, hi, d):
        out = []
        for x in self.chars():
            if isinstance(x, str):
                out.append(x.upper() if d < 0 else x.lower())
            else:
                out.append(z3.If(z3.And(x >= ord(lo), x <= ord(hi)), x + d, x))
        return make(out)

    def upper(self): return self._map("a", "z", -32)
    def lower(self): return self._map("A", "Z", 32)

    def isdigit(self):
        ch = self.chars()
        if not ch:
            return False
        return mkbool(z3.simplify(z3.And([z3.And(code(x) >= 48, code(x) <= 57) for x in ch])))

    def isspace(self):
        ch = self.chars()
        if not ch:
            return False
        return core.mkbool(z3.simplify(z3.And([core.boolterm(_in_chars(x, _WS)) for x in ch])))

    def isalpha(self):
        ch = self.chars()
        if not ch:
            return False
        return mkbool(z3.simplify(z3.And([z3.Or(z3.And(code(x) >= 65, code(x) <= 90),
                                                z3.And(code(x) >= 97, code(x) <= 122)) for x in ch])))

    def isalnum(self):
        ch = self.chars()
        if not ch:
            return False
        return mkbool(z3.simplify(z3.And([z3.Or(z3.And(code(x) >= 65, code(x) <= 90),
                                                z3.And(code(x) >= 97, code(x) <= 122),
                                                z3.And(code(x) >= 48, code(x) <= 57)) for x in ch])))

    def ljust(self, w, fill=" "):
        ch = self.chars()
        return make(ch + [fill] * (w - len(ch)))

    def rjust(self, w, fill=" "):
        ch = self.chars()
        return make([fill] * (w - len(ch)) + ch)

    def zfill(self, w):
        ch = self.chars()
        if ch and bool(_in_chars(ch[0], "+-")):
            return make([ch[0]] + ["0"] * (w - len(ch)) + ch[1:])
        return self.rjust(w, "0")

    def encode(self, *a): return self
    def decode(self, *a): return self

    def join(self, items):
        raise Unsupported("join on a symbolic separator")

    # numbers
    def to_int(self, base=10):
        if self.num is not None:
            if self.num.k in "IG":
                return SymNum(self.num.k, self.num.t)
            raise ValueError("invalid literal for int()")
        s = self.strip() if True else self
        if isinstance(s, str):
            return int(s, base)
        ch = list(s.chars())
        neg = False
        if ch and bool(_in_chars(ch[0], "+-")):
            neg = bool(make([ch[0]]) == "-")
            ch = ch[1:]
        if not ch:
            raise ValueError("invalid literal for int()")
        for u, ds in core.CTX.digits if base == 10 else ():
            if len(ds) == len(ch) and all(not isinstance(x, str) and x.eq(d) for x, d in zip(ch, ds)):
                return SymNum("I", z3.simplify(-u) if neg else u)
        total = z3.IntVal(0)
        for x in ch:
            t = code(x)
            if base == 10:
                ok = z3.And(t >= 48, t <= 57)
                v = t - 48
            elif base == 36:
                ok = z3.Or(z3.And(t >= 48, t <= 57), z3.And(t >= 65, t <= 90), z3.And(t >= 97, t <= 122))
                v = z3.If(t <= 57, t - 48, z3.If(t <= 90, t - 55, t - 87))
            else:
                raise Unsupported("int() in base %r" % base)
            if not bool(mkbool(z3.simplify(ok))):
                raise ValueError("invalid literal for int()")
            total = total * base + v
        t = z3.simplify(total)
        return SymNum("I", -t if neg else t)

    def to_float(self):
        if self.num is not None:
            return core.tofloat(SymNum(self.num.k, self.num.t))
        s = self.strip()
        if isinstance(s, str):
            return float(s)
        ch = list(s.chars())
        neg = False
        if ch and bool(_in_chars(ch[0], "+-")):
            neg = bool(make([ch[0]]) == "-")
            ch = ch[1:]
        if not ch:
            raise ValueError("could not convert string to float")
        total, scale, dot = z3.IntVal(0), 1, False
        nd = 0
        for x in ch:
            t = code(x)
            if not dot and bool(mkbool(z3.simplify(t == 46))):
                dot = True
                continue
            if not bool(mkbool(z3.simplify(z3.And(t >= 48, t <= 57)))):
                if bool(_in_chars(x, "eEnNiI_")):
                    raise Unsupported("float() of an exponent or a name")
                raise ValueError("could not convert string to float")
            total = total * 10 + (t - 48)
            nd += 1
            if dot:
                scale *= 10
        if nd == 0:
            raise ValueError("could not convert string to float")
        v = z3.ToReal(z3.simplify(total)) / scale
        return SymNum("R", z3.simplify(-v if neg else v))

    def symvalue(self, model):
        if self.num is not None:
            return "?"
        return "".join(x if isinstance(x, str) else chr(model.eval(x, model_completion=True).as_long())
                       for x in self.c)

    def __getattr__(self, name):
        if name.startswith("__") or name in ("symtext", "spec"):
            raise AttributeError(name)
        raise Unsupported("str.%s" % name)


class Text(SymStr):
    """Text with the texts of symbolic numbers in it, kept as a list of pieces."""

    def __init__(self, pieces):
        flat = []
        for p in pieces:
            if isinstance(p, Text):
                ps = p.pieces
            else:
                ps = [p]
            for q in ps:
                if flat and isinstance(q, str) and isinstance(flat[-1], str):
                    flat[-1] = flat[-1] + q
                elif q != "":
                    flat.append(q)
        self.pieces = flat
        self.c = []
        self.num = None

    def chars(self):
        raise Unsupported("characters of the text of symbolic numbers")

    def __len__(self):
        raise Unsupported("length of the text of symbolic numbers")

    def __bool__(self):
        return True

    def startswith(self, p, start=0):
        if start == 0 and isinstance(p, str) and isinstance(self.pieces[0], str) and len(self.pieces[0]) >= len(p):
            return self.pieces[0].startswith(p)
        raise Unsupported("startswith on a text of numbers")

    def endswith(self, p):
        if isinstance(p, str) and isinstance(self.pieces[-1], str) and len(self.pieces[-1]) >= len(p):
            return self.pieces[-1].endswith(p)
        raise Unsupported("endswith on a text of numbers")

    def symvalue(self, model):
        return "?"


def flat(a):
    """the characters of a text with whole numbers in it, None if there are others"""
    out = []
    for x in a.pieces if isinstance(a, Text) else [a]:
        n = getattr(x, "num", None)
        if isinstance(x, Text) or (n is not None and n.k != "I"):
            return None
        out += list(x) if isinstance(x, str) else list(x.chars())
    return out


def text_eq(a, b):
    try:
        return pieces_eq(a, b)
    except Unsupported:
        x, y = flat(a), flat(b)
        if x is None or y is None:
            raise
        return as_sym(make(x)).eq(make(y))


def pieces_eq(a, b):
    """Equality of texts with numbers in them, where it can be told piece by piece."""
    pa = a.pieces if isinstance(a, Text) else [a]
    pb = b.pieces if isinstance(b, Text) else [b]
    if len(pa) == len(pb):
        acc = []
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    raise Unsupported("comparison of texts of numbers")
                continue
            nx, ny = getattr(x, "num", None), getattr(y, "num", None)
            if nx is not None and ny is not None and getattr(x, "spec", "") == getattr(y, "spec", ""):
                acc.append(core.boolterm(nx == ny))
                continue
            if nx is None and ny is None:
                acc.append(core.boolterm(x == y))
                continue
            if nx is not None and isinstance(y, str) and len(pa) == 1:
                return num_is_text(x, y)
            if ny is not None and isinstance(x, str) and len(pa) == 1:
                return num_is_text(y, x)
            raise Unsupported("comparison of texts of numbers")
        return mkbool(z3.simplify(z3.And(acc))) if acc else True
    raise Unsupported("comparison of texts of numbers")


def num_is_text(x, s):
    n = x.num
    try:
        v = float(s) if n.k in "RF" else int(s)
    except ValueError:
        return False
    if repr(v) != s or getattr(x, "spec", ""):
        if getattr(x, "spec", ""):
            raise Unsupported("comparison of formatted numbers")
        return False
    return n == v


def _in_chars(x, cs):
    if isinstance(x, str):
        return x in cs
    return mkbool(z3.simplify(z3.Or([x == ord(c) for c in cs])))


# ------------------------------------------------------------------ formatting

def digits_of(t, maxd=8):
    """Decimal digits of a non-negative Int term, their number decided by case split."""
    n = 1
    while n < maxd:
        if bool(mkbool(z3.simplify(t < 10 ** n))):
            break
        n += 1
    if n == 1:
        return [z3.simplify(t + 48)]
    if n == maxd and not bool(mkbool(z3.simplify(t < 10 ** n))):
        raise Unsupported("a number of more than %d digits" % maxd)
    for u, ch in core.CTX.digits:
        if len(ch) == n and (t.eq(u) or core.CTX.entails(t == u)):
            return list(ch)
    ds = [core.CTX.fresh_int("digit").t for _ in range(n)]
    total = z3.Sum([d * 10 ** (n - 1 - i) for i, d in enumerate(ds)])
    core.CTX.axiom_term(z3.Implies(z3.And(t >= 0, t < 10 ** n),
                                   z3.And([t == total] + [z3.And(d >= 0, d <= 9) for d in ds])))
    ch = [z3.simplify(d + 48) for d in ds]
    core.CTX.digits.append((t, ch))
    return list(ch)


def int_text(x):
    """str of an int as characters."""
    if isinstance(x, SymBool):
        x = x.num()
    t = x.t
    if x.k != "I":
        raise Unsupported("text of an fp integer")
    if bool(mkbool(z3.simplify(t < 0))):
        return make(["-"] + digits_of(-t))
    return make(digits_of(t))


def fixed_text(x, nd):
    """'%.{nd}f' of a real (rounded half to even, as C does for exact decimals)."""
    t = core.lift(x, "R")
    neg = bool(mkbool(z3.simplify(t < 0)))
    a = -t if neg else t
    y = z3.simplify(a * (10 ** nd))
    fl = core.floor_t(y)
    fr = y - z3.ToReal(fl)
    half = core.realval(Fraction(1, 2))
    r = z3.If(fr > half, fl + 1, z3.If(fr < half, fl, z3.If(fl % 2 == 0, fl, fl + 1)))
    r = z3.simplify(r)
    ch = digits_of(z3.simplify(r / (10 ** nd)))
    if nd:
        ch.append(".")
        for i in range(nd - 1, -1, -1):
            ch.append(z3.simplify((r / (10 ** i)) % 10 + 48))
    return make((["-"] if neg else []) + ch)


def fmt_value(v, spec):
    """format(v, spec) for a value that may be symbolic."""
    import re
    if not any_sym(v):
        return format(v, spec)
    if hasattr(v, "symtext"):
        return v.symtext(spec)
    m = re.fullmatch(r"(?:(.)?([<>^=]))?([+ -]?)(0?)(\d*)(?:\.(\d+))?([dsfg]?)", spec)
    if not m:
        raise Unsupported("format spec %r" % spec)
    fill, align, sign, zero, width, prec, kind = m.groups()
    if sign in ("+", " "):
        raise Unsupported("format spec %r" % spec)
    if isinstance(v, SymBool):
        s = "True" if v else "False"
        return format(s, spec)
    if isinstance(v, SymNum):
        if v.k == "I" and kind in ("", "d"):
            if not width and not zero:
                s = SymStr([], num=v)
                return s
            s = int_text(v)
            default = ">"
        elif v.k == "I" and kind == "f":
            s = fixed_text(v, int(prec or 6))
            default = ">"
        elif v.k == "R" and kind == "f":
            s = fixed_text(v, int(prec or 6))
            default = ">"
        elif v.k in "RF" and kind == "" and not width and not prec:
            return SymStr([], num=v)
        elif v.k in "RF" and kind == "d":
            raise ValueError("Unknown format code 'd' for object of type 'float'")
        else:
            raise Unsupported("format spec %r" % spec)
    else:
        if v.num is not None or isinstance(v, Text):
            if not width and prec is None:
                return v
            raise Unsupported("padding of a text of numbers")
        s = v if prec is None else v[:int(prec)]
        default = "<"
    if width:
        w = int(width)
        a = align or ("=" if zero and default == ">" else default)
        f = fill or ("0" if zero else " ")
        ch = list(as_sym(s).chars())
        pad = [f] * (w - len(ch))
        if a == "<":
            ch = ch + pad
        elif a == ">":
            ch = pad + ch
        elif a == "=":
            if ch and isinstance(ch[0], str) and ch[0] in "+-":
                ch = [ch[0]] + pad + ch[1:]
            else:
                ch = pad + ch
        else:
            raise Unsupported("centred")
        s = make(ch)
    return s


def percent_format(f, args):
    import re
    if isinstance(f, SymStr):
        raise Unsupported("symbolic format string")
    if not isinstance(args, tuple):
        args = (args,)
    args = list(args)
    out = as_sym("")
    pos = 0
    for m in re.finditer(r"%([-0+ #]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])", f):
        out = out + f[pos:m.start()]
        pos = m.end()
        flags, width, prec, conv = m.groups()
        if conv == "%":
            out = out + "%"
            continue
        if width == "*":
            width = args.pop(0)
        if prec == "*":
            prec = args.pop(0)
        v = args.pop(0)
        width = int(width) if width is not None else 0
        if conv in "di":
            if isinstance(v, SymNum) and v.k != "I":
                v = core.toint(v)
            s = int_text(v) if any_sym(v) and not isinstance(v, SymStr) else "%d" % v
        elif conv == "s":
            s = fmt_value(v, "") if any_sym(v) else str(v)
            if prec is not None:
                s = s[:int(prec)]
        elif conv == "f":
            s = fixed_text(v, int(prec or 6)) if any_sym(v) else "%.*f" % (int(prec or 6), v)
        else:
            raise Unsupported("%%%s" % conv)
        if width:
            ch = list(as_sym(s).chars())
            pad = width - len(ch)
            if pad > 0:
                if "-" in flags:
                    ch = ch + [" "] * pad
                elif "0" in flags and conv != "s":
                    k = 1 if ch and isinstance(ch[0], str) and ch[0] == "-" else 0
                    ch = ch[:k] + ["0"] * pad + ch[k:]
                else:
                    ch = [" "] * pad + ch
            s = make(ch)
        out = out + s
    out = out + f[pos:]
    return out

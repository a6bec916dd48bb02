"""Runs the Python sources of /repo on symbolic values.

Every module is read from its .py file on each run, compiled with the Python 2
meanings that /opt/vp/py2compat gives it (integer division, None below
everything, round away from zero, "\\N" in literals), and with the operators
that a symbolic value must reach (truth tests joined with and/or/not, chained
comparisons, conditional expressions and assignments, subscripts, formatting)
sent through the functions below.
"""
import ast
import builtins
import io
import operator
import os
import re
import sys
import tokenize
import types

from . import core
from .core import SymBool, SymNum, Unsupported, bnot, ite, mkbool, boolterm
from .symstr import SymStr, as_sym, fmt_value, any_sym, percent_format

import z3
import numpy as _np

REPO = os.environ.get("SV_REPO", "/repo")
_ESCAPE = re.compile(r"\\(.)", re.DOTALL)


# ------------------------------------------------------------------ run time

def _integral(x):
    if isinstance(x, int):
        return True
    if isinstance(x, SymBool):
        return True
    if isinstance(x, SymNum):
        return x.k in "IG"
    d = getattr(x, "dtype", None)
    return d is not None and getattr(d, "kind", "") in tuple("iub")


def div(a, b):
    if _integral(a) and _integral(b):
        return a // b
    return a / b


def idiv(a, b):
    if _integral(a) and _integral(b):
        a //= b
    else:
        a /= b
    return a


_OPS = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge,
        "Eq": operator.eq, "NotEq": operator.ne,
        "Is": operator.is_, "IsNot": operator.is_not}


def contains(a, b):
    """a in b"""
    if isinstance(b, SymStr):
        return b.contains(a)
    if isinstance(b, str):
        if isinstance(a, SymStr):
            return as_sym(b).contains(a)
        return a in b
    if isinstance(b, (list, tuple, set, frozenset, dict)) or type(b).__name__ in ("dict_keys", "dict_values"):
        items = list(b)
        if not _symbolic(a) and not any(_symbolic(x) for x in items):
            return a in b
        terms = []
        for x in items:
            r = x is a or compare1("Eq", a, x)
            if isinstance(r, SymBool):
                terms.append(r.t)
            elif r:
                return True
        if not terms:
            return False
        return mkbool(z3.simplify(z3.Or(terms)))
    return a in b


def compare1(name, left, right):
    if name == "In":
        return contains(left, right)
    if name == "NotIn":
        return bnot(contains(left, right))
    op = _OPS[name]
    if name in ("Is", "IsNot"):
        if isinstance(left, SymBool) and isinstance(right, bool) or isinstance(right, SymBool) and isinstance(left, bool):
            r = left == right
            return r if name == "Is" else bnot(r)
        return op(left, right)
    if (left is None or right is None) and name in ("Lt", "LtE", "Gt", "GtE"):
        try:
            return op(left, right)
        except TypeError:
            return op(left is not None, right is not None)
    return op(left, right)


def chain(left, *rest):
    acc = True
    for name, thunk in zip(rest[::2], rest[1::2]):
        if isinstance(acc, SymBool):
            ok, right = core.CTX.speculate(thunk)
            if not ok:
                if not acc:
                    return False
                acc = True
                right = thunk()
        else:
            right = thunk()
        result = compare1(name, left, right)
        if isinstance(result, SymBool) or isinstance(acc, SymBool):
            if isinstance(result, (bool, SymBool, _np.bool_)):
                if isinstance(acc, SymBool) or isinstance(result, SymBool):
                    acc = mkbool(z3.simplify(z3.And(boolterm(acc), boolterm(result))))
                    if acc is False:
                        return False
            else:
                if not acc:
                    return False
                acc = result
        else:
            if thunk is not rest[-1] and not result:
                return result
            acc = result
        left = right
    return acc


def and_(*thunks):
    return _andor(thunks, True)


def or_(*thunks):
    return _andor(thunks, False)


def _andor(thunks, conj):
    acc = None            # the SymBool of the operands so far
    for i, th in enumerate(thunks):
        if acc is None:
            v = th()
        else:
            ok, v = core.CTX.speculate(th)
            if not ok or not isinstance(v, (bool, SymBool, _np.bool_)):
                if bool(acc) != conj:
                    return not conj
                acc = None
                v = th() if not ok else v
        last = i == len(thunks) - 1
        if isinstance(v, SymBool):
            if acc is None:
                acc = v
            else:
                t = z3.And(acc.t, v.t) if conj else z3.Or(acc.t, v.t)
                acc = mkbool(z3.simplify(t))
                if not isinstance(acc, SymBool):
                    if acc != conj:
                        return acc
                    acc = None
                    if last:
                        return conj
            if last:
                return acc
            continue
        if acc is not None:
            # v is a plain bool here
            if bool(v) == conj:
                if last:
                    return acc
                continue
            return not conj
        if last:
            return v
        if bool(v) != conj:
            return v
    return acc


def not_(v):
    if isinstance(v, SymBool):
        return bnot(v)
    if isinstance(v, SymNum):
        return bnot(v != 0)
    return not v


def ifexp(c, ta, tb):
    if isinstance(c, SymNum):
        c = c != 0
    if not isinstance(c, SymBool):
        return ta() if c else tb()
    oka, a = core.CTX.speculate(ta)
    if oka:
        okb, b = core.CTX.speculate(tb)
        if okb:
            v = ite(c, a, b)
            if v is not NotImplemented:
                return v
    return ta() if c else tb()


def ifmerge(c, ta, tb):
    """Values of the assigned names when both branches can be joined, else None."""
    if not isinstance(c, SymBool):
        return None
    oka, a = core.CTX.speculate(ta)
    if not oka:
        return None
    okb, b = core.CTX.speculate(tb)
    if not okb:
        return None
    out = []
    for x, y in zip(a, b):
        v = ite(c, x, y)
        if v is NotImplemented:
            return None
        out.append(v)
    return tuple(out)


def _seq_items(obj):
    if isinstance(obj, (list, tuple)):
        return list(obj)
    if isinstance(obj, _np.ndarray) and obj.ndim == 1:
        return list(obj)
    return None


def find_key(d, k):
    """The key of dict d that equals k (deciding on the way), or a marker."""
    for x in list(d):
        r = x is k or compare1("Eq", k, x)
        if bool(r):
            return x
    return _MISSING


_MISSING = object()


def _symbolic(k):
    t = type(k)
    if t in (SymNum, SymStr, SymBool):
        return True
    return t is tuple and any(_symbolic(x) for x in k)


def _sym_key(d, k):
    if _symbolic(k):
        return True
    if isinstance(k, str):
        return any(isinstance(x, SymStr) for x in d)
    if isinstance(k, (int, float)):
        return any(isinstance(x, SymNum) for x in d)
    if isinstance(k, tuple):
        return any(isinstance(x, tuple) and _symbolic(x) for x in d)
    return False


class _Keyed:
    """while a dictionary is used with a key that is a symbolic value as it is"""

    def __enter__(self):
        core.KEYED += 1

    def __exit__(self, *a):
        core.KEYED -= 1


keyed = _Keyed()


def getitem(obj, idx):
    if isinstance(obj, dict) and _sym_key(obj, idx):
        k = find_key(obj, idx)
        with keyed:
            if k is _MISSING:
                if hasattr(type(obj), "__missing__"):
                    return type(obj).__missing__(obj, idx)
                raise KeyError("symbolic key")
            return obj[k]
    if isinstance(idx, SymBool):
        idx = idx.num()
    if isinstance(idx, SymNum):
        items = _seq_items(obj)
        if items is not None:
            if idx.k not in "IG":
                raise TypeError("list indices must be integers or slices, not float")
            n = len(items)
            bad = (idx >= n) | (idx < -n)
            if bool(bad):
                raise IndexError("list index out of range")
            if core.CTX.nofork == 0:
                ok, v = core.CTX.speculate(lambda: _merge_items(items, idx, n))
                if ok and v is not NotImplemented:
                    return v
            else:
                v = _merge_items(items, idx, n)
                if v is not NotImplemented:
                    return v
        return obj[idx.__index__()]
    return obj[idx]


def _merge_items(items, idx, n):
    if not items:
        return NotImplemented
    neg = idx < 0
    pos = ite(neg, idx + n, idx) if isinstance(neg, SymBool) else (idx + n if neg else idx)
    v = items[-1]
    for i in range(n - 2, -1, -1):
        v = ite(pos == i, items[i], v)
        if v is NotImplemented:
            return v
    return v


def setitem(obj, idx, val):
    if isinstance(obj, dict) and _sym_key(obj, idx):
        k = find_key(obj, idx)
        with keyed:
            obj[idx if k is _MISSING else k] = val
        return
    obj[idx] = val


_IOPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "FloorDiv": operator.ifloordiv,
         "Pow": operator.ipow, "BitAnd": operator.iand, "BitOr": operator.ior, "BitXor": operator.ixor}


def augset(obj, idx, name, val):
    """obj[idx] += val, and its likes"""
    if isinstance(obj, dict) and _sym_key(obj, idx):
        setitem(obj, idx, _IOPS[name](getitem(obj, idx), val))
        return
    obj[idx] = _IOPS[name](obj[idx], val)


def delete(obj, idx):
    if isinstance(obj, dict) and _sym_key(obj, idx):
        k = find_key(obj, idx)
        if k is _MISSING:
            raise KeyError("symbolic key")
        with keyed:
            del obj[k]
        return
    del obj[idx]


def mod_(a, b):
    if isinstance(a, (str, SymStr)):
        if any_sym(b) or isinstance(a, SymStr):
            return percent_format(a, b)
    return a % b


def call_str(obj, name, args, kw):
    if isinstance(obj, str):
        if name == "format":
            if any(any_sym(x) for x in args) or any(any_sym(x) for x in kw.values()):
                return _format(obj, args, kw)
        elif name == "join":
            args = (list(args[0]),)
            if any(isinstance(x, SymStr) for x in args[0]):
                out = as_sym("")
                for i, x in enumerate(args[0]):
                    if i:
                        out = out + obj
                    out = out + x
                return out
        elif any(isinstance(x, SymStr) for x in args):
            return getattr(as_sym(obj), name)(*args, **kw)
    if isinstance(obj, dict) and name in ("get", "pop", "setdefault") and args and _sym_key(obj, args[0]):
        k = find_key(obj, args[0])
        if k is not _MISSING:
            with keyed:
                return getattr(obj, name)(k, *args[1:], **kw)
        if name == "get":
            return args[1] if len(args) > 1 else None
        if name == "setdefault":
            with keyed:
                obj[args[0]] = v = args[1] if len(args) > 1 else None
            return v
        if len(args) > 1:
            return args[1]
        raise KeyError("symbolic key")
    if obj is dict and name == "fromkeys":
        return dict.fromkeys(*args)
    return getattr(obj, name)(*args, **kw)


def _format(s, args, kw):
    import string
    out = as_sym("")
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = out + lit
        if field is None:
            continue
        if field == "":
            field = str(auto)
            auto += 1
        m = re.match(r"[A-Za-z0-9_]*", field).group()
        v = args[int(m)] if m.isdigit() else kw[m]
        rest = field[len(m):]
        if rest:
            v, _ = string.Formatter().get_field("v" + rest, (), {"v": v})
        out = out + fmt_value(v, spec or "")
    return out


def fstr(*parts):
    out = as_sym("")
    sym = False
    plain = []
    for p in parts:
        if isinstance(p, str):
            plain.append(p)
            out = out + p
        else:
            v, spec = p
            if any_sym(v):
                sym = True
                out = out + fmt_value(v, spec)
                plain.append("")
            else:
                plain.append(format(v, spec))
                out = out + plain[-1]
    return out if sym else "".join(plain)


# ------------------------------------------------------------------ builtins

def b_int(x=0, *base):
    if isinstance(x, (SymNum, SymBool)):
        return core.toint(x)
    if isinstance(x, SymStr):
        return x.to_int(*base)
    if hasattr(x, "symint"):
        return x.symint()
    return int(x, *base)


def b_float(x=0.0):
    if isinstance(x, (SymNum, SymBool)):
        return core.tofloat(x)
    if isinstance(x, SymStr):
        return x.to_float()
    return float(x)


def b_str(x=""):
    if isinstance(x, (SymNum, SymStr)):
        return fmt_value(x, "")
    if isinstance(x, SymBool):
        return "True" if x else "False"
    return str(x)


def b_round(x, nd=0):
    if isinstance(x, (SymNum, SymBool)):
        return sym_round(core.tofloat(x) if not isinstance(x, SymNum) or x.k in "IG" else x, nd)
    return py2_round(x, nd)


def sym_round(x, nd):
    if x.k == "F":
        if nd != 0:
            raise Unsupported("round of an fp value to digits")
        # half away from zero
        return SymNum("F", z3.fpRoundToIntegral(z3.RNA(), x.t))
    sc = 10 ** nd if nd >= 0 else core.Fraction(1, 10 ** (-nd))
    scv = core.realval(core.Fraction(sc))
    half = core.realval(core.Fraction(1, 2))
    y = z3.simplify(x.t * scv)
    whole = core.split_int(y)
    if whole is not None and whole[1].denominator == 1:
        return SymNum("R", x.t)
    t = z3.If(y >= 0, core.toreal(core.floor_t(z3.simplify(y + half))), -core.toreal(core.floor_t(z3.simplify(half - y))))
    return SymNum("R", z3.simplify(t / scv))


def py2_round(number, ndigits=0):
    import decimal
    try:
        exact = decimal.Decimal(float(number))
    except (TypeError, ValueError, OverflowError):
        return builtins.round(number, ndigits)
    if not exact.is_finite():
        return float(number)
    with decimal.localcontext() as c:
        c.prec = 1200
        c.rounding = decimal.ROUND_HALF_UP
        return float(exact.quantize(decimal.Decimal(1).scaleb(-ndigits)))


def _minmax(args, kw, pick, native):
    if kw or not args:
        return native(*args, **kw)
    items = list(args[0]) if len(args) == 1 else list(args)
    if not any(isinstance(x, SymNum) for x in items):
        return native(items)
    v = items[0]
    for x in items[1:]:
        c = pick(x, v)
        w = ite(c, x, v) if isinstance(c, SymBool) else (x if c else v)
        if w is NotImplemented:
            w = x if c else v
        v = w
    return v


def b_max(*args, **kw):
    return _minmax(args, kw, lambda a, b: compare1("Gt", a, b), max)


def b_min(*args, **kw):
    return _minmax(args, kw, lambda a, b: compare1("Lt", a, b), min)


def b_any(it):
    terms = []
    for x in it:
        if isinstance(x, SymNum):
            x = x != 0
        if isinstance(x, SymBool):
            terms.append(x.t)
        elif x:
            return True
    return mkbool(z3.simplify(z3.Or(terms))) if terms else False


def b_all(it):
    terms = []
    for x in it:
        if isinstance(x, SymNum):
            x = x != 0
        if isinstance(x, SymBool):
            terms.append(x.t)
        elif not x:
            return False
    return mkbool(z3.simplify(z3.And(terms))) if terms else True


class _IntMeta(type):
    pass


def b_isinstance(x, cls):
    if isinstance(x, (SymNum, SymBool, SymStr)):
        cs = cls if isinstance(cls, tuple) else (cls,)
        for c in cs:
            if c is b_int or c is int:
                if isinstance(x, SymBool) or isinstance(x, SymNum) and x.k in "IG" and not x.np:
                    return True
            elif c is b_float or c is float:
                if isinstance(x, SymNum) and x.k in "RF":
                    return True
            elif isinstance(c, type) and issubclass(c, _np.generic):
                if isinstance(x, SymNum) and x.np and issubclass(_np.int64 if x.k in "IG" else _np.float64, c):
                    return True
            elif c is b_str or c is str:
                if isinstance(x, SymStr):
                    return True
            elif c is bool:
                if isinstance(x, SymBool):
                    return True
            elif c is object:
                return True
            elif isinstance(c, tuple):
                if b_isinstance(x, c):
                    return True
            elif getattr(c, "__name__", "") in ("Number", "Real"):
                if isinstance(x, SymNum):
                    return True
            elif getattr(c, "__name__", "") == "Integral":
                if isinstance(x, SymNum) and x.k in "IG":
                    return True
        return False
    return isinstance(x, _realcls(cls))


def _realcls(cls):
    if isinstance(cls, tuple):
        return tuple(_realcls(c) for c in cls)
    return {b_int: int, b_float: float, b_str: str}.get(cls, cls) if isinstance(cls, types.FunctionType) else cls


def b_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SymNum):
        if x.np:
            return _np.int64 if x.k in "IG" else _np.float64
        return b_int if x.k in "IG" else b_float
    if isinstance(x, SymStr):
        return b_str
    if isinstance(x, SymBool):
        return bool
    t = type(x)
    return {int: b_int, float: b_float, str: b_str}.get(t, t)


def b_print(*a, **k):
    pass


def b_divmod(a, b):
    return a // b, a % b


def b_pow(a, b, *m):
    return pow(a, b, *m)


def b_open(*a, **k):
    raise Unsupported("open() is not stubbed here")


def b_raw_input(*a):
    raise EOFError()


OVERRIDES = {"int": b_int, "float": b_float, "str": b_str, "round": b_round, "max": b_max, "min": b_min,
             "any": b_any, "all": b_all, "isinstance": b_isinstance, "type": b_type, "print": b_print,
             "divmod": b_divmod, "open": b_open, "raw_input": b_raw_input,
             "__sv_div__": div, "__sv_idiv__": idiv, "__sv_cmp__": compare1, "__sv_chain__": chain,
             "__sv_and__": and_, "__sv_or__": or_, "__sv_not__": not_, "__sv_ifexp__": ifexp,
             "__sv_ifmerge__": ifmerge, "__sv_get__": getitem, "__sv_set__": setitem, "__sv_mod__": mod_,
             "__sv_augset__": augset, "__sv_del__": delete, "__sv_strcall__": call_str, "__sv_fstr__": fstr, "__sv_symb__": lambda x: isinstance(x, SymBool)}


# ------------------------------------------------------------------ compile time

def _fix_literal(text):
    prefix = re.match(r"[A-Za-z]*", text).group().lower()
    if "r" in prefix or "u" in prefix or "b" in prefix:
        return text
    return _ESCAPE.sub(lambda m: "\\" + m.group() if m.group(1) in "NuU" else m.group(), text)


def fix_source(source):
    lines = source.splitlines(keepends=True)
    edits = []
    try:
        for tok in tokenize.generate_tokens(io.StringIO(source).readline):
            if tok.type == tokenize.STRING:
                fixed = _fix_literal(tok.string)
                if fixed != tok.string:
                    edits.append((tok.start, tok.end, fixed))
    except (tokenize.TokenError, SyntaxError):
        return source
    for (r0, c0), (r1, c1), fixed in reversed(edits):
        lines[r0 - 1:r1] = [lines[r0 - 1][:c0] + fixed + lines[r1 - 1][c1:]]
    return "".join(lines)


_PURE_NODES = (ast.Constant, ast.Name, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.Load, ast.Tuple,
               ast.Attribute)


def _names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


class Transform(ast.NodeTransformer):
    def __init__(self, py2):
        self.py2 = py2
        self.n = 0
        self.fdepth = 0

    def _call(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]), node)

    def _thunk(self, body):
        a = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        return ast.Lambda(args=a, body=body)

    def visit_FunctionDef(self, node):
        self.fdepth += 1
        try:
            self.generic_visit(node)
        finally:
            self.fdepth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.fdepth = self.fdepth, 0
        try:
            self.generic_visit(node)
        finally:
            self.fdepth = d
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and self.py2:
            return self._call("__sv_div__", [node.left, node.right], node)
        if isinstance(node.op, ast.Mod):
            return self._call("__sv_mod__", [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and self.py2:
            left = ast.parse(ast.unparse(node.target), mode="eval").body
            left = Transform(self.py2).visit(left)
            value = self._call("__sv_idiv__", [left, node.value], node)
            return ast.copy_location(ast.Assign(targets=[node.target], value=value), node)
        t = node.target
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)) and type(node.op).__name__ in _IOPS:
            return ast.copy_location(ast.Expr(self._call("__sv_augset__", [
                t.value, t.slice, ast.Constant(value=type(node.op).__name__), node.value], node)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
                out.append(ast.copy_location(ast.Expr(self._call("__sv_del__", [t.value, t.slice], node)), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return self._call("__sv_cmp__", [ast.Constant(value=type(node.ops[0]).__name__),
                                             node.left, node.comparators[0]], node)
        args = [node.left]
        for op, right in zip(node.ops, node.comparators):
            args += [ast.Constant(value=type(op).__name__), self._thunk(right)]
        return self._call("__sv_chain__", args, node)

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield)) for n in ast.walk(node)):
            return node
        name = "__sv_and__" if isinstance(node.op, ast.And) else "__sv_or__"
        return self._call(name, [self._thunk(v) for v in node.values], node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self._call("__sv_not__", [node.operand], node)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return self._call("__sv_ifexp__", [node.test, self._thunk(node.body), self._thunk(node.orelse)], node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return self._call("__sv_get__", [node.value, node.slice], node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(
                node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self._call("__sv_set__", [t.value, t.slice, node.value], node)), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ("format", "join", "get", "pop", "setdefault", "replace", "find",
                                                       "count", "startswith", "endswith"):
            if not any(isinstance(a, ast.Starred) for a in node.args) and all(k.arg for k in node.keywords):
                kw = ast.Dict(keys=[ast.Constant(value=k.arg) for k in node.keywords],
                              values=[k.value for k in node.keywords])
                return self._call("__sv_strcall__", [f.value, ast.Constant(value=f.attr),
                                                     ast.Tuple(elts=node.args, ctx=ast.Load()), kw], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
                continue
            if v.conversion not in (-1, 115):
                self.generic_visit(node)
                return node
            spec = ""
            if v.format_spec is not None:
                if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                    self.generic_visit(node)
                    return node
                spec = "".join(x.value for x in v.format_spec.values)
            parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=spec)], ctx=ast.Load()))
        return self._call("__sv_fstr__", parts, node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or isinstance(node.type, ast.Name) and node.type.id == "BaseException":
            node.type = ast.Name(id="Exception", ctx=ast.Load())
        return node

    # if c: x = a   else: x = b   with side-effect free right-hand sides
    def _simple(self, stmts):
        """[(name, expr)] of a branch made only of such assignments, or None."""
        out = []
        assigned = set()
        for s in stmts:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                n, e = s.targets[0].id, s.value
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)):
                n = s.target.id
                e = ast.BinOp(left=ast.Name(id=n, ctx=ast.Load()), op=s.op, right=s.value)
            else:
                return None
            if not all(isinstance(x, _PURE_NODES) for x in ast.walk(e)):
                return None
            if n in assigned or _names(e) & assigned:
                return None
            assigned.add(n)
            out.append((n, e))
        return out

    def visit_If(self, node):
        a = self._simple(node.body) if self.fdepth else None
        b = self._simple(node.orelse) if a is not None else None
        simple = a is not None and b is not None and (a or b)
        if simple:
            decl = getattr(self, "_globals", ())
            names = []
            for n, _ in a + b:
                if n not in names:
                    names.append(n)
            import copy
            ta = ast.Tuple(elts=[copy.deepcopy(dict(a)[n]) if n in dict(a) else ast.Name(id=n, ctx=ast.Load())
                                 for n in names], ctx=ast.Load())
            tb = ast.Tuple(elts=[copy.deepcopy(dict(b)[n]) if n in dict(b) else ast.Name(id=n, ctx=ast.Load())
                                 for n in names], ctx=ast.Load())
            ta, tb = self.visit(ta), self.visit(tb)
        self.generic_visit(node)
        if not simple:
            return node
        self.n += 1
        cv, mv = "__c%d" % self.n, "__m%d" % self.n

        def load(n):
            return ast.Name(id=n, ctx=ast.Load())

        def store(n):
            return ast.Name(id=n, ctx=ast.Store())
        out = [ast.Assign(targets=[store(cv)], value=node.test),
               ast.Assign(targets=[store(mv)], value=ast.IfExp(
                   test=ast.Call(func=load("__sv_symb__"), args=[load(cv)], keywords=[]),
                   body=ast.Call(func=load("__sv_ifmerge__"), args=[load(cv), self._thunk(ta), self._thunk(tb)],
                                 keywords=[]),
                   orelse=ast.Constant(value=None))),
               ast.If(test=ast.Compare(left=load(mv), ops=[ast.IsNot()], comparators=[ast.Constant(value=None)]),
                      body=[ast.Assign(targets=[ast.Tuple(elts=[store(n) for n in names], ctx=ast.Store())],
                                       value=load(mv))],
                      orelse=[ast.If(test=load(cv), body=node.body, orelse=node.orelse)])]
        for s in out:
            ast.copy_location(s, node)
        return out


def compile_source(source, path, py2):
    if py2:
        source = fix_source(source)
    tree = ast.parse(source, path)
    future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__"
                 and any(a.name == "division" for a in n.names) for n in tree.body)
    tree = Transform(py2 and not future).visit(tree)
    return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)


# ------------------------------------------------------------------ loader

class Loader:
    """The modules of /repo (symbolic) and the library shims they see."""

    def __init__(self, repo=REPO, harness_dir=None):
        self.repo = repo
        self.harness_dir = harness_dir
        self.modules = {}
        self.functions = {}
        from . import shims
        self.shims = shims.modules()
        self.builtins = dict(builtins.__dict__)
        self.builtins.update(OVERRIDES)
        self.builtins["__import__"] = self._import
        self.harness_builtins = dict(self.builtins)
        self.loaded_files = []

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        top = name.split(".")[0]
        if name in self.shims or top in self.shims:
            m = self.shims.get(name) if fromlist and name in self.shims else self.shims[top]
            return m
        if os.path.exists(os.path.join(self.repo, top + ".py")) and not top.startswith("test_"):
            return self.load(top)
        if self.harness_dir and os.path.exists(os.path.join(self.harness_dir, top + ".py")):
            return self.load(top)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, name + ".py")
        py2 = True
        if not os.path.exists(path) and self.harness_dir:
            path = os.path.join(self.harness_dir, name + ".py")
            py2 = False
        with tokenize.open(path) as f:
            src = f.read()
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        self.loaded_files.append(path)
        code = compile_source(src, path, py2)
        exec(code, m.__dict__)
        return m

"""Abstract Python objects."""
import math
from fractions import Fraction

from . import ctx as C
from .ctx import Undecided, HoleDecision
from .terms import (nsubst, Num, P1, atom, mknum, nadd, ndiv, nmul, nneg, nrename, nsub, num,
                    patoms, pconst_val, pis_const, Poly)

NAN = float("nan")
INF = float("inf")


class Unknown:
    """top: anything"""
    __slots__ = ("reason",)

    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return f"<top: {self.reason}>"


class TopH:
    """value of a generic member of a summarised run that is not tracked"""
    def __repr__(self):
        return "<?run>"


TOPH = TopH()


class Doc:
    """documentation text (opaque)"""
    def __repr__(self):
        return "<doc>"


DOC = Doc()


class H:
    """a summarised run of one or more entries, represented by a generic member"""
    __slots__ = ("hid", "val")

    def __init__(self, hid, val):
        self.hid = hid
        self.val = val

    def __repr__(self):
        return f"H[{self.hid}:{self.val!r}]"


class Lab:
    """datetime-like scalar. kind 'ts' or 'td'; tz is None or a zone token"""
    __slots__ = ("kind", "x", "tz", "flav")

    def __init__(self, kind, x, tz=None, flav="pd"):
        self.kind, self.x, self.tz, self.flav = kind, x, tz, flav

    def __repr__(self):
        return f"{self.kind}{'[' + self.tz + ']' if self.tz else ''}({self.x!r}:{self.flav})"

    __hash__ = None


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Exc:
    """instance of a builtin exception"""
    def __init__(self, name, args=()):
        self.name, self.args = name, args

    def __repr__(self):
        return f"{self.name}{self.args!r}"


EXC_BASES = {
    "Exception": "BaseException", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
    "LookupError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
    "ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception",
    "AssertionError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "StopIteration": "Exception", "NameError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "Warning": "Exception", "UserWarning": "Warning",
    "DeprecationWarning": "Warning", "FutureWarning": "Warning", "RuntimeWarning": "Warning",
    "UnicodeError": "ValueError", "OSError": "Exception", "RecursionError": "RuntimeError",
    "UnboundLocalError": "NameError",
}


def raise_(name, *args):
    raise PyRaise(Exc(name, args))


class ExtMod:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class ExtFunc:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<ext {self.name}>"


class ExtClass:
    def __init__(self, name, fn=None, attrs=None):
        self.name, self.fn = name, fn
        self.attrs = attrs or {}

    def __repr__(self):
        return f"<ext class {self.name}>"


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Module:
    def __init__(self, name):
        self.name = name
        self.d = {}

    def __repr__(self):
        return f"<module {self.name}>"


class PyList:
    __slots__ = ("v", "epoch")

    def __init__(self, v, epoch=None):
        self.v = v
        self.epoch = epoch

    def __repr__(self):
        return repr(self.v)


class PySet:
    __slots__ = ("v", "epoch")

    def __init__(self, v, epoch=None):
        self.v = v      # hkey -> value
        self.epoch = epoch


class PyDict:
    __slots__ = ("d", "epoch")

    def __init__(self, d=None, epoch=None):
        self.d = d if d is not None else {}     # hkey -> (key, value)
        self.epoch = epoch

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.d.values()) + "}"


class PySlice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class PyIter:
    def __init__(self, items):
        self.items = items
        self.i = 0


class UFunc:
    __slots__ = ("name", "node", "env", "mod", "defaults", "kwdefaults", "attrs", "defcls", "qual", "is_gen", "locals_", "nonloc")

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return f"<bound {self.fn!r}>"


class UClass:
    def __init__(self, name, bases, d, mod):
        self.name, self.bases, self.d, self.mod = name, bases, d, mod
        self.nt_fields = next((b.nt_fields for b in bases if isinstance(b, UClass) and b.nt_fields is not None), None)     # named tuple: [(name, has default, default)]
        self.members = None       # enumeration: name -> member
        self.mro = [self]
        for b in bases:
            for k in (b.mro if isinstance(b, UClass) else [b]):
                if k not in self.mro:
                    self.mro.append(k)

    def lookup(self, name):
        for k in self.mro:
            if isinstance(k, UClass) and name in k.d:
                return k.d[name]
        return None

    def has(self, name):
        return any(isinstance(k, UClass) and name in k.d for k in self.mro)

    def ext_bases(self):
        return [k for k in self.mro if not isinstance(k, UClass)]

    def __repr__(self):
        return f"<class {self.name}>"


class Inst:
    __slots__ = ("cls", "d", "tag", "epoch")

    def __init__(self, cls, d=None, epoch=None):
        self.cls = cls
        self.d = d if d is not None else {}
        self.tag = None
        self.epoch = epoch

    def __repr__(self):
        return f"<{self.cls.name} instance {self.tag or ''}>"


class NTup(tuple):
    """an instance of a named tuple"""
    cls = None


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class CachedProp:
    def __init__(self, f):
        self.f = f
        self.name = None


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class SuperProxy:
    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


# ---------------------------------------------------------------- scalars

def is_number(v):
    return isinstance(v, (int, float, Num, Fraction))      # bool is an int


def is_nan(v):
    return isinstance(v, float) and v != v


def is_inf(v):
    return isinstance(v, float) and (v == INF or v == -INF)


def to_num(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, bool):
        return num(int(v), "py")
    return num(Fraction(v), "py")


def fin(v):
    """finite number"""
    return isinstance(v, (int, Num, Fraction)) or (isinstance(v, float) and v == v and not is_inf(v))


def simp(n):
    """Num -> python constant when integral"""
    if isinstance(n, Num):
        n = C.cur().norm(n) if C.cur() else n
        if n.is_const():
            c = n.const()
            if c.denominator == 1 and abs(c) < 1 << 50:
                if n.fl in ("np", "0d"):
                    return n
                return int(c)
    return n


def sign_of(v):
    if isinstance(v, Num):
        return C.cur().sign(C.cur().norm(v))
    return (v > 0) - (v < 0)


def zero(v):
    """numeric value is zero?"""
    if isinstance(v, Num):
        return C.cur().is_zero(C.cur().norm(v))
    return v == 0


def _intlike(v):
    return v.fl in ("pyi", "npi") if isinstance(v, Num) else isinstance(v, int)


def _pylike(v):
    return v.fl in ("py", "pyi") if isinstance(v, Num) else True


def _fl(a, b, op="/"):
    """python / numpy flavour and integrality of the result"""
    i = "i" if op in "+-*//%" and op != "/" and _intlike(a) and _intlike(b) else ""
    return ("py" if _pylike(a) and _pylike(b) else "np") + i


class Nan0(float):
    """NaN inside a zero-dimensional array"""


def zerod(v):
    """scalar -> zero-dimensional numpy array"""
    if isinstance(v, bool) or not is_number(v) or is_inf(v):
        return v
    if is_nan(v):
        return Nan0("nan")
    v = to_num(v)
    return Num(v.n, v.d, "0d")


def is0d(v):
    return isinstance(v, Nan0) or (isinstance(v, Num) and v.fl == "0d")


def un0d(v):
    if isinstance(v, Nan0):
        return NAN
    if isinstance(v, Num) and v.fl == "0d":
        return Num(v.n, v.d, "np")
    return v


def setfl(n, fl):
    if isinstance(n, Num):
        return Num(n.n, n.d, fl)
    return n


def num_arith(op, a, b, npsem=False):
    """a, b numbers (maybe nan/inf); npsem: numpy division semantics"""
    if is_nan(a) or is_nan(b):
        return NAN
    if is_inf(a) or is_inf(b):
        sa = a if is_inf(a) else float(_signf(a)) if op in ("*", "/", "//") else 0.0
        sb = b if is_inf(b) else float(_signf(b)) if op in ("*", "/", "//") else 0.0
        if op == "+":
            return sa + sb
        if op == "-":
            return sa - sb
        if op == "*":
            return sa * sb
        if op == "/":
            if is_inf(a) and is_inf(b):
                return NAN
            if is_inf(b):
                return 0.0
            if sb == 0:
                return sa
            return sa * sb
        raise Undecided(f"arithmetic {op} on infinities")
    ca, cb = not isinstance(a, Num), not isinstance(b, Num)
    if ca and cb and op not in ("/",):
        try:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "//":
                return a // b
            if op == "%":
                return a % b
            if op == "**":
                if isinstance(b, float) and not float(b).is_integer():
                    return sqrt_like(a, b)
                return a ** b
        except ZeroDivisionError:
            raise_("ZeroDivisionError")
    fl = _fl(a, b, op)
    x, y = to_num(a), to_num(b)
    cx = C.cur()
    x, y = cx.norm(x), cx.norm(y)
    if op == "+":
        r = nadd(x, y)
    elif op == "-":
        r = nsub(x, y)
    elif op == "*":
        r = nmul(x, y)
    elif op == "/":
        if cx.is_zero(y):
            if not npsem and fl[:2] == "py":
                raise_("ZeroDivisionError", "division by zero")
            s = cx.sign(x)
            return NAN if s == 0 else (INF if s > 0 else -INF)
        if cx.is_zero(x):
            r = num(0)
        else:
            r = ndiv(x, y)
    elif op == "**":
        if y.is_const():
            e = y.const()
            if e.denominator == 1 and 0 <= e <= 4:
                r = num(1)
                for _ in range(int(e)):
                    r = nmul(r, x)
            elif e == Fraction(1, 2):
                return sqrt_(x)
            else:
                return fn_atom("pow", x, y)
        else:
            return fn_atom("pow", x, y)
    elif op in ("//", "%"):
        return fn_atom({"//": "floordiv", "%": "mod"}[op], x, y)
    else:
        raise Undecided(f"operator {op}")
    r = Num(r.n, r.d, fl)
    if SQRT:
        r = root_reduce(r)
    return simp(r)


def _signf(v):
    return sign_of(v) if isinstance(v, Num) else (v > 0) - (v < 0)


def fn_atom(name, *args):
    """an uninterpreted (but deterministic) function of abstract numbers"""
    key = ",".join(repr(C.cur().norm(to_num(a))) if is_number(a) and fin(a) else repr(a) for a in args)
    if "@" in key and ".last" not in key:
        return TOPH
    return atom(f"{name}[{key}]", "np")


def sqrt_(x):
    x = C.cur().norm(to_num(x))
    if x.is_const():
        c = x.const()
        if c < 0:
            return NAN
        r = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if r[0] ** 2 == c.numerator and r[1] ** 2 == c.denominator:
            return Num(num(Fraction(r[0], r[1])).n, P1, "np")
    s = C.cur().sign(x)
    if s <= 0:
        return 0 if s == 0 else NAN
    key = repr(x)
    if "@" in key and ".last" not in key:
        return TOPH
    name = f"+sqrt[{key}]"
    SQRT[name] = x
    return atom(name, "np")


SQRT = {}       # atom of a square root -> radicand


def root_reduce(x):
    """rewrite even powers of square roots"""
    if not SQRT or not any(a in SQRT for a in patoms(x.n) | patoms(x.d)):
        return x

    def red(p):
        out = num(0)
        for m, c in p.t.items():
            t = num(c)
            for a, e in m:
                if a in SQRT and e >= 2:
                    for _ in range(e // 2):
                        t = nmul(t, SQRT[a])
                    e = e % 2
                for _ in range(e):
                    t = nmul(t, atom(a))
            out = nadd(out, t)
        return out
    fl = x.fl
    x = ndiv(red(x.n), red(x.d))
    return Num(x.n, x.d, fl)


def root_norm(x):
    """square roots of radicands that the path equations have simplified"""
    if not SQRT or not isinstance(x, Num):
        return x
    cx = C.cur()
    for a in patoms(x.n) | patoms(x.d):
        r = SQRT.get(a)
        if r is None:
            continue
        q = cx.norm(r)
        if repr(q) == repr(r):
            continue
        v = sqrt_(q)
        if isinstance(v, Num) or isinstance(v, int):
            v = to_num(v)
            if v.d.key() == P1.key() and a not in patoms(v.n):
                fl = x.fl
                x = nsubst(x, {a: v.n})
                x = Num(x.n, x.d, fl)
    return x


def root_diff(p):
    """c*sqrt(A) - d*sqrt(B) with c, d monomials: (sign of c, c^2*A - d^2*B), else None"""
    if not SQRT or len(p.t) != 2:
        return None
    parts = []
    for m, c in p.t.items():
        rs = [(a, e) for a, e in m if a in SQRT]
        if len(rs) > 1 or (rs and rs[0][1] != 1):
            return None
        t = num(c)
        for a, e in m:
            if a not in SQRT:
                for _ in range(e):
                    t = nmul(t, atom(a))
        s = C.cur().quick_sign(t.n)
        if not s:
            return None
        sq = nmul(t, t)
        parts.append((s, nmul(sq, SQRT[rs[0][0]]) if rs else sq))
    if parts[0][0] == parts[1][0] or not any(a in SQRT for a in patoms(p)):
        return None
    return parts[0][0], nsub(parts[0][1], parts[1][1])


def sqrt_like(a, b):
    return fn_atom("pow", a, b)


def lab_arith(op, a, b):
    if is_nan(a) or is_nan(b):
        return NAN
    la, lb = isinstance(a, Lab), isinstance(b, Lab)
    if la and lb:
        if op == "-" and a.kind == b.kind == "ts":
            if (a.tz is None) != (b.tz is None):
                raise_("TypeError", "Cannot subtract tz-naive and tz-aware datetime-like objects")
            return Lab("td", to_num(num_arith("-", a.x, b.x)), None, a.flav)
        if op in ("+", "-") and b.kind == "td":
            return Lab(a.kind, to_num(num_arith(op, a.x, b.x)), a.tz, a.flav)
        if op == "+" and a.kind == "td" and b.kind == "ts":
            return Lab("ts", to_num(num_arith("+", a.x, b.x)), b.tz, b.flav)
        if op == "/" and a.kind == b.kind == "td":
            return num_arith("/", a.x, b.x, True)
        raise_("TypeError", f"unsupported operand {op} for {a.kind} and {b.kind}")
    if la:
        if a.kind == "td" and op in ("*", "/") and is_number(b):
            r = num_arith(op, a.x, b, True)
            return NAN if not fin(r) else Lab("td", to_num(r), None, a.flav)
        raise_("TypeError", f"unsupported operand {op} for {a.kind} and number")
    if lb:
        if b.kind == "td" and op == "*" and is_number(a):
            r = num_arith("*", a, b.x)
            return NAN if not fin(r) else Lab("td", to_num(r), None, b.flav)
        raise_("TypeError", f"unsupported operand {op} for number and {b.kind}")
    raise_("TypeError", "unsupported operands")


def lab_cmp_ok(a, b, op):
    if a.kind != b.kind or (a.kind == "ts" and (a.tz is None) != (b.tz is None)):
        if op == "==":
            return False
        if op == "!=":
            return False
        raise_("TypeError", f"Cannot compare {a!r} and {b!r}")
    return True


def num_cmp(op, a, b):
    if is_nan(a) or is_nan(b):
        return op == "!="
    if is_inf(a) or is_inf(b) or not (isinstance(a, Num) or isinstance(b, Num)):
        if isinstance(a, Num):
            a = 0.0
        if isinstance(b, Num):
            b = 0.0
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    cx = C.cur()
    d = nsub(root_norm(cx.norm(to_num(a))), root_norm(cx.norm(to_num(b))))
    if SQRT:
        r = root_diff(d.n)
        q = cx.quick_sign(d.d) if r is not None else None
        if q:
            d = r[1] if r[0] * q > 0 else nsub(num(0), r[1])
    if op == "==":
        return cx.is_zero(d)
    if op == "!=":
        return not cx.is_zero(d)
    s = cx.sign(d)
    return {"<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}[op]


SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def same_num(a, b):
    """decided equality of two numeric values (splits if needed); NaN equals NaN"""
    if is_nan(a) or is_nan(b):
        return is_nan(a) and is_nan(b)
    if is_inf(a) or is_inf(b):
        return is_inf(a) and is_inf(b) and a == b
    return num_cmp("==", a, b)


def definitely_equal(a, b):
    """same value under the current facts, no splitting"""
    if isinstance(a, H) or isinstance(b, H):
        return isinstance(a, H) and isinstance(b, H) and a.hid == b.hid and definitely_equal(a.val, b.val)
    if isinstance(a, Lab) or isinstance(b, Lab):
        return (isinstance(a, Lab) and isinstance(b, Lab) and a.kind == b.kind
                and (a.tz is None) == (b.tz is None) and definitely_equal(a.x, b.x))
    if is_number(a) and is_number(b):
        if is_nan(a) or is_nan(b):
            return is_nan(a) and is_nan(b)
        if is_inf(a) or is_inf(b):
            return is_inf(a) and is_inf(b) and a == b
        d = nsub(C.cur().norm(to_num(a)), C.cur().norm(to_num(b)))
        return not d.n.t
    return a is b or (type(a) is type(b) and isinstance(a, (str, type(None))) and a == b)


def rename_last(v, hid):
    """generic member of run -> its last member"""
    suf = "@" + hid

    def f(a):
        return a + ".last" if a.endswith(suf) else a
    if isinstance(v, Num):
        return nrename(v, f)
    if isinstance(v, Lab):
        return Lab(v.kind, nrename(v.x, f), v.tz, v.flav)
    return v

"""Abstract vectors: arrays, indexes, series, frames.

An entry of a vector is an abstract scalar or a summarised run `H` standing for one
or more consecutive entries.  Storage is boxed (`Cell`) so that views share boxes and
copies do not: writes through one are seen by the other exactly when numpy/pandas
would share memory."""
from . import ctx as C
from .ctx import Undecided, HoleDecision
from .terms import Num, Poly, atom, mknum, nadd, nrename, nsub, num, patoms, pconst, pscale, P1
from .values import *


class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


def cells(vals):
    return [Cell(v) for v in vals]


class Vec:
    epoch = 1


class Arr(Vec):
    """one-dimensional numpy array"""
    __slots__ = ("cells", "dtype", "epoch")

    def __init__(self, cs, dtype):
        self.cells, self.dtype = cs, dtype
        self.epoch = 1

    @property
    def vals(self):
        return [c.v for c in self.cells]

    def __repr__(self):
        return f"array({self.vals}, {self.dtype})"


class Arr2(Vec):
    __slots__ = ("rows", "dtype", "epoch")

    def __init__(self, rows, dtype):
        self.rows, self.dtype = rows, dtype      # list of list of Cell
        self.epoch = 1

    def __repr__(self):
        return f"array2({self.rows}, {self.dtype})"


class Idx(Vec):
    __slots__ = ("vals", "dtype", "name", "tz", "closed", "epoch")

    def __init__(self, vals, dtype, name=None, tz=None, closed=None):
        self.vals = list(vals)
        self.dtype, self.name, self.tz, self.closed = dtype, name, tz, closed
        if tz is None and dtype == "M8":
            for v in self.vals:
                v = v.val if isinstance(v, H) else v
                if isinstance(v, Lab):
                    self.tz = v.tz
        self.epoch = 1

    def __repr__(self):
        return f"Index({self.vals}, {self.dtype})"


class Iv:
    """interval scalar"""
    __slots__ = ("left", "right", "closed")

    def __init__(self, left, right, closed):
        self.left, self.right, self.closed = left, right, closed

    def __repr__(self):
        return f"Interval({self.left!r}, {self.right!r}, {self.closed})"


class Per(Iv):
    """a calendar period: [left, right), its end_time one nanosecond before right"""
    __slots__ = ()

    def __repr__(self):
        return f"Period({self.left!r}, {self.right!r})"


def per_end(p):
    return Lab("ts", nsub(p.right.x, num(1)), p.right.tz, p.right.flav)


class Ser(Vec):
    __slots__ = ("idx", "cells", "dtype", "name", "ref", "epoch", "ext")

    def __init__(self, idx, cs, dtype, name=None):
        self.idx, self.cells, self.dtype, self.name = idx, cs, dtype, name
        self.ref = None         # (DF, column) when handed out by a frame
        self.epoch = 1
        self.ext = None

    @property
    def vals(self):
        return [c.v for c in self.cells]

    def __repr__(self):
        return f"Series({list(zip(self.idx.vals, self.vals))}, {self.dtype})"


class DF(Vec):
    __slots__ = ("idx", "cols", "cache", "epoch", "colname")

    def __init__(self, idx, cols):
        self.idx = idx
        self.cols = cols        # name -> (cells, dtype)
        self.cache = {}
        self.epoch = 1

    def __repr__(self):
        return f"DataFrame({self.idx.vals}, {{{', '.join(f'{k}: {[c.v for c in v[0]]} {v[1]}' for k, v in self.cols.items())}}})"


class Indexer:
    __slots__ = ("kind", "o")

    def __init__(self, kind, o):
        self.kind, self.o = kind, o


class GroupBy:
    def __init__(self, s, keys, sort=True, dropna=True, kdtype=None, kname=None):
        self.s, self.keys, self.sort, self.dropna, self.kdtype, self.kname = s, keys, sort, dropna, kdtype, kname


class DtypeObj:
    """a numpy dtype"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"dtype({self.name})"


VECS = (Arr, Arr2, Idx, Ser, DF)


def is_vec(v):
    return isinstance(v, VECS)


NA = ExtFunc("pandas.NA", None)


# ---------------------------------------------------------------- entries

def hval(v):
    return v.val if isinstance(v, H) else v


def hmap(f, *vs):
    """apply f to entries; a run is mapped through its generic member"""
    hid = None
    for v in vs:
        if isinstance(v, H):
            if hid is not None and v.hid != hid:
                raise Undecided("entries of different runs combined")
            hid = v.hid
    if hid is None:
        return f(*vs)
    args = [hval(v) for v in vs]
    if any(isinstance(a, TopH) for a in args):
        return H(hid, TOPH)
    try:
        return H(hid, f(*args))
    except HoleDecision:
        return H(hid, TOPH)


def pairup(a, b):
    """two entry lists of the same length, position by position"""
    if len(a) != len(b):
        if any(isinstance(x, H) for x in a) or any(isinstance(x, H) for x in b):
            raise Undecided("runs not aligned")
        return None
    for x, y in zip(a, b):
        if isinstance(x, H) != isinstance(y, H) or (isinstance(x, H) and x.hid != y.hid):
            raise Undecided("runs not aligned")
    return list(zip(a, b))


def isnull(v):
    if isinstance(v, H):
        return hmap(isnull, v)
    if isinstance(v, TopH):
        return TOPH
    if isinstance(v, Unknown):
        raise Undecided(v.reason)
    return v is None or v is NA or is_nan(v)


def nprefix(vals):
    """prefix lengths of entries (ints or Nums), one more than the number of entries"""
    out = [0]
    n = 0
    extra = None
    for v in vals:
        if isinstance(v, H):
            a = atom("+N[" + v.hid + "]", "py")
            extra = a if extra is None else nadd(extra, a)
        else:
            n += 1
        out.append(n if extra is None else nadd(extra, num(n, "py")))
    return out


def vlen(vals):
    return nprefix(vals)[-1]


def num_eq(a, b):
    """definite equality of two counts"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return not nsub(to_num(a), to_num(b)).n.t


def locate(vals, k):
    """entry at integer position k (possibly negative) -> (j, 'single'|'last')"""
    pre = nprefix(vals)
    tot = pre[-1]
    if isinstance(k, bool):
        k = int(k)
    if not isinstance(k, int):
        k = simp(k)
    if isinstance(tot, int) and isinstance(k, Num) and k.is_const() and k.const().denominator == 1:
        k = int(k.const())
    if isinstance(tot, int) and isinstance(k, int):
        if not -tot <= k < tot:
            raise_("IndexError", f"index {k} is out of bounds for size {tot}")
        return k % tot, "single"
    cand = [k]
    if isinstance(k, int) and k < 0 or (isinstance(k, Num) and k.is_const() and k.const() < 0):
        cand = [nadd(to_num(tot), to_num(k))]
    for kk in cand:
        for j, v in enumerate(vals):
            if num_eq(pre[j], kk):
                if isinstance(v, H):
                    raise Undecided("first member of a summarised run")
                return j, "single"
            if isinstance(v, H) and num_eq(nsub(to_num(pre[j + 1]), num(1)), kk):
                return j, "last"
    raise Undecided(f"position {k!r} in a vector with summarised runs")


def get_at(vals, k):
    j, how = locate(vals, k)
    v = vals[j]
    return rename_last(v.val, v.hid) if how == "last" else v


def cut(vals, k, default):
    """slice bound -> entry position"""
    if k is None:
        return default
    pre = nprefix(vals)
    tot = pre[-1]
    if not isinstance(k, int):
        k = simp(k)
        if isinstance(k, Num) and k.is_const():
            k = int(k.const())
    if isinstance(k, bool):
        k = int(k)
    if isinstance(tot, int) and isinstance(k, int):
        return max(0, tot + k) if k < 0 else min(k, tot)
    if isinstance(k, int) and k < 0:
        k = nadd(to_num(tot), num(k))
    for j, p in enumerate(pre):
        if num_eq(p, k):
            return j
    if isinstance(k, int) or isinstance(k, Num):
        d = nsub(to_num(k), to_num(tot))
        if d.is_const() and d.const() >= 0:
            return len(vals)
    raise Undecided(f"slice bound {k!r} inside a summarised run")


def slice_entries(vals, sl):
    """-> python slice over entries"""
    if sl.c is not None and sl.c not in (1, -1):
        if any(isinstance(v, H) for v in vals):
            raise Undecided("strided slice of a run")
        n = len(vals)
        return slice(*(None if x is None else int(to_num(x).const()) for x in (sl.a, sl.b, sl.c)))
    if sl.c == -1:
        if any(isinstance(v, H) for v in vals):
            raise Undecided("reversed run")
        return slice(*(None if x is None else int(to_num(x).const()) for x in (sl.a, sl.b, sl.c)))
    return slice(cut(vals, sl.a, 0), cut(vals, sl.b, len(vals)))


# ---------------------------------------------------------------- labels

def norm_lab(v):
    return v


def lcmp(I, a, b):
    """order of two labels: -1, 0, 1 (NaN last)"""
    if isinstance(a, H) or isinstance(b, H):
        if isinstance(a, H) and isinstance(b, H) and a.hid == b.hid:
            if definitely_equal(a.val, b.val):
                return 0
            raise Undecided("two labellings of one run")
        return lcmp(I, hval(a), hval(b))
    if isnull(a) or isnull(b):
        return (1 if isnull(a) else 0) - (1 if isnull(b) else 0)
    if isinstance(a, Iv) or isinstance(b, Iv):
        if isinstance(a, Iv) and isinstance(b, Iv):
            c = lcmp(I, a.left, b.left)
            return c if c else lcmp(I, a.right, b.right)
        raise_("TypeError", "interval compared with scalar")
    if isinstance(a, str) and isinstance(b, str):
        return (a > b) - (a < b)
    if is_number(a) and is_number(b):
        if is_inf(a) or is_inf(b) or not (isinstance(a, Num) or isinstance(b, Num)):
            if isinstance(a, Num) or isinstance(b, Num):
                return -lcmp(I, b, a) if isinstance(a, Num) else (1 if a > 0 else -1)
            return (a > b) - (a < b)
        cx = C.cur()
        return cx.sign(nsub(cx.norm(to_num(a)), cx.norm(to_num(b))))
    if isinstance(a, Lab) and isinstance(b, Lab):
        if a.kind != b.kind:
            raise_("TypeError", "labels of different kinds")
        if (a.tz is None) != (b.tz is None):
            raise_("TypeError", "Cannot compare tz-naive and tz-aware datetime-like objects")
        cx = C.cur()
        return cx.sign(nsub(cx.norm(a.x), cx.norm(b.x)))
    if isinstance(a, Inst) or isinstance(b, Inst):
        if I.truth(I.compare("<", a, b)):
            return -1
        if I.truth(I.compare("==", a, b)):
            return 0
        return 1
    raise_("TypeError", f"labels {a!r} and {b!r} are not comparable")


def leq(I, a, b):
    """same label?"""
    if isinstance(a, H) or isinstance(b, H):
        if isinstance(a, H) and isinstance(b, H):
            if a.hid == b.hid:
                if definitely_equal(a.val, b.val):
                    return True
                raise Undecided("two labellings of one run")
            raise Undecided("two runs compared")
        s = lcmp(I, hval(a), hval(b))
        return s == 0
    if isnull(a) or isnull(b):
        return isnull(a) and isnull(b)
    if isinstance(a, Lab) and isinstance(b, Lab):
        if a.kind != b.kind or (a.tz is None) != (b.tz is None):
            return False
        return num_cmp("==", a.x, b.x)
    if is_number(a) and is_number(b):
        return num_cmp("==", a, b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Iv) and isinstance(b, Iv):
        return leq(I, a.left, b.left) and leq(I, a.right, b.right)
    if isinstance(a, (Inst,)) or isinstance(b, Inst):
        return a is b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(leq(I, x, y) for x, y in zip(a, b))
    return a is b if not isinstance(a, (bool, int, float)) else False


def find_label(I, vals, k):
    for j, v in enumerate(vals):
        if isinstance(v, H) and not isinstance(k, H):
            if lcmp(I, v, k) == 0:
                raise Undecided("label inside a run")
            continue
        if leq(I, v, k):
            return j
    return None


def sort_entries(I, vals, key=lambda x: x):
    """stable insertion sort; every comparison is decided by the abstract state"""
    out = []
    for v in vals:
        i = len(out)
        while i > 0 and lcmp(I, key(out[i - 1]), key(v)) > 0:
            i -= 1
        out.insert(i, v)
    return out


def is_sorted(I, vals, strict=False):
    for a, b in zip(vals, vals[1:]):
        c = lcmp(I, a, b)
        if c > 0 or (strict and c == 0):
            return False
    return True


def same_index(I, a, b):
    if a is b or a.vals is b.vals:
        return True
    if len(a.vals) != len(b.vals):
        return False
    for x, y in zip(a.vals, b.vals):
        if isinstance(x, H) != isinstance(y, H):
            return False
        if isinstance(x, H) and x.hid != y.hid:
            return False
        if not leq(I, x, y):
            return False
    return True


# ---------------------------------------------------------------- dtypes

def scalar_dtype(v, np_ctor=False):
    v = hval(v)
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, Num):
        return "int" if v.fl in ("pyi", "npi") else "float"
    if isinstance(v, float):
        return "float"
    if isinstance(v, TopH):
        return "float"
    if isinstance(v, Lab):
        if np_ctor and v.flav != "np":
            return "object"
        return "M8" if v.kind == "ts" else "m8"
    if isinstance(v, Per):
        return "object" if np_ctor else "period"
    if isinstance(v, Iv):
        return "object" if np_ctor else "interval"
    return "object"


def infer_dtype(vals, np_ctor=False):
    """dtype numpy (np_ctor) or pandas would give to a list of scalars"""
    ds = set()
    null = False
    none = False
    for v in vals:
        v = hval(v)
        if v is None or v is NA:
            none = True
            continue
        if is0d(v) and not np_ctor:
            ds.add("object")
            continue
        if is_nan(v):
            null = True
            continue
        ds.add(scalar_dtype(v, np_ctor))
    if not ds:
        if none:
            return "object"
        return "float" if null or np_ctor or True else "object"
    if len(ds) == 1:
        d = ds.pop()
        if none and np_ctor:
            return "object"
        if d == "bool":
            return "object" if (null or none) and not np_ctor else ("float" if null else "bool")
        if d == "int":
            return "float" if null or none else "int"
        return d
    if ds <= {"int", "float"}:
        return "object" if none and np_ctor else "float"
    if ds <= {"bool", "int", "float"} and np_ctor:
        return "float" if "float" in ds else "int"
    return "object"


def common_dtype(a, b):
    if a == b:
        return a
    s = {a, b}
    if s == {"int", "float"}:
        return "float"
    return "object"


def conv(v, dtype):
    """store scalar in an array of the dtype"""
    if isinstance(v, H):
        return H(v.hid, conv(v.val, dtype))
    if dtype in ("float", "int") and isinstance(v, bool):
        return int(v)
    if dtype in ("float", "M8", "m8") and (v is None or v is NA or is_nan(v)):
        return NAN
    if dtype == "float" and isinstance(v, Num) and v.fl != "np":
        return Num(v.n, v.d, "np")
    if dtype == "int" and isinstance(v, Num) and v.fl != "npi":
        return Num(v.n, v.d, "npi")
    if isinstance(v, Lab) and dtype in ("M8", "m8") and v.flav != "np":
        return Lab(v.kind, v.x, v.tz, "np")
    return v


def out_scalar(v, dtype, series):
    """element handed out by an array (series: pandas boxes datetimes)"""
    if isinstance(v, H):
        return H(v.hid, out_scalar(v.val, dtype, series))
    if isinstance(v, Lab):
        if dtype in ("M8", "m8"):
            return Lab(v.kind, v.x, v.tz if series else None, "pd" if series else "np")
        return v
    if dtype == "float" and isinstance(v, (int, Num)) and not isinstance(v, bool):
        return Num(to_num(v).n, to_num(v).d, "np")
    if dtype == "int" and isinstance(v, (int, Num)) and not isinstance(v, bool):
        return Num(to_num(v).n, to_num(v).d, "npi")
    return v


def iter_scalar(v, dtype):
    """iteration over Series / Index yields python scalars"""
    if isinstance(v, H):
        return H(v.hid, iter_scalar(v.val, dtype))
    if isinstance(v, Lab):
        return Lab(v.kind, v.x, v.tz, "pd") if dtype in ("M8", "m8") else v
    if dtype == "float" and isinstance(v, (int, Num)) and not isinstance(v, bool):
        return Num(to_num(v).n, to_num(v).d, "py")
    if dtype == "int" and isinstance(v, Num):
        return Num(v.n, v.d, "pyi") if not v.is_const() else int(v.const())
    return v


def can_hold(dtype, v):
    v = hval(v)
    if dtype == "object":
        return True
    if dtype == "float":
        return (is_number(v) and not isinstance(v, bool)) or v is None or v is NA or isinstance(v, TopH)
    if dtype == "int":
        return scalar_dtype(v) == "int" or (isinstance(v, Num) and v.is_const() and v.const().denominator == 1)
    if dtype == "bool":
        return isinstance(v, bool)
    if dtype in ("M8", "m8"):
        return (isinstance(v, Lab) and (v.kind == "ts") == (dtype == "M8")) or is_nan(v) or v is None
    return True


def upcast(dtype, v):
    """dtype after setting v into an array of dtype"""
    if can_hold(dtype, v):
        return dtype
    v = hval(v)
    if dtype == "int" and (is_number(v) and not isinstance(v, bool)):
        return "float"
    return "object"


def parse_dtype(d):
    if d is None:
        return None
    if isinstance(d, DtypeObj):
        return d.name
    if isinstance(d, str):
        if d in ("float", "float64", "f8", "d", "float32"):
            return "float"
        if d in ("int", "int64", "i8", "int32"):
            return "int"
        if d in ("bool", "?"):
            return "bool"
        if d in ("object", "O"):
            return "object"
        if d.startswith("datetime64"):
            return "M8"
        if d.startswith("timedelta64"):
            return "m8"
        return d
    if isinstance(d, ExtClass):
        return {"float": "float", "int": "int", "bool": "bool", "object": "object", "numpy.float64": "float",
                "numpy.int64": "int", "numpy.bool_": "bool", "str": "object"}.get(d.name, d.name)
    if isinstance(d, Inst):
        return d
    raise Undecided(f"dtype {d!r}")


def cast(I, vals, frm, to):
    """astype"""
    if frm == to:
        return list(vals)
    def f(v):
        if isinstance(v, TopH):
            return v
        if to == "float":
            if isinstance(v, bool):
                return int(v)
            if is_number(v):
                return conv(v, "float")
            if v is None or v is NA:
                return NAN
            if isinstance(v, Lab):
                raise_("TypeError", "cannot cast datetimelike to float")
            if isinstance(v, str):
                raise Undecided("string to float")
            raise_("TypeError", f"float() argument must be a number, not {v!r}")
        if to == "int":
            if isinstance(v, bool):
                return int(v)
            if is_nan(v) or is_inf(v):
                raise_("ValueError", "Cannot convert non-finite values (NA or inf) to integer")
            if isinstance(v, int):
                return v
            if isinstance(v, Num):
                if v.is_const():
                    c = v.const()
                    return int(c)
                if v.fl in ("pyi", "npi"):
                    return v
                return fn_atom("int", v)
            raise Undecided("astype int")
        if to == "bool":
            if is_nan(v) or is_inf(v):
                return True
            if isinstance(v, bool):
                return v
            if is_number(v):
                return not zero(v)
            raise Undecided("astype bool")
        if to == "object":
            return out_scalar(v, frm, True)
        raise Undecided(f"astype {to}")
    return [hmap(f, v) for v in vals]


# ---------------------------------------------------------------- reductions over runs

def run_sum(v, hid):
    """sum over the members of a run of the generic expression v"""
    if isinstance(v, TopH):
        return Unknown("sum over a run")
    if is_nan(v) or is_inf(v):
        return v
    x = C.cur().norm(to_num(v))
    gen = lambda a: a.endswith("@" + hid) or ("@" + hid + ".prev") in a
    if any(gen(a) for a in patoms(x.d)):
        return fn_atom(f"Sum<{hid}>", Num(x.n, x.d)) if False else Unknown("sum of a quotient over a run")
    res = num(0)
    for m, c in x.n.t.items():
        g = tuple((a, e) for a, e in m if gen(a))
        k = tuple((a, e) for a, e in m if not gen(a))
        if g:
            pos = all(a.startswith("+") or e % 2 == 0 for a, e in g)
            name = ("+" if pos else "") + "S[" + hid + "|" + "*".join(f"{a}^{e}" for a, e in g) + "]"
        else:
            name = "+N[" + hid + "]"
        t = Num(Poly({((name, 1),): c}), P1)
        if k:
            from .terms import nmul
            t = nmul(t, Num(Poly({k: pconst(1).t[()]}), P1))
        res = nadd(res, t)
    from .terms import ndiv
    return ndiv(res, Num(x.d, P1))


def vsum(I, vals, zero_=0):
    """sum of entries with the abstract + of the interpreter"""
    acc = zero_
    for v in vals:
        if isinstance(v, H):
            g = v.val
            if isinstance(g, Lab):
                t = run_sum(g.x, v.hid)
                t = t if isinstance(t, Unknown) else Lab(g.kind, t, g.tz, g.flav)
            else:
                t = run_sum(g, v.hid)
            if isinstance(t, Unknown):
                raise Undecided(t.reason)
            v = t
        if isinstance(v, TopH):
            raise Undecided("sum of top")
        if acc == 0 and isinstance(acc, int) and isinstance(v, Lab):
            acc = v
        else:
            acc = I.scalar_binop("+", acc, v, True)
    return acc


def bools(vals, what="mask"):
    """decide a boolean vector entry by entry"""
    out = []
    for v in vals:
        g = hval(v)
        if isinstance(g, (TopH, Unknown)):
            raise Undecided(f"{what} over a summarised run")
        if is_nan(g) or g is None:
            out.append(None)
        elif isinstance(g, bool):
            out.append(g)
        elif isinstance(g, int):
            out.append(bool(g))
        elif isinstance(g, Num):
            out.append(not zero(g))
        else:
            raise Undecided(f"{what} of {g!r}")
    return out

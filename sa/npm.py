"""Abstract models of the numpy operations."""
from . import ctx as C
from .extattrs import ATTRS
from .vec import *
from .pdm import *
from .pdm import U, NUMD, dt_of, elementwise, binop_dtype, as_operand
from .pdmeth import *
from .pdmeth import (SER, IDX, FRAME, red_any, red_all, red_sum, red_ext, red_mean, red_median, red_var, vcumsum, vdiff,
                     nonnull, anyH, uniq, argext, abs_, fn_round, to_np, outnum, idx_values, ser_values)
from .ctx import Undecided, HoleDecision
from fractions import Fraction

from .terms import Num, atom, nadd, nmul, nsub, num
from .values import *

NP = {}
DTYPE_CLASSES = ("float64", "int64", "bool_", "float32", "int32", "object_", "str_", "number", "generic", "integer",
                 "floating", "ndarray", "datetime64", "timedelta64", "ufunc", "dtype")


def npf(*names):
    def d(f):
        for n in names:
            NP[n] = ExtFunc(f"numpy.{n}", f)
        return f
    return d


# ---------------------------------------------------------------- arrays

def asarr(I, x, dtype=None):
    """np.asarray for anything one- or two-dimensional; scalars come back as they are"""
    d = parse_dtype(dtype)
    if isinstance(x, Arr):
        r = x
    elif isinstance(x, Ser):
        if x.ext is not None:
            r = Arr(cells(x.vals), "object")
        elif x.dtype == "M8" and any(isinstance(hval(v), Lab) and hval(v).tz for v in x.vals):
            r = Arr(cells([hmap(lambda v: Lab("ts", v.x, v.tz, "pd") if isinstance(v, Lab) else v, v) for v in x.vals]), "object")
        else:
            r = Arr(x.cells, x.dtype)
    elif isinstance(x, Idx):
        r = IDX["to_numpy"].fn(I, x)
    elif isinstance(x, DF):
        return frame_values(x)
    elif isinstance(x, Arr2):
        return x
    elif isinstance(x, (PyList, tuple, PyIter)):
        if isinstance(x, PyIter):
            raise U("array of an iterator object")
        vals = list(x if isinstance(x, tuple) else x.v)
        if vals and all(is_vec(v) or isinstance(v, (PyList, tuple)) for v in vals):
            rows = [asarr(I, v) for v in vals]
            if all(isinstance(r, Arr) for r in rows):
                n = len(rows[0].cells)
                for r in rows[1:]:
                    if pairup(rows[0].vals, r.vals) is None:
                        raise_("ValueError", "setting an array element with a sequence. inhomogeneous shape")
                dd = rows[0].dtype
                for r in rows[1:]:
                    dd = np_common(dd, r.dtype)
                dd = d or dd
                return Arr2([[Cell(hmap(lambda q: conv(q, dd), c.v)) for c in r.cells] for r in rows], dd)
            return Unknown("array of arrays")
        if any(is_vec(v) or isinstance(v, (PyList, tuple)) for v in vals):
            raise_("ValueError", "inhomogeneous shape")
        dd = infer_dtype(vals, True)
        if d and d != dd:
            vals = cast(I, vals, dd, d)
            dd = d
        return Arr(cells([conv(v, dd) for v in vals]), dd)
    elif isinstance(x, Inst):
        f = x.cls.lookup("__array__")
        if f is not None:
            return asarr(I, I.call(Bound(f, x), [], {}), dtype)
        if x.cls.lookup("__len__") is not None and x.cls.lookup("__getitem__") is not None:
            return Arr(cells(I.iterate(x)), "object")
        return x
    else:
        if isinstance(x, (PyDict, PySet)):
            return Unknown("0-d object array")
        if is_number(x) and fin(x) and not isinstance(x, bool):
            x = to_num(x)
            return Num(x.n, x.d, "npi" if scalar_dtype(x) == "int" else "np") if isinstance(x, Num) else x
        return x
    if d and d != r.dtype:
        return Arr(cells(cast(I, r.vals, r.dtype, d)), d)
    return r


def np_common(a, b):
    if a == b:
        return a
    if a in NUMD and b in NUMD:
        return "float" if "float" in (a, b) else "int"
    return "object"


def flat(I, x):
    a = asarr(I, x)
    if isinstance(a, Arr2):
        return Arr([c for r in a.rows for c in r], a.dtype)
    if not isinstance(a, Arr):
        if isinstance(a, Unknown):
            raise U(a.reason)
        return Arr(cells([a]), scalar_dtype(a, True))
    return a


def copyarr(a):
    if isinstance(a, Arr):
        return Arr(cells(a.vals), a.dtype)
    if isinstance(a, Arr2):
        return Arr2([[Cell(c.v) for c in r] for r in a.rows], a.dtype)
    return a


@npf("array")
def np_array(I, x, dtype=None, copy=True, **k):
    r = asarr(I, x, dtype)
    if not is_vec(r) and dtype is not None and is_number(r):
        return cast(I, [r], scalar_dtype(r), parse_dtype(dtype))[0]
    return copyarr(r) if is_vec(r) else zerod(r)


@npf("asarray", "asanyarray", "ascontiguousarray")
def _(I, x, dtype=None, **k):
    r = asarr(I, x, dtype)
    return r if is_vec(r) else zerod(r)


@npf("atleast_1d")
def _(I, x):
    return flat(I, x) if not isinstance(asarr(I, x), Arr2) else asarr(I, x)


@npf("copy")
def _(I, x, **k):
    return copyarr(asarr(I, x))


@npf("ravel")
def _(I, x, **k):
    return flat(I, x)


def _full(I, shape, v, dtype=None):
    d = parse_dtype(dtype) or scalar_dtype(v)
    if is_nan(v):
        d = parse_dtype(dtype) or "float"
    if isinstance(shape, (tuple, PyList)):
        dims = [I.as_int(x) for x in I.iterate(shape)]
        if len(dims) == 1:
            return Arr(cells([conv(v, d)] * dims[0]), d)
        if len(dims) == 2:
            return Arr2([[Cell(conv(v, d)) for _ in range(dims[1])] for _ in range(dims[0])], d)
        return Unknown("array of more dimensions")
    n = shape if isinstance(shape, int) else simp(shape)
    if not isinstance(n, int):
        if isinstance(n, Num) and n.is_const():
            n = int(n.const())
        else:
            raise U("array length over a run")
    return Arr(cells([conv(v, d)] * n), d)


@npf("zeros")
def _(I, shape, dtype=None, **k):
    return _full(I, shape, 0, dtype or "float")


@npf("ones")
def _(I, shape, dtype=None, **k):
    return _full(I, shape, 1, dtype or "float")


@npf("empty")
def _(I, shape, dtype=None, **k):
    d = parse_dtype(dtype) or "float"
    return _full(I, shape, None if d == "object" else Unknown("uninitialised memory"), d)


@npf("full")
def _(I, shape, fill_value, dtype=None, **k):
    return _full(I, shape, fill_value, dtype)


def _like(I, x, v, dtype, keep):
    a = asarr(I, x)
    d = parse_dtype(dtype) or a.dtype
    if isinstance(a, Arr2):
        return Arr2([[Cell(hmap(lambda q: conv(v, d), c.v)) for c in r] for r in a.rows], d)
    if not isinstance(a, Arr):
        return v
    return Arr(cells([hmap(lambda q: conv(v, d), c.v) for c in a.cells]), d)


@npf("zeros_like")
def _(I, x, dtype=None, **k):
    return _like(I, x, 0, dtype, True)


@npf("ones_like")
def _(I, x, dtype=None, **k):
    return _like(I, x, 1, dtype, True)


@npf("full_like")
def _(I, x, v, dtype=None, **k):
    return _like(I, x, v, dtype, True)


@npf("empty_like")
def _(I, x, dtype=None, **k):
    return _like(I, x, Unknown("uninitialised memory"), dtype, True)


@npf("arange")
def _(I, *a, **k):
    return Arr(cells(list(range(*[I.as_int(x) for x in a]))), "int")


@npf("linspace")
def _(I, start, stop, num_=50, endpoint=True, **k):
    n = I.as_int(k.get("num", num_))
    if n == 1:
        return Arr(cells([start]), "float")
    m = n - 1 if endpoint else n
    out = []
    for i in range(n):
        out.append(I.scalar_binop("+", start, I.scalar_binop("*", I.scalar_binop("/", i, m), I.scalar_binop("-", stop, start))))
    return Arr(cells([conv(v, "float") for v in out]), "float")


@npf("append")
def _(I, arr, values, axis=None):
    a, b = flat(I, arr), flat(I, values)
    return _concat(I, [a, b])


def _concat(I, arrs):
    d = None
    vals = []
    for a in arrs:
        d = a.dtype if d is None else np_common(d, a.dtype)
        vals += a.vals
    if d == "object":
        ne = [a for a in arrs if a.cells]
        ds = {a.dtype for a in ne}
        # an empty list is a float array
        if len(ds) == 1 and ds <= {"M8", "m8"} and any(not a.cells for a in arrs):
            raise_("TypeError", "The DType <class 'numpy.dtypes.DateTime64DType'> could not be promoted by float")
    return Arr(cells([conv(v, d) for v in vals]), d)


@npf("concatenate", "hstack")
def _(I, arrs, axis=0, **k):
    xs = [asarr(I, a) for a in I.iterate(arrs)]
    if not xs:
        raise_("ValueError", "need at least one array to concatenate")
    if all(isinstance(x, Arr) for x in xs):
        return _concat(I, xs)
    return Unknown("concatenation of two-dimensional arrays")


@npf("stack", "vstack", "row_stack")
def _(I, arrs, axis=0, **k):
    r = asarr(I, PyList(I.iterate(arrs)))
    if axis in (1, -1):
        return arr_T(r)
    return r


@npf("column_stack")
def _(I, arrs):
    return arr_T(asarr(I, PyList(I.iterate(arrs))))


def arr_T(a):
    if isinstance(a, Arr2):
        for r in a.rows:
            if anyH([c.v for c in r]):
                raise U("transpose of a run")
        return Arr2([list(r) for r in zip(*a.rows)], a.dtype)
    return a


@npf("diff")
def _(I, a, n=1, axis=-1, **k):
    if n != 1 or k:
        return Unknown("np.diff arguments")
    a = flat(I, a)
    return Arr(cells(vdiff(I, a.vals, a.dtype)), {"M8": "m8", "bool": "bool"}.get(a.dtype, a.dtype))


@npf("cumsum")
def _(I, a, axis=None, **k):
    if isinstance(a, Ser):
        return SER["cumsum"].fn(I, a)
    a = flat(I, a)
    return Arr(cells(vcumsum(I, [hmap(lambda q: int(q) if isinstance(q, bool) else q, v) for v in a.vals], False)),
               "int" if a.dtype == "bool" else a.dtype)


@npf("unique")
def _(I, ar, return_index=False, return_inverse=False, return_counts=False, **k):
    if I.truth(return_index) or I.truth(return_inverse) or I.truth(return_counts):
        return Unknown("np.unique outputs")
    a = flat(I, ar)
    vs = sort_entries(I, a.vals)
    out = []
    for v in vs:
        if out and leq(I, out[-1], v):
            continue
        out.append(v)
    return Arr(cells(out), a.dtype)


@npf("sort")
def _(I, a, **k):
    a = flat(I, a)
    return Arr(cells(sort_entries(I, a.vals)), a.dtype)


@npf("argsort")
def _(I, a, **k):
    a = flat(I, a)
    if anyH(a.vals):
        raise U("argsort over a run")
    return Arr(cells(sort_entries(I, list(range(len(a.cells))), key=lambda j: a.cells[j].v)), "int")


@npf("flip")
def _(I, a, axis=None):
    a = flat(I, a)
    if anyH(a.vals):
        raise U("flip of a run")
    return Arr(a.cells[::-1], a.dtype)


@npf("where")
def _(I, cond, *xy):
    if len(xy) == 0:
        c = flat(I, cond)
        b = bools(c.vals)
        pre = nprefix(c.vals)
        if anyH(c.vals) and any(t for t, v in zip(b, c.vals) if isinstance(v, H)):
            raise U("positions in a run")
        return (Arr(cells([p for p, t in zip(pre, b) if t]), "int"),)
    x, y = xy
    c, x, y = asarr(I, cond), asarr(I, x), asarr(I, y)
    if any(isinstance(q, Arr2) for q in (c, x, y)):
        rows = next(q for q in (c, x, y) if isinstance(q, Arr2))
        n = len(rows.rows)
        parts = [_where3(I, row_of(c, i), row_of(x, i), row_of(y, i)) for i in range(n)]
        return Arr2([p.cells for p in parts], parts[0].dtype if parts else "float")
    return _where3(I, c, x, y)


def row_of(q, i):
    return Arr(q.rows[i if len(q.rows) > 1 else 0], q.dtype) if isinstance(q, Arr2) else q


def _where3(I, c, x, y):
    if not any(isinstance(q, Arr) for q in (c, x, y)):
        r = x if I.truth(c) else y
        return zerod(conv(r, np_common(dt_of(I, x), dt_of(I, y))))
    tmpl = next(q for q in (c, x, y) if isinstance(q, Arr))
    for q in (c, x, y):
        if isinstance(q, Arr) and len(q.cells) > len(tmpl.cells):
            tmpl = q
    n = len(tmpl.cells)

    def lst(q):
        if isinstance(q, Arr):
            if len(q.cells) == n:
                pairup(tmpl.vals, q.vals)
                return q.vals
            if len(q.cells) == 1:
                return q.vals * n
            raise_("ValueError", "operands could not be broadcast together")
        return [q] * n
    cl, xl, yl = lst(c), lst(x), lst(y)
    d = np_common(dt_of(I, x), dt_of(I, y))
    if is_nan(x) and dt_of(I, y) in ("M8", "m8") or is_nan(y) and dt_of(I, x) in ("M8", "m8"):
        d = "object"
    out = []
    for t, cc, p, q in zip(tmpl.vals, cl, xl, yl):
        if isinstance(hval(cc), TopH):
            out.append(H(t.hid, TOPH))
            continue
        b = hval(cc)
        b = True if is_nan(b) else I.truth(b)
        r = p if b else q
        r = hmap(lambda z: conv(z, d), r)
        if isinstance(t, H) and not isinstance(r, H):
            r = H(t.hid, r)
        out.append(r)
    return Arr(cells(out), d)


@npf("nonzero", "flatnonzero")
def _(I, a):
    r = NP["where"].fn(I, a)
    return r


@npf("count_nonzero")
def _(I, a, axis=None):
    return sum(1 for t in bools(flat(I, a).vals) if t)


@npf("searchsorted")
def np_searchsorted(I, a, v, side="left", sorter=None):
    if isinstance(a, Ser):
        return SER["searchsorted"].fn(I, a, v, side)
    if isinstance(a, Idx):
        return IDX["searchsorted"].fn(I, a, v, side)
    return searchsorted(I, flat(I, a), v, side)


def searchsorted(I, arr, value, side="left", tzaware=False):
    vals = arr.vals
    if not isinstance(side, str):
        raise U("searchsorted side")
    if side not in ("left", "right"):
        raise_("ValueError", f"search side must be 'left' or 'right' (got '{side}')")
    pre = nprefix(vals)

    def one(v):
        if isinstance(v, TopH):
            return TOPH
        if isinstance(v, Lab) and arr.dtype in ("M8", "m8"):
            tz = any(isinstance(hval(q), Lab) and hval(q).tz for q in vals)
            if v.kind == "ts" and v.flav == "pd" and (v.tz is not None) != tzaware and (tzaware or tz or v.tz is not None):
                raise_("TypeError", "Cannot compare tz-naive and tz-aware datetime-like objects")
        j = 0
        while j < len(vals):
            w = vals[j]
            c = lcmp_np(I, w, v)
            if c < 0 or (c == 0 and side == "right"):
                j += 1
            else:
                break
        return pre[j]
    if is_listlike(value):
        vs, _ = entries(I, asarr(I, value))
        out = []
        for v in vs:
            out.append(hmap(lambda q: one(q), v) if not isinstance(v, H) else _run_pos(I, vals, pre, v, side))
        return Arr(cells(out), "int")
    r = one(value)
    return r if not isinstance(r, int) else Num(to_num(r).n, to_num(r).d, "npi")


def _run_pos(I, vals, pre, v, side):
    for j, w in enumerate(vals):
        if isinstance(w, H) and w.hid == v.hid and definitely_equal(w.val, v.val):
            return H(v.hid, TOPH)
    j = 0
    while j < len(vals):
        c = lcmp_np(I, vals[j], v)
        if c < 0 or (c == 0 and side == "right"):
            j += 1
        else:
            break
    return H(v.hid, pre[j])


def lcmp_np(I, a, b):
    def strip(q):
        if isinstance(q, H):
            return H(q.hid, strip(q.val))
        if isinstance(q, Lab):
            return Lab(q.kind, q.x, None, "np")
        return q
    return lcmp(I, strip(a), strip(b))


# ---------------------------------------------------------------- ufuncs

def map_unary(I, x, f, dtype):
    """apply an elementwise function, keeping the container"""
    if isinstance(x, Ser):
        return Ser(x.idx, cells([hmap(f, v) for v in x.vals]), dtype or x.dtype, x.name)
    if isinstance(x, DF):
        return DF(x.idx, {c: (cells([hmap(f, q.v) for q in cs]), dtype or d) for c, (cs, d) in x.cols.items()})
    if isinstance(x, Idx):
        r = [hmap(f, v) for v in x.vals]
        return Arr(cells(r), "bool") if dtype == "bool" else Idx(r, dtype or x.dtype, x.name)
    a = asarr(I, x)
    if isinstance(a, Arr):
        return Arr(cells([hmap(f, v) for v in a.vals]), dtype or a.dtype)
    if isinstance(a, Arr2):
        return Arr2([[Cell(hmap(f, c.v)) for c in r] for r in a.rows], dtype or a.dtype)
    return f(a)


def objcheck(x, name):
    d = getattr(x, "dtype", None)
    if d == "object":
        raise_("TypeError", f"ufunc '{name}' not supported for the input types")


@npf("isnan")
def _(I, x, **k):
    if isinstance(x, (PyList, tuple)):
        x = asarr(I, x)
    objcheck(x, "isnan")
    if x is None or isinstance(x, (str, Inst, PyDict)) or (isinstance(x, Lab) and x.flav == "pd") or x is NA:
        raise_("TypeError", "ufunc 'isnan' not supported for the input types")

    def f(v):
        if isinstance(v, (TopH, Unknown)):
            return v
        return is_nan(v)
    return map_unary(I, x, f, "bool")


@npf("isinf")
def _(I, x, **k):
    if isinstance(x, (PyList, tuple)):
        x = asarr(I, x)
    objcheck(x, "isinf")
    if x is None or isinstance(x, (str, Inst)) or (isinstance(x, Lab) and x.flav == "pd"):
        raise_("TypeError", "ufunc 'isinf' not supported for the input types")
    return map_unary(I, x, lambda v: v if isinstance(v, (TopH, Unknown)) else is_inf(v), "bool")


@npf("isposinf")
def _(I, x, **k):
    return map_unary(I, x, lambda v: v if isinstance(v, (TopH, Unknown)) else (is_inf(v) and v > 0), "bool")


@npf("isneginf")
def _(I, x, **k):
    return map_unary(I, x, lambda v: v if isinstance(v, (TopH, Unknown)) else (is_inf(v) and v < 0), "bool")


@npf("isfinite")
def _(I, x, **k):
    if isinstance(x, (PyList, tuple)):
        x = asarr(I, x)
    objcheck(x, "isfinite")
    if x is None or isinstance(x, (str, Inst)) or (isinstance(x, Lab) and x.flav == "pd"):
        raise_("TypeError", "ufunc 'isfinite' not supported for the input types")
    return map_unary(I, x, lambda v: v if isinstance(v, (TopH, Unknown)) else not (is_nan(v) or is_inf(v)), "bool")


@npf("abs", "absolute", "fabs")
def _(I, x, **k):
    return map_unary(I, x, lambda v: abs_(I, v), None)


@npf("negative")
def _(I, x, **k):
    return map_unary(I, x, lambda v: I.unop_scalar("USub", v), None)


@npf("positive")
def _(I, x, **k):
    return map_unary(I, x, lambda v: v, None)


@npf("sqrt")
def _(I, x, **k):
    def f(v):
        if isinstance(v, (TopH, Unknown)):
            return v
        if is_nan(v):
            return NAN
        if is_inf(v):
            return v if v > 0 else NAN
        if not is_number(v):
            raise_("TypeError", "loop of ufunc does not support argument")
        if sign_of(v) < 0:
            return NAN
        return sqrt_(v)
    return map_unary(I, x, f, "float")


@npf("square")
def _(I, x, **k):
    return map_unary(I, x, lambda v: I.scalar_binop("*", v, v, True), None)


@npf("sign")
def _(I, x, **k):
    return map_unary(I, x, lambda v: v if is_nan(v) or isinstance(v, TopH) else sign_of(v), None)


@npf("logical_not")
def _(I, x, **k):
    return map_unary(I, x, lambda v: v if isinstance(v, (TopH, Unknown)) else not I.truth(v), "bool")


@npf("invert", "bitwise_not")
def _(I, x, **k):
    from . import models
    r = models.vec_unop(I, "Invert", x)
    return r if r is not None else I.unop_scalar("Invert", x)


@npf("floor", "ceil", "rint", "trunc")
def _(I, x, **k):
    return Unknown("rounding")


@npf("round", "around")
def _(I, x, decimals=0, **k):
    return map_unary(I, x, lambda q: q if isnull(q) or isinstance(q, TopH) else fn_round(q, decimals), None)


def obj_operand(x):
    return isinstance(x, Inst)


def bcast(I, sym, a, b):
    """binary ufunc through the operator models"""
    if isinstance(a, (PyList, tuple)):
        a = asarr(I, a)
    if isinstance(b, (PyList, tuple)):
        b = asarr(I, b)
    if isinstance(a, Inst) or isinstance(b, Inst):
        return I.binop(sym, a, b) if sym in ("+", "-", "*", "/", "&", "|", "^", "**", "//", "%") else I.compare(sym, a, b)
    if sym in ("<", "<=", ">", ">=", "==", "!="):
        if is_vec(a) or is_vec(b):
            if isinstance(a, Ser) and isinstance(b, Ser) and not same_index(I, a.idx, b.idx):
                idx, va, vb = align(I, a, b)
                a, b = Ser(idx, cells(va), a.dtype), Ser(idx, cells(vb), b.dtype)
            return I.compare(sym, a, b)
        return I.scalar_compare(sym, a, b)
    if is_vec(a) or is_vec(b):
        return vec_binop(I, sym, a, b)
    return I.scalar_binop(sym, a, b, True)


for _n, _s in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("power", "**"), ("floor_divide", "//"),
               ("mod", "%"), ("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">="),
               ("equal", "=="), ("not_equal", "!="), ("bitwise_and", "&"), ("bitwise_or", "|"), ("bitwise_xor", "^")):
    def _mk2(s):
        def f(I, a, b, out=None, where=True, **k):
            if where is not True or out is not None:
                return Unknown("ufunc where/out")
            return bcast(I, s, a, b)
        return f
    npf(_n)(_mk2(_s))
NP["true_divide"] = NP["divide"]
NP["remainder"] = NP["mod"]
NP["float_power"] = NP["power"]


def zipmap(I, a, b, f, dtype):
    """binary elementwise function on containers (numpy broadcasting / series alignment)"""
    if isinstance(a, (PyList, tuple)):
        a = asarr(I, a)
    if isinstance(b, (PyList, tuple)):
        b = asarr(I, b)
    if isinstance(a, Ser) and isinstance(b, Ser):
        idx, va, vb = align(I, a, b)
        return Ser(idx, cells([hmap(f, x, y) for x, y in zip(va, vb)]), dtype or np_common(a.dtype, b.dtype), a.name if a.name == b.name else None)
    if isinstance(a, Ser) or isinstance(b, Ser):
        s = a if isinstance(a, Ser) else b
        r = zipmap(I, Arr(a.cells, a.dtype) if isinstance(a, Ser) else a, Arr(b.cells, b.dtype) if isinstance(b, Ser) else b, f, dtype)
        return Ser(s.idx, r.cells, r.dtype, s.name)
    if isinstance(a, Idx):
        a = idx_values(a)
    if isinstance(b, Idx):
        b = idx_values(b)
    if isinstance(a, Arr2) or isinstance(b, Arr2):
        m = a if isinstance(a, Arr2) else b
        rows = [zipmap(I, row_of(a, i), row_of(b, i), f, dtype) for i in range(len(m.rows))]
        return Arr2([r.cells for r in rows], rows[0].dtype if rows else dtype or "float")
    if isinstance(a, Arr) and isinstance(b, Arr):
        p = pairup(a.vals, b.vals)
        if p is None:
            if len(b.cells) == 1:
                p = [(x, b.vals[0]) for x in a.vals]
            elif len(a.cells) == 1:
                p = [(a.vals[0], y) for y in b.vals]
            else:
                raise_("ValueError", "operands could not be broadcast together")
        d = dtype or np_common(a.dtype, b.dtype)
        return Arr(cells([hmap(f, x, y) for x, y in p]), d)
    if isinstance(a, Arr):
        return Arr(cells([hmap(lambda x: f(x, b), x) for x in a.vals]), dtype or np_common(a.dtype, dt_of(I, b)))
    if isinstance(b, Arr):
        return Arr(cells([hmap(lambda y: f(a, y), y) for y in b.vals]), dtype or np_common(dt_of(I, a), b.dtype))
    return f(a, b)


def _logical(op):
    def f(I, a, b, out=None, where=True, **k):
        if where is not True or out is not None:
            return Unknown("ufunc where/out")
        if isinstance(a, Inst) or isinstance(b, Inst):
            raise U("logical ufunc on objects")

        def g(x, y):
            if isinstance(x, (TopH, Unknown)):
                return x
            if isinstance(y, (TopH, Unknown)):
                return y
            return op(I.truth(x), I.truth(y))
        return zipmap(I, a, b, g, "bool")
    return f


npf("logical_and")(_logical(lambda x, y: x and y))
npf("logical_or")(_logical(lambda x, y: x or y))
npf("logical_xor")(_logical(lambda x, y: x != y))


def _ext2(big, ign):
    def f(I, a, b, **k):
        def g(x, y):
            if isinstance(x, TopH) or isinstance(y, TopH):
                return TOPH
            if isinstance(x, Unknown) or isinstance(y, Unknown):
                return x if isinstance(x, Unknown) else y
            nx, ny = isnull(x), isnull(y)
            if nx or ny:
                if ign:
                    return y if nx else x
                return NAN
            c = lcmp(I, x, y)
            return x if (c >= 0) == big or c == 0 else y
        return zipmap(I, a, b, g, None)
    return f


npf("maximum")(_ext2(True, False))
npf("minimum")(_ext2(False, False))
npf("fmax")(_ext2(True, True))
npf("fmin")(_ext2(False, True))


def close(I, x, y, rel, absolute, nan_eq, symmetric=False):
    """|x - y| within a tolerance, decided exactly (as reals)"""
    for v in (x, y, rel, absolute):
        if isinstance(v, (TopH, Unknown)):
            return v
    nx, ny = is_nan(x), is_nan(y)
    if nx or ny:
        return bool(nan_eq and nx and ny)
    if isnull(x) or isnull(y) or not (is_number(x) and is_number(y)):
        raise_("TypeError", "ufunc 'isfinite' not supported for the input types")
    if is_inf(x) or is_inf(y):
        return bool(is_inf(x) and is_inf(y) and (x > 0) == (y > 0))
    rel, absolute = tol(rel), tol(absolute)
    if rel is None or absolute is None:
        return Unknown("symbolic tolerance")
    x, y = to_num(x), to_num(y)
    if sign_of(nsub(x, y)) == 0:
        return True
    d = to_num(abs_(I, nsub(x, y)))
    scaled = [nmul(rel, to_num(abs_(I, v))) for v in ((x, y) if symmetric else (y,))]
    bounds = [absolute] + scaled if symmetric else [nadd(absolute, scaled[0])]
    return any(sign_of(nsub(d, q)) <= 0 for q in bounds)


def tol(v):
    if isinstance(v, Num):
        return v if v.is_const() else None
    return to_num(Fraction(repr(v) if isinstance(v, float) else v))


@npf("isclose")
def _(I, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return zipmap(I, a, b, lambda x, y: close(I, x, y, rtol, atol, equal_nan), "bool")


@npf("allclose")
def _(I, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = zipmap(I, a, b, lambda x, y: close(I, x, y, rtol, atol, equal_nan), "bool")
    return r if isinstance(r, (bool, Unknown)) else red_all(I, flat(I, r).vals)


@npf("array_equal")
def _(I, a, b, equal_nan=False):
    a, b = flat(I, a), flat(I, b)
    if pairup(a.vals, b.vals) is None:
        return False
    return red_all(I, elementwise(I, "==", a.vals, b.vals, a.dtype, b.dtype))


def arr2_binop(I, sym, a, b):
    cmp = sym in ("<", "<=", ">", ">=", "==", "!=")

    def one(x, y):
        return I.compare(sym, x, y) if cmp else vec_binop(I, sym, x, y)
    m = a if isinstance(a, Arr2) else b
    if isinstance(a, Arr2) and isinstance(b, Arr2):
        n = max(len(a.rows), len(b.rows))
    else:
        n = len(m.rows)
    if isinstance(a, Inst) or isinstance(b, Inst):
        return Unknown("object arithmetic")
    rows = [one(row_of(a, i), row_of(b, i)) for i in range(n)]
    for r in rows:
        if isinstance(r, Unknown):
            return r
    return Arr2([r.cells for r in rows], rows[0].dtype if rows else m.dtype)


def ufunc_attr(I, fn, name):
    if name == "reduce":
        def red(I, arr, axis=0, dtype=None, initial=None, **k):
            if isinstance(arr, (PyList, tuple)) or isinstance(arr, (Arr, Ser)):
                items = I.iterate(arr)
            elif isinstance(arr, Arr2):
                items = [Arr(r, arr.dtype) for r in arr.rows]
            else:
                return Unknown("reduce")
            if axis not in (0, None):
                return Unknown("reduce axis")
            if any(isinstance(x, H) for x in items):
                if fn.name == "numpy.add":
                    return red_sum(I, items, "float", False)
                if fn.name == "numpy.logical_or":
                    return red_any(I, items)
                if fn.name == "numpy.logical_and":
                    return red_all(I, items)
                raise U("reduce over a run")
            if isinstance(arr, (PyList, tuple)):
                items = [asarr(I, x) if is_listlike(x) and not isinstance(x, Inst) else x for x in items]
            if not items:
                ident = {"numpy.add": 0, "numpy.multiply": 1, "numpy.logical_or": False, "numpy.logical_and": True, "numpy.logical_xor": False}
                if fn.name in ident:
                    return ident[fn.name]
                raise_("ValueError", "zero-size array to reduction operation which has no identity")
            acc = items[0]
            if len(items) == 1 and fn.name.startswith("numpy.logical"):
                return map_unary(I, acc, lambda v: v if isinstance(v, TopH) else I.truth(v), "bool")
            for x in items[1:]:
                acc = I.call(fn, [acc, x], {})
            return acc
        return ExtFunc(fn.name + ".reduce", red)
    if name == "outer":
        def outer(I, a, b, **k):
            a, b = flat(I, a), flat(I, b)
            rows = []
            d = None
            for x in a.vals:
                if isinstance(x, H):
                    raise U("outer product over a run")
                r = I.call(fn, [x, b], {})
                rows.append(r.cells)
                d = r.dtype
            return Arr2(rows, d or "float")
        return ExtFunc(fn.name + ".outer", outer)
    if name == "accumulate":
        def acc(I, a, **k):
            if fn.name == "numpy.add":
                return NP["cumsum"].fn(I, a)
            a = flat(I, a)
            if anyH(a.vals):
                raise U("accumulate over a run")
            out = []
            for v in a.vals:
                out.append(v if not out else I.call(fn, [out[-1], v], {}))
            return Arr(cells(out), a.dtype)
        return ExtFunc(fn.name + ".accumulate", acc)
    if name == "at":
        return Unknown("ufunc.at")
    return None


# ---------------------------------------------------------------- reductions

def _reduce(name, f):
    def g(I, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if isinstance(a, (Ser,)) :
            if name in ("nansum", "nanmean", "nanmin", "nanmax", "nanmedian"):
                return I.call(SER[name[3:]], [a], {})
            if name in SER and name not in ("median",):
                if name in ("var", "std"):
                    return I.call(SER[name], [a], {"ddof": k.get("ddof", 0)})
                return I.call(SER[name], [a], {})
        if isinstance(a, DF):
            return Unknown("reduction of a frame")
        a = asarr(I, a)
        if isinstance(a, Arr2):
            if axis is None:
                return f(I, [c.v for r in a.rows for c in r], a.dtype, k)
            if axis in (1, -1):
                out = [f(I, [c.v for c in r], a.dtype, k) for r in a.rows]
            elif axis == 0:
                out = []
                for j in range(len(a.rows[0]) if a.rows else 0):
                    colv = [r[j].v for r in a.rows]
                    out.append(hmap(lambda *q: f(I, list(q), a.dtype, k), *colv))
            else:
                return Unknown("axis")
            d = "bool" if name in ("any", "all") else ("float" if name in ("mean", "nanmean", "median", "std", "var", "nanmedian") else a.dtype)
            return Arr(cells(out), d)
        if not isinstance(a, Arr):
            a = Arr(cells([a]), scalar_dtype(a))
        return f(I, a.vals, a.dtype, k)
    return g


def _npsum(I, vals, dtype, k):
    if dtype == "object":
        if any(isinstance(v, H) for v in vals):
            raise U("object sum over a run")
        if not vals:
            return 0
        acc = vals[0]
        for v in vals[1:]:
            acc = I.binop("+", acc, v)
        return acc
    return red_sum(I, vals, dtype, False)


npf("sum")(_reduce("sum", _npsum))
npf("nansum")(_reduce("nansum", lambda I, v, d, k: red_sum(I, v, d, True)))
npf("mean")(_reduce("mean", lambda I, v, d, k: red_mean(I, v, d, False)))
npf("nanmean")(_reduce("nanmean", lambda I, v, d, k: red_mean(I, v, d, True)))
npf("median")(_reduce("median", lambda I, v, d, k: red_median(I, v, False)))
npf("nanmedian")(_reduce("nanmedian", lambda I, v, d, k: red_median(I, v, True)))
npf("max", "amax")(_reduce("max", lambda I, v, d, k: outnum(red_ext(I, v, True, False, True), d, False)))
npf("min", "amin")(_reduce("min", lambda I, v, d, k: outnum(red_ext(I, v, False, False, True), d, False)))
npf("nanmax")(_reduce("nanmax", lambda I, v, d, k: outnum(red_ext(I, v, True, True, not v), d, False)))
npf("nanmin")(_reduce("nanmin", lambda I, v, d, k: outnum(red_ext(I, v, False, True, not v), d, False)))
npf("any")(_reduce("any", lambda I, v, d, k: np_any(I, v)))
npf("all")(_reduce("all", lambda I, v, d, k: np_all(I, v)))
npf("var")(_reduce("var", lambda I, v, d, k: red_var(I, v, k.get("ddof", 0), False)))
npf("std")(_reduce("std", lambda I, v, d, k: _sd(red_var(I, v, k.get("ddof", 0), False))))
npf("nanvar")(_reduce("nanvar", lambda I, v, d, k: red_var(I, v, k.get("ddof", 0), True)))
npf("nanstd")(_reduce("nanstd", lambda I, v, d, k: _sd(red_var(I, v, k.get("ddof", 0), True))))


def _sd(v):
    return v if is_nan(v) else sqrt_(v)


def np_any(I, vals):
    """numpy truth: NaN counts as true"""
    undec = False
    for v in vals:
        g = hval(v)
        if isinstance(g, (TopH, Unknown)):
            undec = True
            continue
        if is_nan(g) or I.truth(g):
            return True
    if undec:
        raise U("any() over a summarised run")
    return False


def np_all(I, vals):
    undec = False
    for v in vals:
        g = hval(v)
        if isinstance(g, (TopH, Unknown)):
            undec = True
            continue
        if not is_nan(g) and not I.truth(g):
            return False
    if undec:
        raise U("all() over a summarised run")
    return True


@npf("prod")
def _(I, a, **k):
    a = flat(I, a)
    if anyH(a.vals):
        raise U("product over a run")
    r = 1
    for v in a.vals:
        r = I.scalar_binop("*", r, v)
    return r


@npf("dot", "inner", "vdot")
def _(I, a, b, **k):
    a, b = asarr(I, a), asarr(I, b)
    if isinstance(a, Arr2) or isinstance(b, Arr2):
        return Unknown("matrix product")
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return bcast(I, "*", a, b)
    p = pairup(a.vals, b.vals)
    if p is None:
        raise_("ValueError", "shapes not aligned")
    if ("m8" in (a.dtype, b.dtype)) and "object" not in (a.dtype, b.dtype):
        # numpy reads the counts of nanoseconds here
        raw = lambda v: Num(v.x.n, v.x.d, "np") if isinstance(v, Lab) else v
        p = [(hmap(raw, x), hmap(raw, y)) for x, y in p]
        return outnum(vsum(I, [hmap(lambda x, y: I.scalar_binop("*", x, y, True), x, y) for x, y in p]), "float", False)
    return outnum(vsum(I, [hmap(lambda x, y: I.scalar_binop("*", x, y, True), x, y) for x, y in p]), np_common(a.dtype, b.dtype), False)


@npf("average")
def _(I, a, axis=None, weights=None, **k):
    if axis is not None:
        return Unknown("average axis")
    a = flat(I, a)
    if weights is None:
        return red_mean(I, a.vals, a.dtype, False)
    w = flat(I, weights)
    p = pairup(a.vals, w.vals)
    if p is None:
        raise_("TypeError", "Length of weights not compatible")
    s = vsum(I, w.vals)
    if zero(s):
        raise_("ZeroDivisionError", "Weights sum to zero, can't be normalized")
    return I.scalar_binop("/", vsum(I, [hmap(lambda x, y: I.scalar_binop("*", x, y, True), x, y) for x, y in p]), s, True)


@npf("argmax")
def _(I, a, axis=None, **k):
    return _arg(I, a, True)


@npf("argmin")
def _(I, a, axis=None, **k):
    return _arg(I, a, False)


def _arg(I, a, big):
    a = flat(I, a)
    if anyH(a.vals):
        raise U("argmax over a run")
    if not a.cells:
        raise_("ValueError", "attempt to get argmax of an empty sequence")
    if a.dtype == "bool":
        b = bools(a.vals)
        return b.index(big) if big in b else 0
    for j, v in enumerate(a.vals):
        if isnull(v):
            return j
    return argext(I, a.vals, big)


@npf("clip")
def _(I, a, a_min=None, a_max=None, **k):
    r = a
    if a_min is not None:
        r = NP["maximum"].fn(I, r, a_min)
    if a_max is not None:
        r = NP["minimum"].fn(I, r, a_max)
    return r


@npf("nan_to_num")
def _(I, x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if isinstance(v, TopH):
            return v
        if is_nan(v):
            return nan
        if is_inf(v):
            r = posinf if v > 0 else neginf
            return r if r is not None else Unknown("largest float")
        return v
    return map_unary(I, x, f, None)


@npf("isin", "in1d")
def _(I, a, b, **k):
    vs = flat(I, b).vals
    return map_unary(I, a, lambda q: any(leq(I, q, w) for w in vs if not is_nan(hval(w))), "bool")


@npf("repeat")
def _(I, a, repeats, axis=None):
    a = flat(I, a)
    n = I.as_int(repeats)
    return Arr(cells([v for v in a.vals for _ in range(n)]), a.dtype)


@npf("tile")
def _(I, a, reps):
    a = flat(I, a)
    return Arr(cells(a.vals * I.as_int(reps)), a.dtype)


@npf("isscalar")
def _(I, x):
    return is_number(x) or isinstance(x, str)


@npf("ndim")
def _(I, x):
    x = asarr(I, x)
    return 2 if isinstance(x, Arr2) else 1 if isinstance(x, Arr) else 0


@npf("size")
def _(I, x, axis=None):
    x = asarr(I, x)
    return vlen(x.vals) if isinstance(x, Arr) else 1


@npf("insert")
def _(I, arr, obj, values, axis=None):
    a = flat(I, arr)
    b = flat(I, values)
    i = cut(a.vals, obj, 0)
    return _concat(I, [Arr(a.cells[:i], a.dtype), b, Arr(a.cells[i:], a.dtype)])


@npf("delete")
def _(I, arr, obj, axis=None):
    a = flat(I, arr)
    j, how = locate(a.vals, obj)
    if how == "last":
        raise U("member of a run")
    return Arr(cells([v for i, v in enumerate(a.vals) if i != j]), a.dtype)


@npf("vectorize")
def _(I, pyfunc, otypes=None, **k):
    def f(I, *args, **kw):
        if len(args) != 1 or kw:
            return Unknown("vectorize")
        x = args[0]
        if not is_listlike(x):
            return I.call(pyfunc, [x], {})
        a = flat(I, x)
        from .pdmeth import map_entries
        out = [hmap(lambda q: I.call(pyfunc, [q], {}), v) for v in a.vals]
        return Arr(cells(out), infer_dtype(out, True) if out else "float")
    return ExtFunc("numpy.vectorized", f)


@npf("apply_along_axis", "histogram", "interp", "percentile", "quantile", "cov", "corrcoef", "meshgrid", "digitize", "convolve",
     "reshape", "transpose", "squeeze", "expand_dims", "broadcast_to", "ix_", "select", "piecewise", "trapz", "fromiter", "gradient", "ediff1d")
def _(I, *a, **k):
    return Unknown("numpy function not modelled")


# ---------------------------------------------------------------- ndarray attributes

def arr_method(f):
    return lambda I, a: (lambda *x, **k: f(I, a, *x, **k))


ARR = {}


def am(*names):
    def d(f):
        for n in names:
            ARR[n] = ExtFunc(f"ndarray.{n}", f)
        return f
    return d


for _n in ("sum", "mean", "min", "max", "any", "all", "cumsum", "std", "var", "argmax", "argmin", "prod", "dot", "searchsorted", "nonzero", "argsort", "repeat", "clip", "round"):
    def _mkm(n):
        def f(I, a, *x, **k):
            return NP[n].fn(I, a, *x, **k)
        return f
    am(_n)(_mkm(_n))


@am("astype")
def _(I, a, dtype, copy=True, **k):
    d = parse_dtype(dtype)
    if isinstance(a, Arr2):
        return Arr2([cells(cast(I, [c.v for c in r], a.dtype, d)) for r in a.rows], d)
    return Arr(cells(cast(I, a.vals, a.dtype, d)), d)


@am("copy", "__copy__")
def _(I, a, order=None):
    return copyarr(a)


@am("view", "__array__")
def _(I, a, *x, **k):
    return a if not x else Unknown("ndarray.view")


@am("tolist")
def _(I, a):
    if isinstance(a, Arr2):
        return PyList([PyList([iter_scalar(c.v, a.dtype) for c in r]) for r in a.rows])
    return PyList([iter_scalar(v, a.dtype) for v in a.vals])


@am("flatten", "ravel")
def _(I, a, order=None):
    return copyarr(flat(I, a))


@am("reshape")
def _(I, a, *shape, **k):
    if isinstance(a, Arr) and shape in ((-1,), ((-1,),)):
        return a
    return Unknown("reshape")


@am("item")
def _(I, a, *i):
    vals = flat(I, a).vals
    if i:
        return iter_scalar(get_at(vals, i[0]), a.dtype)
    if len(vals) != 1 or anyH(vals):
        raise_("ValueError", "can only convert an array of size 1 to a Python scalar")
    return iter_scalar(vals[0], a.dtype)


@am("fill")
def _(I, a, value):
    I.touch(a)
    for c in flat(I, a).cells:
        c.v = H(c.v.hid, conv(value, a.dtype)) if isinstance(c.v, H) else conv(value, a.dtype)


@am("sort")
def _(I, a, **k):
    vs = sort_entries(I, a.vals)
    for c, v in zip(a.cells, vs):
        c.v = v


@am("take")
def _(I, a, indices, axis=None, **k):
    return arr_getitem(I, a, indices if is_listlike(indices) else indices)


@am("isnull")
def _(I, a):
    raise_("AttributeError", "isnull")


@am("transpose")
def _(I, a, *x):
    return arr_T(a)


def arr_getattr(I, a, name):
    if name == "shape":
        return (vlen(a.vals),) if isinstance(a, Arr) else (len(a.rows), len(a.rows[0]) if a.rows else 0)
    if name == "size":
        return vlen(a.vals) if isinstance(a, Arr) else len(a.rows) * (len(a.rows[0]) if a.rows else 0)
    if name == "ndim":
        return 1 if isinstance(a, Arr) else 2
    if name == "dtype":
        return DtypeObj(a.dtype)
    if name == "T":
        return arr_T(a)
    if name == "flat":
        return PyIter([out_scalar(v, a.dtype, False) for v in flat(I, a).vals])
    if name == "real":
        return a
    f = ARR.get(name)
    if f is not None:
        return Bound(f, a)
    if name not in ATTRS["ndarray"]:
        raise_("AttributeError", f"'numpy.ndarray' object has no attribute '{name}'")
    return Unknown(f"ndarray.{name}")


def arr_getitem(I, a, k):
    if isinstance(a, Arr2):
        return arr2_getitem(I, a, k)
    if isinstance(k, tuple):
        if len(k) == 1:
            return arr_getitem(I, a, k[0])
        if any(x is None for x in k):
            return Unknown("new axis")
        raise_("IndexError", "too many indices for array")
    if k is None:
        return Unknown("new axis")
    if isinstance(k, ExtFunc):
        return a
    if isinstance(k, PySlice):
        return Arr(a.cells[slice_entries(a.vals, k)], a.dtype)
    if is_boolvec(I, k):
        m = mask_vals(I, k, len(a.cells))
        return Arr(cells([v for v, t in zip(a.vals, m) if t]), a.dtype)
    if is_listlike(k):
        return Arr(cells([a.cells[j].v for j in pos_list(I, a.vals, k)]), a.dtype)
    if isinstance(k, bool):
        return Unknown("boolean scalar index")
    if not is_number(k) or scalar_dtype(k) != "int" and not isinstance(simp(k), int):
        raise_("IndexError", f"only integers, slices are valid indices ({k!r})")
    return out_scalar(get_at(a.vals, k), a.dtype, False)


def arr2_getitem(I, a, k):
    if not isinstance(k, tuple):
        if isinstance(k, PySlice):
            return Arr2(a.rows[I._pyslice(k)], a.dtype)
        if is_boolvec(I, k):
            m = mask_vals(I, k, len(a.rows))
            return Arr2([[Cell(c.v) for c in r] for r, t in zip(a.rows, m) if t], a.dtype)
        if is_listlike(k):
            return Arr2([[Cell(c.v) for c in a.rows[I.as_int(j)]] for j in I.iterate(k)], a.dtype)
        i = I.as_int(k)
        if not -len(a.rows) <= i < len(a.rows):
            raise_("IndexError", "index out of bounds")
        return Arr(a.rows[i], a.dtype)
    r, c = k
    if isinstance(r, PySlice):
        rows = a.rows[I._pyslice(r)]
        if isinstance(c, PySlice):
            return Arr2([q[I._pyslice(c)] for q in rows], a.dtype)
        if is_listlike(c):
            return Unknown("fancy column index")
        j = I.as_int(c)
        return Arr([q[j] for q in rows], a.dtype)
    if is_listlike(r) or is_listlike(c):
        return Unknown("fancy index")
    row = arr2_getitem(I, a, r)
    return arr_getitem(I, row, c)


def arr_setitem(I, a, k, v):
    I.touch(a)
    if isinstance(a, Arr2):
        return arr2_setitem(I, a, k, v)
    if isinstance(k, tuple) and len(k) == 1:
        k = k[0]
    if isinstance(k, ExtFunc) or (isinstance(k, PySlice)):
        js = list(range(len(a.cells)))[slice_entries(a.vals, k)] if isinstance(k, PySlice) else list(range(len(a.cells)))
    elif is_boolvec(I, k):
        m = mask_vals(I, k, len(a.cells))
        js = [j for j, t in enumerate(m) if t]
    elif is_listlike(k):
        js = pos_list(I, a.vals, k)
    else:
        j, how = locate(a.vals, k)
        if how == "last":
            raise U("write to a member of a run")
        js = [j]
        if is_listlike(v) and not (isinstance(v, Inst)) and a.dtype != "object":
            raise_("ValueError", "setting an array element with a sequence.")
        v_ = [v]
        return _put(I, a, js, v_)
    if is_listlike(v) and not (isinstance(v, Inst) and not v.cls.lookup("__len__")):
        vs = asarr(I, v)
        vs = vs.vals if isinstance(vs, Arr) else entries(I, v)[0]
        if len(vs) == 1 and not anyH(vs):
            vs = vs * len(js)
        if len(vs) != len(js):
            raise_("ValueError", "could not broadcast input array")
    else:
        vs = [v] * len(js)
    _put(I, a, js, vs)


def _put(I, a, js, vs):
    for j, v in zip(js, vs):
        g = hval(v)
        if a.dtype in ("int",) and (is_nan(g) or is_inf(g)):
            raise_("ValueError", "cannot convert float NaN to integer")
        if a.dtype == "bool" and is_number(g) and not isinstance(g, bool):
            v = hmap(lambda q: True if is_nan(q) else I.truth(q), v)
        elif a.dtype == "int" and isinstance(g, Num) and g.fl not in ("pyi", "npi") and not g.is_const():
            v = hmap(lambda q: fn_atom("int", q), v)
        elif a.dtype in ("float", "int") and not is_number(g) and not isinstance(g, (TopH, Unknown)) and g is not None:
            raise_("TypeError", "float() argument must be a string or a real number")
        old = a.cells[j].v
        v = hmap(lambda q: conv(q, a.dtype), v)
        if isinstance(old, H) and not isinstance(v, H):
            v = H(old.hid, v)
        a.cells[j].v = v


def arr2_setitem(I, a, k, v):
    if isinstance(k, tuple) and len(k) == 2:
        r, c = k
        if isinstance(r, PySlice):
            rows = a.rows[I._pyslice(r)]
            if not isinstance(c, PySlice) and not is_listlike(c):
                j = I.as_int(c)
                vs = I.iterate(v) if is_listlike(v) else [v] * len(rows)
                for q, x in zip(rows, vs):
                    q[j].v = conv(x, a.dtype)
                return
            raise U("block assignment")
        row = arr2_getitem(I, a, r)
        return arr_setitem(I, row, c, v)
    if isinstance(k, Arr2):
        for r, m in zip(a.rows, k.rows):
            for c, t in zip(r, m):
                if bools([t.v])[0]:
                    if is_listlike(v):
                        raise U("masked block assignment")
                    c.v = H(c.v.hid, conv(v, a.dtype)) if isinstance(c.v, H) else conv(v, a.dtype)
        return
    row = arr2_getitem(I, a, k)
    if isinstance(row, Arr):
        return arr_setitem(I, row, PySlice(None, None, None), v)
    raise U("block assignment")

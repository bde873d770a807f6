"""Abstract models of the pandas operations (Series, Index, DataFrame)."""
from . import ctx as C
from .vec import *
from .ctx import Undecided, HoleDecision
from .terms import Num, atom, nadd, nsub, num
from .values import *

U = Undecided
SER = {}
IDX = {}
FRAME = {}


def deco(table):
    def reg(*names):
        def d(f):
            for n in names:
                table[n] = ExtFunc(f"pandas.{n}", f)
            return f
        return d
    return reg


ser, idxm, frm = deco(SER), deco(IDX), deco(FRAME)


def alias(table, a, b):
    table[a] = table[b]


# ---------------------------------------------------------------- building

def range_index(vals):
    if any(isinstance(v, H) for v in vals):
        # positions of a run: not tracked, but same run -> same positions
        pre = nprefix(vals)
        out = []
        for p, v in zip(pre, vals):
            out.append(H(v.hid, atom("pos@" + v.hid, "npi")) if isinstance(v, H) else (p if isinstance(p, int) else Num(p.n, p.d, "npi")))
        for j, v in enumerate(vals):
            if isinstance(v, H):
                C.cur().hole_bounds["pos@" + v.hid] = (to_num(pre[j]), nsub(to_num(pre[j + 1]), num(1)))
        return Idx(out, "int")
    return Idx(range(len(vals)), "int")


def entries(I, x):
    """any array-like -> (entries, dtype or None)"""
    if isinstance(x, (Arr, Ser)):
        if isinstance(x, Ser) and x.ext is not None:
            return entries(I, x.ext)
        return x.vals, x.dtype
    if isinstance(x, Idx):
        return list(x.vals), x.dtype
    if isinstance(x, (tuple, PyList)):
        return list(x if isinstance(x, tuple) else x.v), None
    if isinstance(x, (PyIter, PySet)):
        return I.iterate(x), None
    if isinstance(x, PyDict):
        return [v for _, v in x.d.values()], None
    if isinstance(x, Inst):
        return I.iterate(x), None
    if isinstance(x, Unknown):
        raise U(x.reason)
    raise U(f"array from {x!r}")


def is_listlike(v):
    if isinstance(v, Inst):
        return v.cls.lookup("__iter__") is not None or (v.cls.lookup("__getitem__") is not None and v.cls.lookup("__len__") is not None)
    return is_vec(v) or isinstance(v, (tuple, PyList, PyDict, PySet, PyIter))


def mk_index(I, x, name=None):
    if isinstance(x, Idx):
        return x if name is None else Idx(x.vals, x.dtype, name, x.tz, x.closed)
    if isinstance(x, Ser):
        nm = x.name if name is None else name
        vals, dt = x.vals, x.dtype
        if dt == "object":
            dt = infer_dtype(vals)
        return Idx(vals, dt, nm)
    vals, dt = entries(I, x)
    vals = [v if not (v is None) else v for v in vals]
    if dt is None or dt == "object":
        dt = infer_dtype(vals)
    if dt in ("float", "M8", "m8"):
        vals = [conv(v, dt) for v in vals]
    closed = None
    if dt == "interval" and vals:
        closed = hval(vals[0]).closed
    return Idx(vals, dt, name, None, closed)


def mk_series(I, data=None, index=None, dtype=None, name=None, copy=None, fastpath=None):
    dt = parse_dtype(dtype)
    if isinstance(dt, Inst) or (isinstance(dt, str) and dt in getattr(I, "ext_dtypes", {})):
        return ext_series(I, data, index, dt, name)
    idx = mk_index(I, index) if index is not None else None
    if isinstance(data, Inst) and I_is_extarray(I, data):
        vals = I.iterate(data)
        s = Ser(idx if idx is not None else range_index(vals), cells(vals), "ext", name)
        s.ext = data
        return s
    if data is None:
        if idx is None:
            return Ser(Idx([], "object" if False else "int"), [], dt or "object", name)
        return Ser(idx, cells([NAN] * len(idx.vals)), dt or "float", name)
    if isinstance(data, PyDict):
        keys = [k for k, _ in data.d.values()]
        vals = [v for _, v in data.d.values()]
        d = dt or infer_dtype(vals)
        s = Ser(mk_index(I, PyList(keys)), cells([conv(v, d) for v in vals]), d, name)
        if idx is not None:
            s = reindex(I, s, idx)
            s.name = name
        return s
    if isinstance(data, Ser):
        if data.ext is not None:
            s = Ser(idx or data.idx, data.cells, "ext", name if name is not None else data.name)
            s.ext = data.ext
            return s
        nm = name if name is not None else data.name
        if idx is not None and not same_index(I, idx, data.idx):
            s = reindex(I, data, idx)
            s.name = nm
        else:
            s = Ser(data.idx if idx is None else idx, cells(data.vals) if I.truth(copy or False) else data.cells, data.dtype, nm)
        if dt and dt != s.dtype:
            s = Ser(s.idx, cells(cast(I, s.vals, s.dtype, dt)), dt, nm)
        return s
    if isinstance(data, Arr2):
        raise_("ValueError", "Data must be 1-dimensional")
    if is_listlike(data):
        vals, d0 = entries(I, data)
        if d0 is None:
            vals = list(vals)
            d0 = infer_dtype(vals)
            if not vals:
                d0 = "object"
            cs = None
        else:
            if d0 == "object" and dt is None:
                d1 = infer_dtype(vals)
                if d1 in ("M8", "m8") or (d1 == "interval"):
                    d0 = d1
            cs = data.cells if isinstance(data, Arr) and not I.truth(copy or False) and d0 == data.dtype else None
        if idx is not None and len(idx.vals) != len(vals):
            if len(vals) == 1 and not isinstance(vals[0], H) and False:
                pass
            if any(isinstance(v, H) for v in list(idx.vals) + vals):
                raise U("lengths with summarised runs")
            raise_("ValueError", f"Length of values ({len(vals)}) does not match length of index ({len(idx.vals)})")
        if idx is not None:
            pairup(vals, idx.vals)
        d = dt or d0
        if d != d0:
            vals = cast(I, vals, d0, d) if d0 != "object" or d != "float" else [NAN if isnull(v) is True else hmap(lambda q: conv(q, d), v) for v in vals]
            cs = None
        if cs is None:
            cs = cells([conv(v, d) for v in vals])
        return Ser(idx if idx is not None else range_index(vals), cs, d, name)
    # scalar
    if idx is None:
        idx = Idx([0], "int")
    d = dt or scalar_dtype(data) if not is_nan(data) else (dt or "float")
    if data is None or data is NA:
        d = dt or "float"
        data = NAN
    v = cast(I, [data], scalar_dtype(data), d)[0] if dt and dt != scalar_dtype(data) else data
    return Ser(idx, cells([H(e.hid, conv(v, d)) if isinstance(e, H) else conv(v, d) for e in idx.vals]), d, name)


def I_is_extarray(I, v):
    return isinstance(v, Inst) and any(k.name.endswith("ExtensionArray") for k in v.cls.ext_bases())


def ext_series(I, data, index, dt, name):
    if isinstance(dt, str):
        dt = I.call(I.ext_dtypes[dt], [], {})
    acls = I.call(I.getattr(dt, "construct_array_type"), [], {})
    idx = mk_index(I, index) if index is not None else None
    if isinstance(data, PyDict):
        keys = [k for k, _ in data.d.values()]
        data = PyList([v for _, v in data.d.values()])
        idx = idx or mk_index(I, PyList(keys))
    elif isinstance(data, Ser):
        idx = idx or data.idx
        name = name if name is not None else data.name
        data = data.ext if data.ext is not None else Arr(data.cells, data.dtype)
    if I_is_extarray(I, data):
        arr = data
    else:
        arr = I.call(I.getattr(acls, "_from_sequence"), [data], {"dtype": dt, "copy": False})
    vals = I.iterate(arr)
    s = Ser(idx or range_index(vals), cells(vals), "ext", name)
    s.ext = arr
    return s


def new(s, vals, dtype=None, idx=None, name=Ellipsis):
    return Ser(idx if idx is not None else s.idx, cells(vals), dtype or s.dtype, s.name if name is Ellipsis else name)


# ---------------------------------------------------------------- elementwise

NUMD = ("float", "int", "bool")


def arith_dtype(sym, a, b):
    if "object" in (a, b) or "ext" in (a, b):
        return "object"
    if a in NUMD and b in NUMD:
        if sym == "/":
            return "float"
        if a == b == "bool":
            if sym == "-":
                raise_("TypeError", "numpy boolean subtract is not supported")
            return "bool" if sym in "+*" else "int"
        if "float" in (a, b):
            return "float"
        return "int"
    if a == "m8" and b == "m8":
        return {"+": "m8", "-": "m8", "/": "float", "//": "int", "%": "m8"}.get(sym, "object")
    if sym == "-" and a == b == "M8":
        return "m8"
    if sym in "+-" and a == "M8" and b == "m8" or (sym == "+" and a == "m8" and b == "M8"):
        return "M8"
    if a == "m8" and b in NUMD and sym in "*/" or (b == "m8" and a in NUMD and sym == "*"):
        return "m8"
    if a in NUMD and b in ("M8", "m8") or b in NUMD and a in ("M8", "m8"):
        return None     # all-NaN operands may still be fine
    raise_("TypeError", f"unsupported operand dtypes for {sym}: {a} and {b}")


def ew1(I, sym, da, db):
    if sym in ("&", "|", "^"):
        def f(x, y):
            if isinstance(x, TopH) or isinstance(y, TopH):
                return TOPH
            if isinstance(x, bool) and isinstance(y, bool):
                return {"&": x and y, "|": x or y, "^": x != y}[sym]
            if is_nan(x) or is_nan(y) or x is None or y is None:
                if "object" in (da, db):
                    return False
                raise_("TypeError", f"unsupported operand type(s) for {sym}: 'float' and 'bool'")
            if isinstance(x, (Num, float)) and not (isinstance(x, Num) and x.fl in ("npi", "pyi")):
                raise_("TypeError", f"ufunc for {sym} not supported for float")
            if isinstance(y, (Num, float)) and not (isinstance(y, Num) and y.fl in ("npi", "pyi")):
                raise_("TypeError", f"ufunc for {sym} not supported for float")
            if isinstance(x, Num) or isinstance(y, Num):
                if isinstance(x, Num) and x.is_const():
                    x = int(x.const())
                if isinstance(y, Num) and y.is_const():
                    y = int(y.const())
            return I.scalar_binop(sym, x, y, True)
        return f
    if sym in ("<", "<=", ">", ">=", "==", "!="):
        def f(x, y):
            if isinstance(x, TopH) or isinstance(y, TopH):
                return TOPH
            if x is None or y is None:
                return sym == "!="
            if isinstance(x, Lab) and isinstance(y, Lab) and (x.flav == "np" or y.flav == "np") and x.kind == y.kind:
                if (x.tz is None) == (y.tz is None) or "M8" not in (da, db):
                    return num_cmp(sym, x.x, y.x)
            r = I.compare(sym, x, y)
            return r
        return f

    def f(x, y):
        if isinstance(x, TopH) or isinstance(y, TopH):
            return TOPH
        if da == db == "bool" and sym in "+*":
            return (x or y) if sym == "+" else (x and y)
        if is_nan(x) or is_nan(y):
            return NAN
        if x is None or y is None:
            raise_("TypeError", f"unsupported operand for {sym}: NoneType")
        if isinstance(x, Lab) and isinstance(y, Lab) and x.kind == y.kind == "ts" and (x.tz is None) != (y.tz is None) and "np" in (x.flav, y.flav) and sym == "-":
            raise_("TypeError", "Cannot subtract tz-naive and tz-aware datetime-like objects")
        return I.scalar_binop(sym, x, y, True)
    return f


def dt_of(I, x):
    if isinstance(x, (Arr, Ser, Idx)):
        return x.dtype
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    return scalar_dtype(x)


def elementwise(I, sym, a, b, da, db):
    """a, b entry lists or ('scalar', v)"""
    f = ew1(I, sym, da, db)
    if isinstance(a, list) and isinstance(b, list):
        p = pairup(a, b)
        if p is None:
            if len(b) == 1:
                return [hmap(f, x, b[0]) for x in a]
            if len(a) == 1:
                return [hmap(f, a[0], y) for y in b]
            raise_("ValueError", f"operands could not be broadcast together with shapes ({len(a)},) ({len(b)},)")
        return [hmap(f, x, y) for x, y in p]
    if isinstance(a, list):
        return [hmap(f, x, b[1]) for x in a]
    return [hmap(f, a[1], y) for y in b]


def binop_dtype(sym, da, db, vals):
    if sym in ("<", "<=", ">", ">=", "==", "!="):
        return "bool"
    if sym in ("&", "|", "^"):
        if da == db == "int" or ("int" in (da, db) and "float" not in (da, db) and "object" not in (da, db) and "bool" not in (da, db)):
            return "int"
        return "bool"
    d = arith_dtype(sym, da, db)
    if d is None:
        for v in vals:
            if not (hval(v) is not None and is_nan(hval(v))):
                raise_("TypeError", f"unsupported operand dtypes for {sym}: {da} and {db}")
        d = "m8" if "m8" in (da, db) else "M8"
    if d == "object" and vals:
        pass
    return d


def as_operand(I, x):
    if isinstance(x, (Arr, Ser, Idx)):
        return list(x.vals), x.dtype
    if isinstance(x, (PyList, tuple)):
        vals, _ = entries(I, x)
        return vals, infer_dtype(vals, True)
    if isinstance(x, PyIter):
        raise U("operand iterator")
    return ("scalar", x), dt_of(I, x)


def align(I, a, b):
    """outer alignment of two series -> (idx, entries a, entries b)"""
    if same_index(I, a.idx, b.idx):
        return a.idx, a.vals, b.vals
    idx = union(I, a.idx, b.idx)
    return idx, reindex(I, a, idx).vals, reindex(I, b, idx).vals


def ser_binop(I, sym, a, b, fill=None, flip=False, flex=False):
    """Series op anything (or reflected)"""
    if flex and is0d(b):
        raise_("TypeError", "len() of unsized object")
    name = a.name
    if isinstance(b, Ser):
        if a.ext is not None or b.ext is not None:
            raise U("extension series arithmetic")
        if sym in ("<", "<=", ">", ">=", "==", "!=") and not flex and not same_index(I, a.idx, b.idx):
            raise_("ValueError", "Can only compare identically-labeled Series objects")
        idx, va, vb = align(I, a, b)
        da, db = a.dtype, b.dtype
        if idx is not a.idx:
            da = "float" if da in ("int",) and any(is_nan(hval(v)) for v in va) else ("object" if da == "bool" and any(is_nan(hval(v)) for v in va) else da)
            db = "float" if db in ("int",) and any(is_nan(hval(v)) for v in vb) else ("object" if db == "bool" and any(is_nan(hval(v)) for v in vb) else db)
        name = a.name if a.name == b.name else None
    else:
        if a.ext is not None:
            f = I.compare if sym in SWAP else I.binop
            r = f(sym, a.ext, b) if not flip else f(sym, b, a.ext)
            return r if isinstance(r, Unknown) else ext_wrap(I, a, r)
        idx, va, da = a.idx, a.vals, a.dtype
        vb, db = as_operand(I, b)
        if isinstance(b, (Arr, Idx, PyList, tuple)):
            if len(vb) != len(va) and not (any(isinstance(v, H) for v in va + vb)):
                raise_("ValueError", f"Lengths must match: {len(va)} vs {len(vb)}")
        elif isinstance(b, (PyDict, str)) and sym not in ("==", "!="):
            raise_("TypeError", "unsupported operand")
    if fill is not None and isinstance(vb, list):
        na, nb = [], []
        for x, y in pairup(va, vb):
            mx, my = isnull(x), isnull(y)
            mx, my = hval(mx), hval(my)
            if isinstance(mx, TopH) or isinstance(my, TopH):
                na.append(x)
                nb.append(y)
                continue
            na.append((H(x.hid, fill) if isinstance(x, H) else fill) if mx and not my else x)
            nb.append((H(y.hid, fill) if isinstance(y, H) else fill) if my and not mx else y)
        va, vb = na, nb
    elif fill is not None:
        va = [(H(x.hid, fill) if isinstance(x, H) else fill) if hval(isnull(x)) is True else x for x in va]
    if flip:
        vals = elementwise(I, sym, vb, va, db, da)
        d = binop_dtype(sym, db, da, vals)
    else:
        vals = elementwise(I, sym, va, vb, da, db)
        d = binop_dtype(sym, da, db, vals)
    return Ser(idx, cells(vals), d, name)


def ext_wrap(I, s, arr):
    r = Ser(s.idx, cells(I.iterate(arr)), "ext", s.name)
    r.ext = arr
    return r


def vec_binop(I, sym, a, b):
    if isinstance(a, DF) or isinstance(b, DF):
        d, o = (a, b) if isinstance(a, DF) else (b, a)
        if isinstance(o, (DF, Ser, Arr, Idx, PyList)):
            if isinstance(o, DF) and list(o.cols) == list(d.cols) and same_index(I, o.idx, d.idx):
                out = {}
                for c in a.cols:
                    r = ser_binop(I, sym, col(a, c), col(b, c))
                    out[c] = (r.cells, r.dtype)
                return DF(d.idx, out)
            return Unknown("frame arithmetic")
        out = {}
        for c in d.cols:
            r = ser_binop(I, sym, col(d, c), o, flip=d is b)
            out[c] = (r.cells, r.dtype)
        return DF(d.idx, out)
    if isinstance(a, Ser):
        return ser_binop(I, sym, a, b)
    if isinstance(b, Ser):
        return ser_binop(I, sym, b, a, flip=True)
    if isinstance(a, Arr2) or isinstance(b, Arr2):
        from . import npm
        return npm.arr2_binop(I, sym, a, b)
    if isinstance(a, (Arr, Idx)) or isinstance(b, (Arr, Idx)):
        for o in (a, b):
            if isinstance(o, (str, PyDict)) or o is None:
                raise_("TypeError", f"unsupported operand for {sym}")
        va, da = as_operand(I, a)
        vb, db = as_operand(I, b)
        vals = elementwise(I, sym, va, vb, da, db)
        d = binop_dtype(sym, da, db, vals)
        if d in NUMD and d != "bool":
            vals = [conv(v, d) for v in vals]
        if isinstance(a, Idx) or isinstance(b, Idx):
            if sym in "&|^":
                return Arr(cells(vals), d)
            src = a if isinstance(a, Idx) else b
            return Idx(vals, d, src.name)
        return Arr(cells(vals), d)
    return None


def vec_compare(I, op, a, b):
    if isinstance(a, DF) or isinstance(b, DF):
        return vec_binop(I, op, a, b)
    if isinstance(a, Ser):
        return ser_binop(I, op, a, b)
    if isinstance(b, Ser):
        return ser_binop(I, SWAP[op], b, a)
    if isinstance(a, Arr2) or isinstance(b, Arr2):
        from . import npm
        return npm.arr2_binop(I, op, a, b)
    if b is None or a is None:
        v = a if b is None else b
        return Arr(cells([H(x.hid, op == "!=") if isinstance(x, H) else op == "!=" for x in v.vals]), "bool")
    va, da = as_operand(I, a)
    vb, db = as_operand(I, b)
    return Arr(cells(elementwise(I, op, va, vb, da, db)), "bool")


# ---------------------------------------------------------------- indexes

def union(I, a, b):
    if same_index(I, a, b):
        return a
    if not a.vals:
        return Idx(b.vals, b.dtype if a.dtype in ("object", b.dtype) or not b.vals or True else "object", b.name, b.tz, b.closed)
    if not b.vals:
        return a
    out = list(a.vals)
    for v in b.vals:
        pos = None
        found = False
        for j, w in enumerate(out):
            c = lcmp(I, w, v)
            if c == 0:
                found = True
                break
            if c > 0:
                pos = j
                break
        if found:
            continue
        out.insert(len(out) if pos is None else pos, v)
    if not is_sorted(I, a.vals):
        out = sort_entries(I, out)
    return Idx(out, common_dtype(a.dtype, b.dtype), a.name if a.name == b.name else None, a.tz)


def reindex(I, s, idx, method=None, fill=NAN):
    """Series.reindex"""
    if is0d(fill):
        raise_("ValueError", "fill_value must be a scalar")
    src = s.idx.vals
    if method is not None and not is_sorted(I, src):
        raise_("ValueError", "index must be monotonic increasing or decreasing")
    out = []
    missing = False
    for lab in idx.vals:
        hit = None
        last = None
        nxt = None
        for j, w in enumerate(src):
            if isinstance(w, H) and not isinstance(lab, H):
                c = lcmp(I, w, lab)
                if c == 0:
                    raise U("label in a run")
                if c < 0:
                    last = j
                elif nxt is None:
                    nxt = j
                continue
            if method is None:
                if isinstance(lab, H) and not isinstance(w, H):
                    if lcmp(I, w, lab) == 0:
                        raise U("label in a run")
                    continue
                if isinstance(lab, H) and lab.hid != w.hid:
                    continue
                if leq(I, w, lab):
                    hit = j
                    break
            else:
                c = lcmp(I, w, lab)
                if c == 0:
                    hit = j
                    break
                if c < 0:
                    last = j
                else:
                    nxt = j
                    break
        if hit is not None:
            out.append(s.cells[hit].v)
            continue
        v = fill
        if method in ("ffill", "pad"):
            if last is not None:
                w = s.cells[last].v
                v = rename_last(w.val, w.hid) if isinstance(w, H) else w
            else:
                v = fill
                missing = True
        elif method in ("bfill", "backfill"):
            if nxt is not None:
                w = s.cells[nxt].v
                if isinstance(w, H):
                    raise U("first member of a run")
                v = w
            else:
                missing = True
        elif method is not None:
            raise U(f"reindex method {method}")
        else:
            missing = True
        out.append(H(lab.hid, v) if isinstance(lab, H) else v)
    d = s.dtype
    if missing:
        if is_nan(fill):
            d = {"int": "float", "bool": "object"}.get(d, d)
        else:
            d = upcast(d, fill)
    return Ser(idx, cells([conv(v, d) for v in out]), d, s.name)


# ---------------------------------------------------------------- selection

def mask_vals(I, m, n, idx=None, what="mask"):
    """boolean indexer -> list of decided booleans (one per entry)"""
    if isinstance(m, Ser):
        if idx is not None and not same_index(I, m.idx, idx):
            m = reindex(I, m, idx)
        vals = m.vals
        if m.dtype not in ("bool", "object"):
            raise U("boolean mask dtype")
    else:
        vals, _ = entries(I, m)
    if len(vals) != n:
        raise_("IndexError", f"Boolean index has wrong length: {len(vals)} instead of {n}")
    out = bools(vals, what)
    if None in out:
        raise_("ValueError", "Cannot mask with non-boolean array containing NA / NaN values")
    return out


def is_boolvec(I, k):
    if isinstance(k, (Arr, Ser, Idx)):
        if k.dtype == "bool":
            return True
        if k.dtype == "object":
            vs = [hval(v) for v in k.vals]
            return bool(vs) and all(isinstance(v, bool) for v in vs if not (is_nan(v) or v is None)) and any(isinstance(v, bool) for v in vs)
        return False
    if isinstance(k, (PyList,)):
        return bool(k.v) and all(isinstance(hval(v), bool) for v in k.v)
    return False


def take_idx(idx, js):
    return Idx([idx.vals[j] for j in js], idx.dtype, idx.name, idx.tz, idx.closed)


def ser_take(s, js):
    r = Ser(take_idx(s.idx, js), cells([s.cells[j].v for j in js]), s.dtype, s.name)
    return r


def ser_slice(s, sl):
    r = Ser(Idx(s.idx.vals[sl], s.idx.dtype, s.idx.name, s.idx.tz, s.idx.closed), s.cells[sl], s.dtype, s.name)
    return r


def label_slice(I, idx, a, b):
    lo, hi = 0, len(idx.vals)
    if a is not None:
        while lo < hi and lcmp(I, idx.vals[lo], a) < 0:
            lo += 1
    if b is not None:
        while hi > lo and lcmp(I, idx.vals[hi - 1], b) > 0:
            hi -= 1
    return slice(lo, hi)


def last_of(v, c):
    return out_scalar(v, c, True)


def ser_loc(I, s, k):
    if isinstance(k, PySlice):
        if k.c is not None:
            raise U("strided label slice")
        return ser_slice(s, label_slice(I, s.idx, k.a, k.b))
    if is_boolvec(I, k):
        m = mask_vals(I, k, len(s.cells), s.idx)
        return ser_take(s, [j for j, t in enumerate(m) if t])
    if isinstance(k, (Arr, Ser, Idx, PyList)):
        vals, _ = entries(I, k)
        js = []
        for v in vals:
            j = find_label(I, s.idx.vals, v)
            if j is None:
                raise_("KeyError", v)
            js.append(j)
        return ser_take(s, js)
    if callable_(k):
        return ser_loc(I, s, I.call(k, [s], {}))
    j = find_label(I, s.idx.vals, k)
    if j is None:
        raise_("KeyError", k)
    if s.dtype == "ext":
        return s.cells[j].v
    return out_scalar(s.cells[j].v, s.dtype, True)


def callable_(k):
    return isinstance(k, (UFunc, Bound, ExtFunc, Partial)) or (isinstance(k, Inst) and k.cls.lookup("__call__") is not None and not k.cls.has("__iter__") and k.cls.name != "Stairs" and "Stairs" not in [getattr(c, "name", "") for c in k.cls.mro])


def pos_list(I, s_vals, k):
    vals, _ = entries(I, k)
    js = []
    for v in vals:
        j, how = locate(s_vals, v)
        if how == "last":
            raise U("last member of a run")
        js.append(j)
    return js


def ser_iloc(I, s, k):
    if isinstance(k, PySlice):
        return ser_slice(s, slice_entries(s.vals, k))
    if is_boolvec(I, k):
        m = mask_vals(I, k, len(s.cells))
        return ser_take(s, [j for j, t in enumerate(m) if t])
    if isinstance(k, (Arr, PyList, Idx, Ser)):
        return ser_take(s, pos_list(I, s.vals, k))
    if isinstance(k, tuple) and len(k) == 1:
        return ser_iloc(I, s, k[0])
    if not is_number(k):
        raise_("TypeError", "Cannot index by location index with a non-integer key")
    return out_scalar(get_at(s.vals, k), s.dtype, True)


def ser_getitem(I, s, k):
    if isinstance(k, PySlice):
        ints = all(x is None or isinstance(x, int) for x in (k.a, k.b))
        if ints and s.idx.dtype != "float":
            return ser_slice(s, slice_entries(s.vals, k))
        if ints and k.a is None and k.b is None:
            return ser_slice(s, slice_entries(s.vals, k))
        return ser_loc(I, s, k)
    if is_boolvec(I, k) or isinstance(k, (Arr, Ser, Idx, PyList)) or callable_(k):
        return ser_loc(I, s, k)
    j = find_label(I, s.idx.vals, k)
    if j is None:
        if isinstance(k, int) and s.idx.dtype not in ("int", "float"):
            return ser_iloc(I, s, k)
        raise_("KeyError", k)
    return out_scalar(s.cells[j].v, s.dtype, True)


def sync(s):
    """a handed-out column whose storage was swapped is swapped in the frame as well"""
    if s.ref is not None:
        df, c = s.ref
        if c in df.cols and len(df.idx.vals) == len(s.cells):
            df.cols[c] = (s.cells, s.dtype)
        else:
            df.cache.pop(c, None)
            s.ref = None


def ser_retype(I, s, dtype):
    if dtype == s.dtype:
        return
    s.cells = cells(cast(I, s.vals, s.dtype, dtype) if not (s.dtype == "bool" and dtype == "object") else s.vals)
    s.dtype = dtype
    sync(s)


def ser_setpos(I, s, js, v, always_upcast=True):
    """write v (scalar or vector) at entries js, in place"""
    if is_vec(v) or isinstance(v, (PyList, tuple)):
        if isinstance(v, Ser):
            v = reindex(I, v, take_idx(s.idx, js)).vals
        else:
            v, _ = entries(I, v)
        if len(v) == len(s.cells) and len(js) != len(v):
            raise_("ValueError", "cannot set using a list-like indexer with a different length than the value")
        if len(v) != len(js):
            if len(v) == 1:
                v = v * len(js)
            else:
                raise_("ValueError", "cannot set using a list-like indexer with a different length than the value")
        vs = v
    else:
        vs = [v] * len(js)
    d = s.dtype
    for x in (vs if (vs or not always_upcast) else [v]):
        if not isinstance(x, list):
            d = upcast(d, x)
    ser_retype(I, s, d)
    for j, x in zip(js, vs):
        old = s.cells[j].v
        x = hmap(lambda q: conv(q, d), x)
        if isinstance(old, H) and not isinstance(x, H):
            x = H(old.hid, x)
        s.cells[j].v = x


def ser_enlarge(I, s, k, v):
    d = s.dtype
    if s.cells:
        d = upcast(d, v)
    else:
        d = "float" if d == "float" and is_number(v) and not isinstance(v, bool) else (scalar_dtype(v) if d in ("object",) else upcast(d, v))
    vals = cast(I, s.vals, s.dtype, d) if d != s.dtype else s.vals
    s.cells = cells(vals + [conv(v, d)])
    s.dtype = d
    il = s.idx.vals + [k]
    kd = scalar_dtype(k)
    if isinstance(k, str) or k is None:
        kd = "object"
    nd = kd if not s.idx.vals else (s.idx.dtype if s.idx.dtype == kd or can_hold(s.idx.dtype, k) else common_dtype(s.idx.dtype, kd))
    s.idx = Idx([conv(x, nd) for x in il], nd, s.idx.name)
    if s.ref is not None:
        s.ref[0].cache.pop(s.ref[1], None)
        s.ref = None


def ser_set(I, s, k, v, kind):
    if s.ext is not None:
        raise U("assignment into an extension series")
    I.touch(s)
    if kind == "iloc" or kind == "iat":
        if isinstance(k, PySlice):
            js = list(range(len(s.cells)))[slice_entries(s.vals, k)]
            return ser_setpos(I, s, js, v)
        if is_boolvec(I, k):
            m = mask_vals(I, k, len(s.cells))
            return ser_setpos(I, s, [j for j, t in enumerate(m) if t], v)
        if isinstance(k, (Arr, PyList, Idx)):
            return ser_setpos(I, s, pos_list(I, s.vals, k), v)
        j, how = locate(s.vals, k)
        if how == "last":
            raise U("write to a member of a run")
        return ser_setpos(I, s, [j], v)
    if isinstance(k, PySlice):
        if kind == "set" and all(x is None or isinstance(x, int) for x in (k.a, k.b)) and s.idx.dtype != "float":
            js = list(range(len(s.cells)))[slice_entries(s.vals, k)]
        else:
            js = list(range(len(s.cells)))[label_slice(I, s.idx, k.a, k.b)]
        return ser_setpos(I, s, js, v)
    if is_boolvec(I, k):
        m = mask_vals(I, k, len(s.cells), s.idx)
        js = [j for j, t in enumerate(m) if t]
        if not js and kind == "set":
            return
        return ser_setpos(I, s, js, v)
    if isinstance(k, (Arr, Ser, Idx, PyList)):
        vals, _ = entries(I, k)
        js = []
        for q in vals:
            j = find_label(I, s.idx.vals, q)
            if j is None:
                if kind == "set" and not s.idx.dtype == "object":
                    raise U("list assignment")
                raise_("KeyError", q)
            js.append(j)
        return ser_setpos(I, s, js, v)
    if callable_(k):
        return ser_set(I, s, I.call(k, [s], {}), v, kind)
    j = find_label(I, s.idx.vals, k)
    if j is None:
        return ser_enlarge(I, s, k, v)
    ser_setpos(I, s, [j], v)


# ---------------------------------------------------------------- frames

def col(df, c, cached=False):
    cs, d = df.cols[c]
    if cached and c in df.cache:
        return df.cache[c]
    s = Ser(df.idx, cs, d, c)
    s.ref = (df, c)
    if cached:
        df.cache[c] = s
    return s


def frame_setcol(I, df, c, v):
    I.touch(df)
    df.cache.pop(c, None)
    if isinstance(v, DF):
        if len(v.cols) != 1:
            raise_("ValueError", "Columns must be same length as key")
        v = col(v, next(iter(v.cols)))
    if isinstance(v, Ser):
        if not df.cols and not df.idx.vals:
            df.idx = v.idx
        if v.ext is not None:
            df.cols[c] = (cells(v.vals), "object")
            return
        if same_index(I, v.idx, df.idx):
            df.cols[c] = (cells(v.vals), v.dtype)
        else:
            r = reindex(I, v, df.idx)
            df.cols[c] = (r.cells, r.dtype)
        return
    if is_listlike(v):
        vals, d = entries(I, v)
        d = d or infer_dtype(vals)
        if not df.cols and not df.idx.vals:
            df.idx = range_index(vals)
        if len(vals) != len(df.idx.vals):
            raise_("ValueError", f"Length of values ({len(vals)}) does not match length of index ({len(df.idx.vals)})")
        pairup(vals, df.idx.vals)
        df.cols[c] = (cells([conv(x, d) for x in vals]), d)
        return
    d = scalar_dtype(v) if not isnull(v) else "float"
    df.cols[c] = (cells([H(e.hid, conv(v, d)) if isinstance(e, H) else conv(v, d) for e in df.idx.vals]), d)


def mk_frame(I, data=None, index=None, columns=None, dtype=None, copy=None):
    idx = mk_index(I, index) if index is not None else None
    if isinstance(data, DF):
        df = data
        if columns is not None:
            names = [n for n in I.iterate(columns)]
            df = DF(df.idx, {n: df.cols[n] for n in names if n in df.cols})
            if len(df.cols) != len(names):
                raise U("missing columns")
        if idx is not None and not same_index(I, idx, df.idx):
            out = {}
            for c in df.cols:
                r = reindex(I, col(df, c), idx)
                out[c] = (r.cells, r.dtype)
            return DF(idx, out)
        return DF(idx or df.idx, {c: ((cells([q.v for q in cs]) if I.truth(copy or False) else cs), d) for c, (cs, d) in df.cols.items()})
    if data is None:
        df = DF(idx or Idx([], "object"), {})
        if columns is not None:
            for c in I.iterate(columns):
                df.cols[c] = (cells([H(e.hid, NAN) if isinstance(e, H) else NAN for e in df.idx.vals]), "object")
        return df
    if isinstance(data, Ser):
        s = data
        nm = s.name if s.name is not None else 0
        if columns is not None:
            names = I.iterate(columns)
            if len(names) != 1:
                raise U("columns of a one-column frame")
            nm = names[0]
            if s.name is not None and s.name != nm:
                s = Ser(s.idx, cells([H(v.hid, NAN) if isinstance(v, H) else NAN for v in s.vals]), "float", nm)
        if idx is not None and not same_index(I, idx, s.idx):
            s = reindex(I, s, idx)
        return DF(idx or s.idx, {nm: (s.cells, s.dtype)})
    if isinstance(data, PyDict):
        items = [(k, v) for k, v in data.d.values()]
        if columns is not None:
            names = I.iterate(columns)
            dd = {k: v for k, v in items}
            items = [(n, dd.get(n, NAN)) for n in names]
        if idx is None:
            for k, v in items:
                if isinstance(v, Ser):
                    idx = v.idx if idx is None else union(I, idx, v.idx)
            if idx is None:
                for k, v in items:
                    if is_listlike(v) and not isinstance(v, PyDict):
                        idx = range_index(entries(I, v)[0])
                        break
            if idx is None:
                raise_("ValueError", "If using all scalar values, you must pass an index")
        df = DF(idx, {})
        for k, v in items:
            frame_setcol(I, df, k, v)
        return df
    if isinstance(data, Arr2):
        n = len(data.rows[0]) if data.rows else 0
        names = I.iterate(columns) if columns is not None else list(range(n))
        df = DF(idx or Idx(range(len(data.rows)), "int"), {})
        for j in range(n):
            if _cn(names[j]) in df.cols:
                raise U("repeated column labels")
            df.cols[_cn(names[j])] = (cells([r[j].v for r in data.rows]), data.dtype)
        return df
    if isinstance(data, (PyList, tuple)) and I.iterate(data) and all(isinstance(x, Ser) for x in I.iterate(data)):
        rows = I.iterate(data)
        cidx = rows[0].idx
        for r in rows[1:]:
            if cidx.dtype == "interval" == r.idx.dtype:      # unsorted union: order of appearance
                extra = [v for v in r.idx.vals if not any(lcmp(I, v, w) == 0 for w in cidx.vals)]
                cidx = Idx(cidx.vals + extra, "interval", None, None, cidx.closed)
            else:
                cidx = union(I, cidx, r.idx)
        rr = [reindex(I, r, cidx) for r in rows]
        df = DF(idx or Idx(range(len(rows)), "int"), {})
        df_cols = {}
        for j, lab in enumerate(cidx.vals):
            d = rr[0].dtype
            for r in rr:
                d = common_dtype(d, r.dtype)
            if _cn(lab) in df_cols:
                raise U("repeated column labels")
            df_cols[_cn(lab)] = (cells([r.cells[j].v for r in rr]), d)
        df.cols = df_cols
        return df
    if isinstance(data, (Arr, Idx, PyList)):
        vals, d = entries(I, data)
        if vals and all(is_listlike(v.val if isinstance(v, H) else v) for v in vals):
            rows = [(v.hid, v.val) if isinstance(v, H) else (None, v) for v in vals]
            if not all(isinstance(r, (tuple, PyList)) and getattr(r, "cls", None) is None for _, r in rows):
                return Unknown("frame from rows")
            rows = [(h, list(r if isinstance(r, tuple) else r.v)) for h, r in rows]
            n = len(rows[0][1])
            names = I.iterate(columns) if columns is not None else list(range(n))
            if any(len(r) != n for _, r in rows) or len(names) != n or len({_cn(m) for m in names}) != n:
                return Unknown("frame from ragged rows")
            df = DF(idx or range_index(vals), {})
            for j, m in enumerate(names):
                frame_setcol(I, df, m, PyList([H(h, r[j]) if h is not None else r[j] for h, r in rows]))
            return df
        nm = I.iterate(columns)[0] if columns is not None else 0
        return mk_frame(I, PyDict({I.hkey(nm): (nm, data)}), idx)
    return Unknown("frame constructor")


class LabKey:
    """abstract label used as a column name"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return 0

    def __eq__(self, o):
        return isinstance(o, LabKey) and definitely_equal(self.v, o.v)

    def __repr__(self):
        return repr(self.v)


def _cn(v):
    return v if isinstance(v, (str, int)) or v is None else LabKey(v)


def cn_out(c):
    return c.v if isinstance(c, LabKey) else c


def frame_rows(df, js):
    return DF(take_idx(df.idx, js), {c: (cells([cs[j].v for j in js]), d) for c, (cs, d) in df.cols.items()})


def frame_slice(df, sl):
    return DF(Idx(df.idx.vals[sl], df.idx.dtype, df.idx.name, df.idx.tz, df.idx.closed), {c: (cs[sl], d) for c, (cs, d) in df.cols.items()})


def map_cols(I, df, f):
    out = {}
    idx = df.idx
    for c in df.cols:
        r = f(col(df, c))
        if isinstance(r, Unknown):
            return r
        out[c] = (r.cells, r.dtype)
        idx = r.idx
    return DF(idx, out)


def frame_getitem(I, df, k):
    if isinstance(k, str) or isinstance(k, int):
        if k not in df.cols:
            raise_("KeyError", k)
        return col(df, k, True)
    if is_boolvec(I, k):
        m = mask_vals(I, k, len(df.idx.vals), df.idx)
        return frame_rows(df, [j for j, t in enumerate(m) if t])
    if isinstance(k, PyList) or isinstance(k, Idx):
        names = I.iterate(k)
        for n in names:
            if n not in df.cols:
                raise_("KeyError", n)
        return DF(df.idx, {n: (cells([c.v for c in df.cols[n][0]]), df.cols[n][1]) for n in names})
    if isinstance(k, PySlice):
        return frame_slice(df, slice_entries(df.idx.vals, k))
    if isinstance(k, DF):
        return Unknown("frame mask")
    if isinstance(k, Lab) or is_number(k):
        kk = _cn(k)
        if kk in df.cols:
            return col(df, kk)
    return Unknown("frame item")


def rowsel(I, df, k, kind):
    """row selector -> (entry positions or slice, scalar?)"""
    if isinstance(k, PySlice):
        if kind == "loc":
            return label_slice(I, df.idx, k.a, k.b), False
        return slice_entries(df.idx.vals, k), False
    if is_boolvec(I, k):
        m = mask_vals(I, k, len(df.idx.vals), df.idx)
        return [j for j, t in enumerate(m) if t], False
    if isinstance(k, (Arr, Ser, Idx, PyList)):
        if kind == "iloc":
            return pos_list(I, df.idx.vals, k), False
        js = []
        for v in entries(I, k)[0]:
            j = find_label(I, df.idx.vals, v)
            if j is None:
                raise_("KeyError", v)
            js.append(j)
        return js, False
    if callable_(k):
        return rowsel(I, df, I.call(k, [df], {}), kind)
    if kind == "iloc":
        j, how = locate(df.idx.vals, k)
        if how == "last":
            raise U("member of a run")
        return [j], True
    j = find_label(I, df.idx.vals, k)
    if j is None:
        raise_("KeyError", k)
    return [j], True


def colsel(I, df, k, kind):
    names = list(df.cols)
    if kind == "iloc":
        if isinstance(k, PySlice):
            return names[I._pyslice(k)], False
        if isinstance(k, PyList):
            return [names[I.as_int(x)] for x in k.v], False
        i = I.as_int(k)
        if not -len(names) <= i < len(names):
            raise_("IndexError", "positional indexer out of bounds")
        return [names[i]], True
    if isinstance(k, PySlice):
        if k.a is None and k.b is None:
            return names, False
        raise U("column slice")
    if isinstance(k, PyList):
        for n in k.v:
            if n not in names:
                raise_("KeyError", n)
        return list(k.v), False
    if k not in names:
        raise_("KeyError", k)
    return [k], True


def frame_sel(I, df, k, kind):
    if isinstance(k, tuple):
        rk, ck = k
        names, cscalar = colsel(I, df, ck, kind)
    else:
        rk, names, cscalar = k, list(df.cols), False
    js, rscalar = rowsel(I, df, rk, kind)
    if cscalar:
        cs, d = df.cols[names[0]]
        if rscalar:
            return out_scalar(cs[js[0]].v, d, True)
        if isinstance(js, slice):
            s = Ser(Idx(df.idx.vals[js], df.idx.dtype, df.idx.name, df.idx.tz), cs[js], d, names[0])
            if len(s.cells) == len(cs):
                s.ref = (df, names[0])
            return s
        return Ser(take_idx(df.idx, js), cells([cs[j].v for j in js]), d, names[0])
    if rscalar:
        d = None
        vals = []
        for n in names:
            cs, dd = df.cols[n]
            d = dd if d is None else common_dtype(d, dd)
            vals.append(cs[js[0]].v)
        return Ser(mk_index(I, PyList(list(names))), cells(vals), d or "object", df.idx.vals[js[0]])
    sub = DF(df.idx, {n: df.cols[n] for n in names})
    if isinstance(js, slice):
        return frame_slice(sub, js)
    return frame_rows(sub, js)


def frame_set(I, df, k, v, kind):
    I.touch(df)
    if isinstance(k, tuple):
        rk, ck = k
        if kind == "loc" and isinstance(ck, str) and ck not in df.cols:
            if isinstance(rk, PySlice) and rk.a is None and rk.b is None:
                return frame_setcol(I, df, ck, v)
            df.cols[ck] = (cells([H(e.hid, NAN) if isinstance(e, H) else NAN for e in df.idx.vals]), "float")
        names, _ = colsel(I, df, ck, kind)
        if kind == "loc" and not isinstance(rk, (PySlice,)) and not is_boolvec(I, rk) and not is_listlike(rk) and not callable_(rk):
            j = find_label(I, df.idx.vals, rk)
            if j is None:
                return _frame_enlarge(I, df, rk, {n: v for n in names})
    else:
        rk, names = k, list(df.cols)
        if kind == "loc" and not isinstance(rk, PySlice) and not is_boolvec(I, rk) and not is_listlike(rk) and not callable_(rk):
            j = find_label(I, df.idx.vals, rk)
            if j is None:
                if is_listlike(v):
                    raise U("row enlargement")
                return _frame_enlarge(I, df, rk, {n: v for n in names})
    js, rscalar = rowsel(I, df, rk, kind)
    if isinstance(js, slice):
        js = list(range(len(df.idx.vals)))[js]
    for n in names:
        cs, d = df.cols[n]
        s = Ser(df.idx, cs, d, n)
        s.ref = (df, n)
        ser_setpos(I, s, js, v)
        df.cols[n] = (s.cells, s.dtype)
        c = df.cache.get(n)
        if c is not None and (c.cells is not s.cells):
            df.cache.pop(n)


def _frame_enlarge(I, df, k, vals):
    for n in list(df.cols):
        cs, d = df.cols[n]
        v = vals.get(n, NAN)
        d2 = upcast(d, v)
        old = [c.v for c in cs]
        df.cols[n] = (cells((cast(I, old, d, d2) if d2 != d else old) + [conv(v, d2)]), d2)
    df.idx = Idx(df.idx.vals + [k], df.idx.dtype if can_hold(df.idx.dtype, k) and df.idx.vals else (scalar_dtype(k) if not df.idx.vals else common_dtype(df.idx.dtype, scalar_dtype(k))), df.idx.name)
    df.cache = {}


def frame_values(df):
    d = None
    for cs, dd in df.cols.values():
        d = dd if d is None else common_dtype(d, dd)
    d = d or "float"
    share = len({dd for _, dd in df.cols.values()}) == 1
    names = list(df.cols)
    rows = []
    for j in range(len(df.idx.vals)):
        rows.append([df.cols[n][0][j] if share else Cell(df.cols[n][0][j].v) for n in names])
    a = Arr2(rows, d)
    return a

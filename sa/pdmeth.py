"""Methods of the abstract pandas objects."""
from . import ctx as C
from .extattrs import ATTRS
from .vec import *
from .pdm import *
from .pdm import U, SER, IDX, FRAME, ser, idxm, frm, _cn
from .ctx import Undecided, HoleDecision
from .terms import Num, atom, nadd, nsub, num
from .values import *


def anyH(vals):
    return any(isinstance(v, H) for v in vals)


# ---------------------------------------------------------------- reductions shared by Series / ndarray / Index

def red_any(I, vals):
    undec = None
    for v in vals:
        g = hval(v)
        if isinstance(g, (TopH, Unknown)):
            undec = v
            continue
        if is_nan(g) or g is None:
            continue
        if I.truth(g) if not isinstance(v, H) else _gtruth(I, g):
            return True
    if undec is not None:
        raise U("any() over a summarised run")
    return False


def _gtruth(I, g):
    return I.truth(g)


def red_all(I, vals):
    undec = None
    for v in vals:
        g = hval(v)
        if isinstance(g, (TopH, Unknown)):
            undec = v
            continue
        if is_nan(g):
            continue
        if not I.truth(g):
            return False
    if undec is not None:
        raise U("all() over a summarised run")
    return True


def nonnull(vals):
    out = []
    for v in vals:
        n = hval(isnull(v))
        if isinstance(n, TopH):
            raise U("nullness over a summarised run")
        if not n:
            out.append(v)
    return out


def outnum(v, dtype, series=True):
    if isinstance(v, (int, Num)) and not isinstance(v, bool):
        return out_scalar(v, "int" if dtype in ("int", "bool") else "float", series)
    return out_scalar(v, dtype, series)


def red_sum(I, vals, dtype, skipna=True, min_count=0):
    if dtype == "object" and any(isinstance(hval(v), Inst) for v in vals):
        acc = 0
        for v in vals:
            acc = I.binop("+", acc, v)
        return acc
    if skipna:
        vs = nonnull(vals)
        if min_count and len(vs) < min_count:
            return NAN
    else:
        vs = vals
        if any(isnull(v) is True for v in vs):
            return NAN
    r = vsum(I, [hmap(lambda q: int(q) if isinstance(q, bool) else q, v) for v in vs])
    if r == 0 and isinstance(r, int) and dtype == "m8":
        return Lab("td", num(0), None, "pd")
    return outnum(r, dtype)


def red_ext(I, vals, big, skipna=True, empty_error=False):
    """min / max"""
    if skipna:
        vs = nonnull(vals)
    else:
        vs = vals
        if any(isnull(v) is True for v in vs):
            return NAN
    if anyH(vs):
        raise U("extremum over a summarised run")
    if not vs:
        if empty_error:
            raise_("ValueError", "zero-size array to reduction operation which has no identity")
        return NAN
    best = vs[0]
    for v in vs[1:]:
        c = lcmp(I, v, best) if not isinstance(v, bool) or not isinstance(best, bool) else (v > best) - (v < best)
        if (c > 0) == big and c != 0:
            best = v
    return best


def vcount(vals):
    return vlen(vals)


def red_mean(I, vals, dtype, skipna=True):
    vs = nonnull(vals) if skipna else vals
    if not skipna and any(isnull(v) is True for v in vs):
        return NAN
    if not vs:
        return NAN
    s = vsum(I, vs)
    return outnum(I.scalar_binop("/", s, to_np(vcount(vs)), True), "float" if dtype in NUMD else dtype)


def to_np(v):
    return Num(to_num(v).n, to_num(v).d, "np") if is_number(v) and fin(v) else v


def red_median(I, vals, skipna=True):
    vs = nonnull(vals) if skipna else vals
    if not skipna and any(isnull(v) is True for v in vs):
        return NAN
    if anyH(vs):
        raise U("median over a run")
    if not vs:
        return NAN
    ss = sort_entries(I, vs)
    n = len(ss)
    if n % 2:
        return to_np(ss[n // 2]) if is_number(ss[n // 2]) else ss[n // 2]
    return I.scalar_binop("/", I.scalar_binop("+", ss[n // 2 - 1], ss[n // 2]), to_np(2), True)


def red_var(I, vals, ddof=1, skipna=True):
    vs = nonnull(vals) if skipna else vals
    if not skipna and any(isnull(v) is True for v in vs):
        return NAN
    if anyH(vs):
        raise U("variance over a run")
    n = len(vs)
    if n - ddof <= 0:
        return NAN
    m = I.scalar_binop("/", vsum(I, vs), n, True)
    s = 0
    for v in vs:
        d = I.scalar_binop("-", v, m)
        s = I.scalar_binop("+", s, I.scalar_binop("*", d, d))
    return to_np(I.scalar_binop("/", s, n - ddof, True))


def vcumsum(I, vals, skipna=True):
    """running sum; runs telescope when their generic member is a difference of consecutive members"""
    out = []
    acc = 0
    dead = False
    for v in vals:
        if dead:
            out.append(H(v.hid, NAN) if isinstance(v, H) else NAN)
            continue
        if isinstance(v, H):
            g = v.val
            if isinstance(g, TopH) or not is_number(g) or not fin(g):
                if not isinstance(g, TopH) and is_nan(g) and skipna:
                    out.append(H(v.hid, NAN))
                    continue
                acc = TOPH
                out.append(H(v.hid, TOPH))
                continue
            t = telescope(g, v.hid)
            if t is None:
                out.append(H(v.hid, TOPH))
                acc = I.scalar_binop("+", acc, run_sum(g, v.hid)) if not isinstance(acc, TopH) else TOPH
                if isinstance(acc, Unknown):
                    acc = TOPH
                continue
            gen, before = t
            if isinstance(acc, TopH):
                out.append(H(v.hid, TOPH))
                continue
            base = I.scalar_binop("-", acc, before)
            full = I.scalar_binop("+", base, gen)
            out.append(H(v.hid, full))
            acc = I.scalar_binop("+", base, rename_last(gen, v.hid))
            continue
        if isnull(v):
            out.append(NAN)
            if not skipna:
                dead = True
            continue
        if isinstance(acc, TopH) or isinstance(v, TopH):
            acc = TOPH
            out.append(TOPH)
            continue
        acc = v if (isinstance(acc, int) and acc == 0) else I.scalar_binop("+", acc, v)
        out.append(acc)
    if any(isinstance(v, TopH) for v in out):
        raise U("running sum past a summarised run")
    return out


def telescope(g, hid):
    """g = L(v@h) - L(v@h.prev): -> (L(v@h), L(before)) or None"""
    from .terms import Poly, P0, padd, psub, psubst, prename
    x = C.cur().norm(to_num(g))
    if x.d.t != P1.t:
        return None
    suf, pre = "@" + hid, "@" + hid + ".prev"
    cur_, prv = {}, {}
    for m, c in x.n.t.items():
        has_c = any(a.endswith(suf) for a, _ in m)
        has_p = any(a.endswith(pre) for a, _ in m)
        if has_c and not has_p:
            cur_[m] = c
        elif has_p and not has_c:
            prv[m] = c
        else:
            return None
    p1 = Poly(cur_)
    p2 = prename(Poly(prv), lambda a: a[:-5] if a.endswith(pre) else a)
    if padd(p1, p2).t:
        return None
    mp = {}
    for m in cur_:
        for a, _ in m:
            if a.endswith(suf):
                b = C.cur().telescope.get(a)
                if b is None:
                    return None
                b = to_num(b)
                if b.d.t != P1.t:
                    return None
                mp[a] = b.n
    return simp(Num(p1, P1)), simp(Num(psubst(p1, mp), P1))


def vdiff(I, vals, dtype):
    """consecutive differences -> entries (one fewer)"""
    out = []
    fwd = False
    for i, (a, b) in enumerate(zip(vals, vals[1:])):
        if isinstance(a, H) and isinstance(b, H):
            raise U("adjacent runs")
        if isinstance(b, H):
            nx = vals[i + 2] if i + 2 < len(vals) else None
            g = b.val
            if isinstance(g, TopH):
                out.append(H(b.hid, TOPH))
                continue
            lab = g.x if isinstance(g, Lab) else g
            ln = fwd_len(lab, b.hid)
            if ln is not None:
                # labels: forward segmentation  [first - a] + run(next - this)
                first = C.cur().telescope[("first", b.hid)]
                d = I.scalar_binop("-", Lab(g.kind, first, g.tz, g.flav) if isinstance(g, Lab) else first, a)
                out.append(d)
                out.append(H(b.hid, Lab("td", ln, None, g.flav) if isinstance(g, Lab) else ln))
                fwd = True
                continue
            if isinstance(a, TopH) or not is_number(g):
                out.append(H(b.hid, TOPH))
                continue
            if is_nan(g):
                out.append(H(b.hid, NAN))
                continue
            prev = prev_of(g, b.hid)
            bef = before_of(g, b.hid)
            if prev is not None and bef is not None and is_number(a) and definitely_equal(bef, a):
                out.append(H(b.hid, I.scalar_binop("-", g, prev)))
            else:
                out.append(H(b.hid, TOPH))
            continue
        if isinstance(a, H):
            if fwd:
                fwd = False     # already part of the forward segmentation
                continue
            out.append(I.scalar_binop("-", b, rename_last(a.val, a.hid)))
            continue
        if isnull(a) or isnull(b):
            out.append(NAN)
        elif isinstance(a, TopH) or isinstance(b, TopH):
            out.append(TOPH)
        else:
            out.append(I.scalar_binop("-", b, a))
    return out


def fwd_len(lab, hid):
    """label of a run member (possibly shifted) -> length of the piece starting there"""
    x = to_num(lab)
    t = C.cur().telescope.get(("len", hid))
    if t is None:
        return None
    name, ln = t
    y = nsub(x, atom(name))
    if any("@" + hid in a for a in y.atoms()):
        return None
    return ln if not y.n.t else None


def prev_of(g, hid):
    suf = "@" + hid
    if not isinstance(g, Num):
        return g
    return nrename(g, lambda a: a + ".prev" if a.endswith(suf) else a)


def before_of(g, hid):
    """value just before the run, when the generic member's atoms say so"""
    from .terms import psubst
    if not isinstance(g, Num):
        return None
    mp = {}
    for a in g.atoms():
        if a.endswith("@" + hid):
            b = C.cur().telescope.get(a)
            if b is None:
                return None
            mp[a] = to_num(b).n
    return simp(Num(psubst(g.n, mp), psubst(g.d, mp)))


# ---------------------------------------------------------------- Series

OPS = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "pow": "**", "floordiv": "//", "mod": "%"}


def _mk(sym, flip):
    def f(I, s, other, level=None, fill_value=None, axis=0):
        if level is not None:
            raise U("level")
        return ser_binop(I, sym, s, other, fill_value, flip, True)
    return f


def _as_ser(I, s):
    if not isinstance(s, Ser):
        raise U("Series method on something else")
    return s


for n_, sym_ in OPS.items():
    ser(n_)(_mk(sym_, False))
    ser("r" + n_)(_mk(sym_, True))
for a_, b_ in (("subtract", "sub"), ("multiply", "mul"), ("div", "truediv"), ("divide", "truediv"), ("rdiv", "rtruediv")):
    alias(SER, a_, b_)


def _mkc(sym):
    def f(I, s, other, level=None, fill_value=None, axis=0):
        return ser_binop(I, sym, s, other, fill_value, False, True)
    return f


for n_, sym_ in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
    ser(n_)(_mkc(sym_))


def _dun(sym, flip=False):
    def f(I, s, other):
        return ser_binop(I, sym, s, other, None, flip)
    return f


for n_, sym_ in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("and", "&"), ("or", "|"), ("xor", "^")):
    ser(f"__{n_}__")(_dun(sym_))
    ser(f"__r{n_}__")(_dun(sym_, True))
for n_, sym_ in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
    ser(f"__{n_}__")(_dun(sym_))


@ser("copy")
def _(I, s, deep=True):
    if not I.truth(deep):
        r = Ser(s.idx, s.cells, s.dtype, s.name)
        r.ext = s.ext
        return r
    r = new(s, s.vals)
    if s.ext is not None:
        r.ext = I.call(I.getattr(s.ext, "copy"), [], {})
    return r


def inplace_done(I, s, r, inplace):
    """honour inplace=True"""
    if not inplace:
        return r
    I.touch(s)
    if len(r.cells) == len(s.cells):
        if r.dtype == s.dtype:
            for a, b in zip(s.cells, r.cells):
                a.v = b.v
        else:
            s.cells, s.dtype = r.cells, r.dtype
            sync(s)
        s.idx = r.idx
    else:
        s.cells, s.dtype, s.idx = cells(r.vals), r.dtype, r.idx
        if s.ref is not None:
            s.ref[0].cache.pop(s.ref[1], None)
            s.ref = None
    return None


def _where(I, s, cond, other, neg):
    if callable_(cond):
        cond = I.call(cond, [s], {})
    if isinstance(cond, Unknown):
        raise U(cond.reason)
    if callable_(other):
        other = I.call(other, [s], {})
    if isinstance(cond, bool):
        cv = [H(v.hid, cond) if isinstance(v, H) else cond for v in s.vals]
    elif isinstance(cond, Ser):
        if not same_index(I, cond.idx, s.idx):
            cond = reindex(I, cond, s.idx)
            cv = [hmap(lambda q: (not neg) if is_nan(q) else q, v) for v in cond.vals] if neg is False else [hmap(lambda q: True if is_nan(q) else q, v) for v in cond.vals]
            cv = [hmap(lambda q: False if q is None else q, v) for v in cv]
        else:
            cv = cond.vals
    else:
        cv, _ = entries(I, cond)
    if isinstance(other, Ser):
        ov = reindex(I, other, s.idx).vals if not same_index(I, other.idx, s.idx) else other.vals
    elif is_listlike(other):
        ov, _ = entries(I, other)
    else:
        ov = None
    if len(cv) != len(s.cells):
        raise_("ValueError", "Array conditional must be same shape as self")
    out = []
    used = []
    for j, (v, c) in enumerate(zip(s.vals, cv)):
        g = hval(c)
        if isinstance(g, TopH):
            out.append(H(v.hid, TOPH))
            continue
        keep = bools([c])[0]
        if neg:
            keep = not keep
        if keep:
            out.append(v)
        else:
            o = ov[j] if ov is not None else other
            used.append(o)
            out.append(H(v.hid, hval(o)) if isinstance(v, H) else o)
    d = s.dtype
    for o in used:
        d = upcast(d, o)
    if d != s.dtype and s.dtype != "bool":
        out = [hmap(lambda q: conv(q, d), v) for v in out]
    return new(s, [hmap(lambda q: conv(q, d), v) for v in out], d)


@ser("where")
def _(I, s, cond, other=NAN, inplace=False, axis=None, level=None):
    return inplace_done(I, s, _where(I, s, cond, other, False), inplace)


@ser("mask")
def _(I, s, cond, other=NAN, inplace=False, axis=None, level=None):
    return inplace_done(I, s, _where(I, s, cond, other, True), inplace)


def fill_entries(I, vals, value, rep=None):
    out = []
    for v in vals:
        n = hval(isnull(v))
        if isinstance(n, TopH):
            raise U("fillna over a summarised run")
        out.append((H(v.hid, value) if isinstance(v, H) else value) if n else v)
    return out


@ser("fillna")
def _(I, s, value=None, method=None, axis=None, inplace=False, limit=None, downcast=None):
    if limit is not None:
        raise U("fillna limit")
    if method is not None:
        r = SER["ffill" if method in ("pad", "ffill") else "bfill"].fn(I, s)
        return inplace_done(I, s, r, inplace)
    if value is None:
        raise_("ValueError", "Must specify a fill 'value' or 'method'.")
    if isinstance(value, (Ser, PyDict)):
        if isinstance(value, PyDict):
            value = mk_series(I, value)
        o = reindex(I, value, s.idx).vals
        out = [(o[j] if hval(isnull(v)) else v) for j, v in enumerate(s.vals)]
        d = s.dtype
        for q in out:
            d = upcast(d, q)
        return inplace_done(I, s, new(s, out, d), inplace)
    if is_listlike(value):
        raise_("TypeError", '"value" parameter must be a scalar or dict')
    out = fill_entries(I, s.vals, value)
    d = s.dtype
    if any(hval(isnull(v)) for v in s.vals):
        d = upcast(d, value)
        if d == "object" and infer_dtype(out) in ("float", "int", "bool"):
            d = infer_dtype(out)
    elif s.dtype == "object" and out and infer_dtype(out) in ("bool", "int", "float"):
        d = infer_dtype(out)
    return inplace_done(I, s, new(s, [hmap(lambda q: conv(q, d), v) for v in out], d), inplace)


def ffill_entries(vals):
    out = []
    last = NAN
    for v in vals:
        n = hval(isnull(v))
        if isinstance(n, TopH):
            raise U("ffill over a summarised run")
        if n:
            out.append(H(v.hid, last) if isinstance(v, H) else last)
        else:
            out.append(v)
            last = rename_last(v.val, v.hid) if isinstance(v, H) else v
    return out


def bfill_entries(vals):
    out = []
    nxt = NAN
    for v in reversed(vals):
        n = hval(isnull(v))
        if isinstance(n, TopH):
            raise U("bfill over a summarised run")
        if n:
            out.append(H(v.hid, nxt) if isinstance(v, H) else nxt)
        else:
            out.append(v)
            nxt = TOPH if isinstance(v, H) else v
    out.reverse()
    return out


@ser("ffill", "pad")
def _(I, s, axis=None, inplace=False, limit=None, downcast=None, limit_area=None):
    if limit is not None:
        raise U("ffill limit")
    return inplace_done(I, s, new(s, ffill_entries(s.vals)), inplace)


@ser("bfill", "backfill")
def _(I, s, axis=None, inplace=False, limit=None, downcast=None, limit_area=None):
    if limit is not None:
        raise U("bfill limit")
    return inplace_done(I, s, new(s, bfill_entries(s.vals)), inplace)


@ser("isna", "isnull")
def _(I, s):
    return new(s, [isnull(v) for v in s.vals], "bool")


@ser("notna", "notnull")
def _(I, s):
    return new(s, [hmap(lambda b: b if isinstance(b, TopH) else not b, isnull(v)) for v in s.vals], "bool")


@ser("shift")
def _(I, s, periods=1, freq=None, axis=0, fill_value=NAN, suffix=None):
    if freq is not None:
        raise U("shift freq")
    k = I.as_int(periods)
    vals = s.vals
    if anyH(vals):
        if k != 1:
            raise U("shift over a run")
        out = []
        prev = fill_value
        for v in vals:
            if isinstance(v, H):
                g = v.val
                if isinstance(g, bool) and isinstance(prev, bool) and g == prev or (is_nan(g) and is_nan(prev)):
                    out.append(H(v.hid, g))
                elif is_number(g) and fin(g) and not isinstance(g, bool) and is_number(prev) and fin(prev) and before_of(g, v.hid) is not None and definitely_equal(before_of(g, v.hid), prev):
                    out.append(H(v.hid, prev_of(g, v.hid)))
                else:
                    out.append(H(v.hid, TOPH))
                prev = rename_last(g, v.hid)
            else:
                out.append(prev)
                prev = v
    else:
        n = len(vals)
        f = [fill_value] * min(abs(k), n)
        out = (f + vals[:n - k]) if k >= 0 else (vals[-k:] + f)
        out = out[:n]
    d = s.dtype
    if k and is_nan(fill_value):
        d = {"int": "float", "bool": "object"}.get(d, d)
    elif k:
        d = upcast(d, fill_value)
    return new(s, [hmap(lambda q: conv(q, d), v) for v in out], d)


@ser("diff")
def _(I, s, periods=1):
    if periods != 1:
        raise U("diff periods")
    d = {"M8": "m8", "m8": "m8", "bool": "object"}.get(s.dtype, "float")
    if not s.cells:
        return new(s, [], d)
    vals = s.vals
    if anyH(vals):
        out = vdiff(I, vals, s.dtype)
        if len(out) != len(vals) - 1:
            raise U("diff over a run")
        return new(s, [NAN] + out, d)
    return new(s, [NAN] + vdiff(I, vals, s.dtype), d)


@ser("cumsum")
def _(I, s, axis=None, skipna=True, *a, **k):
    vals = [hmap(lambda q: int(q) if isinstance(q, bool) else q, v) for v in s.vals]
    return new(s, vcumsum(I, vals, skipna), "int" if s.dtype == "bool" else s.dtype)


def _cumext(big):
    def f(I, s, axis=None, skipna=True):
        if anyH(s.vals):
            raise U("cumulative extremum over a run")
        out, best = [], None
        for v in s.vals:
            if isnull(v):
                out.append(v)
                continue
            if best is None or (lcmp(I, v, best) > 0) == big and lcmp(I, v, best) != 0:
                best = v
            out.append(best)
        return new(s, out)
    return f


ser("cummax")(_cumext(True))
ser("cummin")(_cumext(False))


@ser("sum")
def _(I, s, axis=None, skipna=True, numeric_only=False, min_count=0):
    if s.ext is not None:
        return I.call(I.getattr(s.ext, "_reduce"), ["sum"], {"skipna": skipna})
    r = red_sum(I, s.vals, s.dtype, skipna, min_count)
    return r


def _extred(name, big):
    def f(I, s, axis=None, skipna=True, numeric_only=False):
        if s.ext is not None:
            return I.call(I.getattr(s.ext, "_reduce"), [name], {"skipna": skipna})
        return outnum(red_ext(I, s.vals, big, skipna), s.dtype)
    return f


ser("max")(_extred("max", True))
ser("min")(_extred("min", False))


@ser("mean")
def _(I, s, axis=None, skipna=True, numeric_only=False):
    if s.ext is not None:
        return I.call(I.getattr(s.ext, "_reduce"), ["mean"], {"skipna": skipna})
    return red_mean(I, s.vals, s.dtype, skipna)


@ser("median")
def _(I, s, axis=None, skipna=True, numeric_only=False):
    if s.ext is not None:
        return I.call(I.getattr(s.ext, "_reduce"), ["median"], {"skipna": skipna})
    return red_median(I, s.vals, skipna)


@ser("var")
def _(I, s, axis=None, skipna=True, ddof=1, numeric_only=False):
    return red_var(I, s.vals, ddof, skipna)


@ser("std")
def _(I, s, axis=None, skipna=True, ddof=1, numeric_only=False):
    v = red_var(I, s.vals, ddof, skipna)
    return v if is_nan(v) else sqrt_(v)


@ser("prod", "product")
def _(I, s, axis=None, skipna=True):
    if anyH(s.vals):
        raise U("product over a run")
    r = 1
    for v in nonnull(s.vals):
        r = I.scalar_binop("*", r, v)
    return r


@ser("count")
def _(I, s):
    return vcount(nonnull(s.vals))


@ser("any")
def _(I, s, axis=0, bool_only=False, skipna=True):
    return red_any(I, s.vals)


@ser("all")
def _(I, s, axis=0, bool_only=False, skipna=True):
    return red_all(I, s.vals)


def uniq(I, vals):
    if anyH(vals):
        raise U("unique over a run")
    out = []
    for v in vals:
        if not any(leq(I, v, w) for w in out):
            out.append(v)
    return out


@ser("unique")
def _(I, s):
    return Arr(cells(uniq(I, s.vals)), s.dtype)


@ser("nunique")
def _(I, s, dropna=True):
    return len(uniq(I, nonnull(s.vals) if dropna else s.vals))


@ser("value_counts")
def _(I, s, *a, **k):
    return Unknown("value_counts")


def argext(I, vals, big):
    if anyH(vals):
        raise U("extremum over a run")
    best = None
    for j, v in enumerate(vals):
        if isnull(v):
            continue
        if best is None:
            best = j
            continue
        c = lcmp(I, v, vals[best])
        if c != 0 and (c > 0) == big:
            best = j
    return best


def _idxext(big):
    def f(I, s, axis=0, skipna=True):
        if not s.cells:
            raise_("ValueError", "attempt to get argmax of an empty sequence")
        j = argext(I, s.vals, big)
        if j is None:
            return NAN
        return out_scalar(s.idx.vals[j], s.idx.dtype, True)
    return f


ser("idxmax")(_idxext(True))
ser("idxmin")(_idxext(False))


def _argext(big):
    def f(I, s, axis=None, skipna=True):
        j = argext(I, s.vals, big)
        if j is None:
            raise_("ValueError", "attempt to get argmax of an empty sequence")
        return j
    return f


ser("argmax")(_argext(True))
ser("argmin")(_argext(False))


@ser("sort_index")
def _(I, s, axis=0, level=None, ascending=True, inplace=False, **k):
    js = sort_entries(I, list(range(len(s.cells))), key=lambda j: s.idx.vals[j])
    if not I.truth(ascending):
        if anyH(s.vals):
            raise U("descending run")
        js = js[::-1]
    return inplace_done(I, s, ser_take(s, js), inplace)


@ser("sort_values")
def _(I, s, axis=0, ascending=True, inplace=False, **k):
    if anyH(s.vals):
        raise U("sort of a run")
    js = sort_entries(I, list(range(len(s.cells))), key=lambda j: s.cells[j].v)
    if not I.truth(ascending):
        nn = [j for j in js if not isnull(s.cells[j].v)]
        js = nn[::-1] + [j for j in js if isnull(s.cells[j].v)]
    return inplace_done(I, s, ser_take(s, js), inplace)


@ser("drop")
def _(I, s, labels=None, axis=0, index=None, columns=None, level=None, inplace=False, errors="raise"):
    if labels is None:
        labels = index
    labs = entries(I, labels)[0] if is_listlike(labels) else [labels]
    js = set()
    for lab in labs:
        j = find_label(I, s.idx.vals, lab)
        if j is None:
            if errors == "ignore":
                continue
            raise_("KeyError", lab)
        js.add(j)
    r = ser_take(s, [j for j in range(len(s.cells)) if j not in js])
    return inplace_done(I, s, r, inplace)


@ser("dropna")
def _(I, s, axis=0, inplace=False, how=None, ignore_index=False):
    keep = []
    for j, v in enumerate(s.vals):
        n = hval(isnull(v))
        if isinstance(n, TopH):
            raise U("dropna over a summarised run")
        if not n:
            keep.append(j)
    return inplace_done(I, s, ser_take(s, keep), inplace)


@ser("reindex")
def _(I, s, index=None, axis=None, method=None, copy=None, level=None, fill_value=NAN, limit=None, tolerance=None):
    if limit is not None or tolerance is not None:
        raise U("reindex limit")
    return reindex(I, s, mk_index(I, index), method, fill_value)


@ser("reindex_like")
def _(I, s, other, method=None, **k):
    return reindex(I, s, other.idx, method)


@ser("rename")
def _(I, s, index=None, axis=None, copy=None, inplace=False, level=None, errors="ignore"):
    if callable_(index) or isinstance(index, PyDict):
        if isinstance(index, PyDict):
            f = lambda v: index.d[I.hkey(v)][1] if not isinstance(v, H) and I.hkey(v) in index.d else v
        else:
            f = lambda v: hmap(lambda q: I.call(index, [q], {}), v)
        vals = [f(v) for v in s.idx.vals]
        r = Ser(mk_index(I, PyList(vals)), cells(s.vals), s.dtype, s.name)
        return inplace_done(I, s, r, inplace)
    if inplace:
        s.name = index
        return None
    r = new(s, s.vals, name=index)
    r.ext = s.ext
    return r


@ser("rename_axis", "set_flags", "infer_objects", "convert_dtypes")
def _(I, s, *a, **k):
    return new(s, s.vals)


@ser("set_axis")
def _(I, s, labels, axis=0, copy=None):
    return Ser(mk_index(I, labels), cells(s.vals), s.dtype, s.name)


@ser("reset_index")
def _(I, s, level=None, drop=False, name=None, inplace=False, allow_duplicates=False):
    if drop:
        r = Ser(range_index(s.vals), cells(s.vals), s.dtype, s.name)
        r.ext = s.ext
        return inplace_done(I, s, r, inplace)
    df = DF(range_index(s.vals), {})
    df.cols[s.idx.name or "index"] = (cells(s.idx.vals), s.idx.dtype)
    df.cols[name or s.name or 0] = (cells(s.vals), s.dtype)
    return df


@ser("to_frame")
def _(I, s, name=None):
    nm = name if name is not None else s.name
    if nm is None:
        nm = 0
    return DF(s.idx, {nm: (s.cells, s.dtype)})


@ser("to_list", "tolist")
def _(I, s):
    return PyList([iter_scalar(v, s.dtype) for v in s.vals], I.epoch())


@ser("to_numpy", "__array__")
def _(I, s, dtype=None, copy=False, na_value=None):
    if s.ext is not None:
        return Arr(cells(s.vals), "object")
    a = ser_values(s)
    if dtype is not None:
        d = parse_dtype(dtype)
        if d != a.dtype:
            return Arr(cells(cast(I, a.vals, a.dtype, d)), d)
    return Arr(cells(a.vals), a.dtype) if copy else a


def ser_values(s):
    if s.ext is not None:
        return s.ext
    if s.dtype == "M8" and any(isinstance(hval(v), Lab) and hval(v).tz for v in s.vals):
        return Arr(cells([hmap(lambda v: Lab("ts", v.x, None, "np") if isinstance(v, Lab) else v, v) for v in s.vals]), "M8")
    return Arr(s.cells, s.dtype)


@ser("to_dict")
def _(I, s, into=None):
    d = PyDict({}, I.epoch())
    for k, v in zip(s.idx.vals, s.vals):
        if isinstance(v, H):
            return Unknown("dict of a run")
        d.d[I.hkey(k, d.d)] = (out_scalar(k, s.idx.dtype, True), iter_scalar(v, s.dtype))
    return d


@ser("items", "iteritems")
def _(I, s):
    return PyIter([hmap(lambda a, b: (a, b), iter_scalar(k, s.idx.dtype), iter_scalar(v, s.dtype)) for k, v in zip(s.idx.vals, s.vals)])


@ser("keys")
def _(I, s):
    return s.idx


@ser("groupby")
def _(I, s, by=None, axis=0, level=None, as_index=True, sort=True, group_keys=True, observed=None, dropna=True):
    if level is not None:
        if level != 0:
            raise U("groupby level")
        return GroupBy(s, list(s.idx.vals), sort, dropna, s.idx.dtype, s.idx.name)
    if callable_(by):
        by = PyList([I.call(by, [v], {}) for v in s.idx.vals])
    if isinstance(by, Ser) and not same_index(I, by.idx, s.idx):
        by = reindex(I, by, s.idx)
    vals, d = entries(I, by)
    if len(vals) != len(s.cells):
        raise_("ValueError", "Grouper and axis must be same length")
    return GroupBy(s, vals, sort, dropna, d or infer_dtype(vals), getattr(by, "name", None))


def groups(I, g):
    ks, rows = [], []
    for k, v in zip(g.keys, g.s.vals):
        n = hval(isnull(k))
        if isinstance(n, TopH):
            raise U("group key over a run")
        if n and g.dropna:
            continue
        if isinstance(k, H):
            # a run of labels forms its own groups when nothing else carries its labels
            for j, q in enumerate(ks):
                if isinstance(q, H) and q.hid == k.hid and definitely_equal(q.val, k.val):
                    rows[j].append(v)
                    break
            else:
                if not any_label_run(k):
                    raise U("grouping of a summarised run")
                for q in ks:
                    if not isinstance(q, H) and lcmp(I, k, q) == 0:
                        raise U("label in run")
                ks.append(k)
                rows.append([v])
            continue
        for j, q in enumerate(ks):
            if isinstance(q, H):
                if lcmp(I, q, k) == 0:
                    raise U("label in run")
                continue
            if (isnull(q) and n) or (not n and not isnull(q) and leq(I, q, k)):
                rows[j].append(v)
                break
        else:
            ks.append(k)
            rows.append([v])
    order = list(range(len(ks)))
    if g.sort:
        order = sort_entries(I, order, key=lambda j: ks[j])
    return [(ks[j], rows[j]) for j in order]


def any_label_run(k):
    return ("len", k.hid) in C.cur().telescope


def group_reduce(I, g, f, dtype=None):
    gs = groups(I, g)
    ks = [k for k, _ in gs]
    vals = []
    for k, rows in gs:
        if isinstance(k, H):
            vals.append(hmap(lambda *rs: f(list(rs)), *rows))
        else:
            vals.append(f(rows))
    kd = g.kdtype
    if kd == "object":
        kd = infer_dtype(ks) if ks else "object"
    d = dtype or g.s.dtype
    if any(is_nan(hval(v)) for v in vals) and d == "int":
        d = "float"
    return Ser(Idx(ks, kd, g.kname), cells([hmap(lambda q: conv(q, d), v) for v in vals]), d, g.s.name)


def group_method(I, g, name):
    s = g.s
    def red(I, *a, skipna=True, numeric_only=False, min_count=0, **k):
        if name == "sum":
            def f(rows):
                vs = nonnull(rows)
                if len(vs) < min_count:
                    return NAN
                r = vsum(I, vs)
                return Lab("td", num(0), None, "np") if (isinstance(r, int) and r == 0 and s.dtype == "m8") else r
            return group_reduce(I, g, f, "int" if s.dtype == "bool" else None)
        if name in ("min", "max"):
            return group_reduce(I, g, lambda rows: red_ext(I, rows, name == "max"))
        if name == "mean":
            return group_reduce(I, g, lambda rows: red_mean(I, rows, s.dtype), "float" if s.dtype in NUMD else None)
        if name == "median":
            return group_reduce(I, g, lambda rows: red_median(I, rows))
        if name == "first":
            return group_reduce(I, g, lambda rows: (nonnull(rows) or [NAN])[0])
        if name == "last":
            return group_reduce(I, g, lambda rows: (nonnull(rows) or [NAN])[-1])
        if name == "count":
            return group_reduce(I, g, lambda rows: len(nonnull(rows)), "int")
        if name == "size":
            return group_reduce(I, g, lambda rows: len(rows), "int")
        raise U(f"groupby.{name}")
    if name in ("sum", "min", "max", "mean", "median", "first", "last", "count", "size"):
        return ExtFunc(f"groupby.{name}", red)
    if name in ("agg", "aggregate", "apply"):
        def agg(I, func, *a, **k):
            if isinstance(func, str):
                return I.call(group_method(I, g, func), [], {})
            nm = getattr(func, "name", None)
            if isinstance(func, ExtFunc) and nm in ("numpy.sum", "builtins.sum"):
                return I.call(group_method(I, g, "sum"), [], {})
            def f(rows):
                return I.call(func, [Ser(range_index(rows), cells(rows), s.dtype, s.name)] + list(a), k)
            return group_reduce(I, g, f)
        return ExtFunc(f"groupby.{name}", agg)
    return Unknown(f"groupby.{name}")


def map_entries(I, s_vals, dtype, f):
    out = []
    for v in s_vals:
        if isinstance(v, H):
            try:
                r = f(iter_scalar(v.val, dtype))
                if isinstance(r, Unknown):
                    raise U(r.reason)
                out.append(H(v.hid, r))
            except HoleDecision:
                out.append(H(v.hid, TOPH))
        else:
            r = f(iter_scalar(v, dtype))
            if isinstance(r, Unknown):
                raise U(r.reason)
            out.append(r)
    return out


@ser("map")
def _(I, s, arg, na_action=None):
    if isinstance(arg, (PyDict, Ser)):
        m = mk_series(I, arg) if isinstance(arg, PyDict) else arg
        out = []
        for v in s.vals:
            j = find_label(I, m.idx.vals, v)
            out.append(m.cells[j].v if j is not None else NAN)
        return new(s, out, infer_dtype(out) if out else "object")
    def f(v):
        if na_action == "ignore" and isnull(v):
            return v
        return I.call(arg, [v], {})
    out = map_entries(I, s.vals, s.dtype, f)
    d = infer_dtype(out) if out else s.dtype
    if d == "interval":
        d = "object"
    return new(s, [hmap(lambda q: conv(q, d), v) for v in out], d)


@ser("apply", "transform")
def _(I, s, func, convert_dtype=None, args=(), by_row="compat", **kw):
    if isinstance(func, str):
        return I.call(ext_method(I, s, func), list(args), kw)
    if isinstance(func, ExtFunc) and func.name.startswith("numpy."):
        return I.call(func, [s] + list(args), kw)
    out = map_entries(I, s.vals, s.dtype, lambda v: I.call(func, [v] + list(args), kw))
    if out and isinstance(hval(out[0]), Ser):
        if anyH(out):
            raise U("frame from a run")
        return mk_frame(I, PyList(out), s.idx)
    d = infer_dtype(out) if out else s.dtype
    return new(s, [hmap(lambda q: conv(q, d), v) for v in out], d)


@ser("agg", "aggregate")
def _(I, s, func=None, axis=0, *args, **kw):
    if isinstance(func, str):
        return I.call(ext_method(I, s, func), list(args), kw)
    return Unknown("Series.agg")


@ser("pipe")
def _(I, s, func, *a, **k):
    return I.call(func, [s] + list(a), k)


@ser("equals")
def _(I, s, other):
    if not isinstance(other, Ser):
        return False
    if len(s.cells) != len(other.cells):
        if anyH(s.vals) or anyH(other.vals):
            raise U("comparison of runs")
        return False
    # pandas compares index and block dtypes as well
    if s.dtype != other.dtype:
        return False
    if s.cells and {s.idx.dtype, other.idx.dtype} <= {"int", "float"} and s.idx.dtype != other.idx.dtype:
        pass        # Index.equals ignores int/float
    for a, b in zip(s.idx.vals, other.idx.vals):
        if isinstance(a, H) != isinstance(b, H):
            raise U("comparison of runs")
        if not leq(I, a, b):
            return False
    for a, b in zip(s.vals, other.vals):
        if isinstance(a, H):
            if definitely_equal(a, b):
                continue
            raise U("comparison of runs")
        na, nb = isnull(a), isnull(b)
        if na or nb:
            if na and nb:
                continue
            return False
        if not I.truth(I.compare("==", a, b)):
            return False
    return True


def replace_entries(I, s, to_replace, value, method):
    pairs = []
    if isinstance(to_replace, PyDict):
        pairs = [(k, v) for k, v in to_replace.d.values()]
    else:
        olds = entries(I, to_replace)[0] if is_listlike(to_replace) else [to_replace]
        if is_listlike(value):
            news = entries(I, value)[0]
            pairs = list(zip(olds, news))
        else:
            if isinstance(value, ExtFunc):
                raise U("replace without value")
            pairs = [(o, value) for o in olds]
    out = []
    hit = False
    for v in s.vals:
        def f(q):
            for o, nw in pairs:
                if isinstance(q, TopH):
                    return q
                if isnull(o) is True:
                    if isnull(q) is True:
                        return ("hit", nw)
                elif isnull(q) is True:
                    continue
                elif I.truth(I.compare("==", q, o)):
                    return ("hit", nw)
            return q
        r = hmap(f, v)
        g = hval(r)
        if isinstance(g, tuple) and g and g[0] == "hit":
            hit = True
            r = H(v.hid, g[1]) if isinstance(v, H) else g[1]
        out.append(r)
    d = s.dtype
    if hit:
        for v in out:
            d = upcast(d, v)
        if d == "object" and infer_dtype(out) != "object":
            d = infer_dtype(out)
    return new(s, [hmap(lambda q: conv(q, d), v) for v in out], d)


NODEF = ExtFunc("no_default", None)


@ser("replace")
def _(I, s, to_replace=None, value=NODEF, inplace=False, limit=None, regex=False, method=None):
    return inplace_done(I, s, replace_entries(I, s, to_replace, value, method), inplace)


@ser("round")
def _(I, s, decimals=0, *a, **k):
    return new(s, [hmap(lambda q: q if isnull(q) or isinstance(q, TopH) else fn_round(q, decimals), v) for v in s.vals])


def fn_round(q, dec=0):
    if isinstance(q, (int, float)) and not isinstance(q, bool):
        return round(q, dec) if isinstance(dec, int) and isinstance(q, float) else q
    if isinstance(q, Num) and q.is_const() and q.const().denominator == 1:
        return q
    return fn_atom("round", q, dec if is_number(dec) else 0)


@ser("clip")
def _(I, s, lower=None, upper=None, axis=None, inplace=False):
    def f(q):
        if isnull(q) or isinstance(q, TopH):
            return q
        if lower is not None and not isnull(lower) and I.truth(I.compare("<", q, lower)):
            q = lower
        if upper is not None and not isnull(upper) and I.truth(I.compare(">", q, upper)):
            q = upper
        return q
    if is_listlike(lower) or is_listlike(upper):
        return Unknown("clip by vector")
    return inplace_done(I, s, new(s, [hmap(f, v) for v in s.vals]), inplace)


@ser("abs")
def _(I, s):
    return new(s, [hmap(lambda q: abs_(I, q), v) for v in s.vals])


def abs_(I, q):
    if isinstance(q, TopH) or isnull(q):
        return q
    if isinstance(q, Lab):
        return Lab("td", to_num(abs_(I, q.x)), None, q.flav)
    if isinstance(q, Num):
        sg = sign_of(q)
        return simp(nneg_(q)) if sg < 0 else q
    return abs(q)


def nneg_(q):
    from .terms import nneg
    return nneg(q)


@ser("combine")
def _(I, s, other, func, fill_value=None):
    if isinstance(other, Ser):
        idx, a, b = align(I, s, other)
        if fill_value is not None:
            a = [fill_value if isnull(x) is True and find_label(I, s.idx.vals, l) is None else x for x, l in zip(a, idx.vals)]
            b = [fill_value if isnull(x) is True and find_label(I, other.idx.vals, l) is None else x for x, l in zip(b, idx.vals)]
        vals = [hmap(lambda x, y: I.call(func, [x, y], {}), x, y) for x, y in zip(a, b)]
    else:
        idx = s.idx
        vals = [hmap(lambda x: I.call(func, [x, other], {}), x) for x in s.vals]
    return Ser(idx, cells(vals), infer_dtype(vals), s.name)


@ser("combine_first")
def _(I, s, other):
    idx, a, b = align(I, s, other)
    vals = [y if hval(isnull(x)) else x for x, y in zip(a, b)]
    return Ser(idx, cells(vals), common_dtype(s.dtype, other.dtype), s.name)


@ser("first_valid_index")
def _(I, s):
    for k, v in zip(s.idx.vals, s.vals):
        n = hval(isnull(v))
        if isinstance(n, TopH) or (isinstance(v, H) and not n):
            raise U("first valid of a run")
        if not n:
            return out_scalar(k, s.idx.dtype, True)
    return None


@ser("last_valid_index")
def _(I, s):
    for k, v in reversed(list(zip(s.idx.vals, s.vals))):
        n = hval(isnull(v))
        if isinstance(n, TopH):
            raise U("last valid of a run")
        if not n:
            return out_scalar(rename_last(k.val, k.hid) if isinstance(k, H) else k, s.idx.dtype, True)
    return None


@ser("isin")
def _(I, s, values):
    vs = entries(I, values)[0]
    return new(s, [hmap(lambda q: any(leq(I, q, w) for w in vs), v) for v in s.vals], "bool")


@ser("between")
def _(I, s, left, right, inclusive="both"):
    a = "<=" if inclusive in ("both", "left") else "<"
    b = "<=" if inclusive in ("both", "right") else "<"
    return new(s, [hmap(lambda q: I.truth(I.compare(a, left, q)) and I.truth(I.compare(b, q, right)), v) for v in s.vals], "bool")


@ser("head")
def _(I, s, n=5):
    return ser_slice(s, slice_entries(s.vals, PySlice(None, n, None)))


@ser("tail")
def _(I, s, n=5):
    if n == 0:
        return ser_slice(s, slice(0, 0))
    return ser_slice(s, slice_entries(s.vals, PySlice(-n, None, None)))


def dup_flags(I, vals, keep):
    if anyH(vals):
        raise U("duplicates of a run")
    n = len(vals)
    out = []
    for j in range(n):
        others = range(j) if keep == "first" else range(j + 1, n) if keep == "last" else [q for q in range(n) if q != j]
        out.append(any(leq(I, vals[j], vals[q]) for q in others))
    return out


@ser("duplicated")
def _(I, s, keep="first"):
    return new(s, dup_flags(I, s.vals, keep), "bool")


@ser("drop_duplicates")
def _(I, s, keep="first", inplace=False, ignore_index=False):
    f = dup_flags(I, s.vals, keep)
    return inplace_done(I, s, ser_take(s, [j for j, t in enumerate(f) if not t]), inplace)


@ser("get")
def _(I, s, key, default=None):
    j = find_label(I, s.idx.vals, key)
    return default if j is None else out_scalar(s.cells[j].v, s.dtype, True)


@ser("item", "squeeze")
def _(I, s):
    if len(s.cells) == 1 and not anyH(s.vals):
        return out_scalar(s.vals[0], s.dtype, True)
    return Unknown("item")


@ser("pop")
def _(I, s, item):
    j = find_label(I, s.idx.vals, item)
    if j is None:
        raise_("KeyError", item)
    v = s.cells[j].v
    inplace_done(I, s, ser_take(s, [q for q in range(len(s.cells)) if q != j]), True)
    return out_scalar(v, s.dtype, True)


@ser("take")
def _(I, s, indices, axis=0, **k):
    return ser_iloc(I, s, indices if is_listlike(indices) else PyList([indices]))


@ser("repeat")
def _(I, s, repeats, axis=None):
    return Unknown("repeat")


@ser("truncate")
def _(I, s, before=None, after=None, axis=None, copy=None):
    r = ser_slice(s, label_slice(I, s.idx, before, after))
    return new(r, r.vals)


@ser("update")
def _(I, s, other):
    for k, v in zip(other.idx.vals, other.vals):
        if isnull(v) is not True:
            ser_set(I, s, k, v, "loc")


@ser("dot")
def _(I, s, other):
    o = other.vals if isinstance(other, (Ser, Arr, Idx)) else entries(I, other)[0]
    return vsum(I, [hmap(lambda x, y: I.scalar_binop("*", x, y), x, y) for x, y in pairup(s.vals, o)])


@ser("searchsorted")
def _(I, s, value, side="left", sorter=None):
    from . import npm
    return npm.searchsorted(I, ser_values(s), value, side)


@ser("append")
def _(I, s, *a, **k):
    raise_("AttributeError", "'Series' object has no attribute 'append'")


@ser("quantile", "mode", "interpolate", "rolling", "expanding", "ewm", "nlargest", "nsmallest", "describe", "explode",
     "autocorr", "corr", "cov", "plot", "hist", "str", "dt", "cat", "align", "compare", "rank", "resample", "asof", "at_time",
     "between_time", "tz_localize", "tz_convert", "xs", "unstack", "to_string", "to_csv", "memory_usage", "skew", "kurt", "sem")
def _(I, s, *a, **k):
    return Unknown("Series method not modelled")


@ser("astype")
def _(I, s, dtype, copy=None, errors="raise"):
    d = parse_dtype(dtype)
    if isinstance(d, Inst) or d in getattr(I, "ext_dtypes", {}):
        return ext_series(I, s, None, d, s.name)
    return new(s, cast(I, s.vals, s.dtype, d), d)


# ---------------------------------------------------------------- attributes

def ext_method(I, o, name):
    r = ext_getattr_vec(I, o, name)
    return r


SER_PROPS = {
    "index": lambda I, s: s.idx,
    "values": lambda I, s: ser_values(s),
    "array": lambda I, s: ser_values(s),
    "_values": lambda I, s: ser_values(s),
    "name": lambda I, s: s.name,
    "dtype": lambda I, s: dtype_of(I, s),
    "dtypes": lambda I, s: dtype_of(I, s),
    "empty": lambda I, s: len(s.cells) == 0,
    "size": lambda I, s: vlen(s.vals),
    "shape": lambda I, s: (vlen(s.vals),),
    "ndim": lambda I, s: 1,
    "iloc": lambda I, s: Indexer("iloc", s),
    "loc": lambda I, s: Indexer("loc", s),
    "iat": lambda I, s: Indexer("iat", s),
    "at": lambda I, s: Indexer("at", s),
    "T": lambda I, s: s,
    "hasnans": lambda I, s: red_any(I, [isnull(v) for v in s.vals]),
    "is_unique": lambda I, s: not any(dup_flags(I, s.vals, "first")),
    "is_monotonic_increasing": lambda I, s: is_sorted(I, s.vals),
    "axes": lambda I, s: PyList([s.idx]),
    "attrs": lambda I, s: PyDict({}),
}


def dtype_of(I, s):
    if getattr(s, "ext", None) is not None:
        return I.getattr(s.ext, "dtype")
    return DtypeObj(s.dtype)


def bind(table, o, name):
    f = table.get(name)
    return Bound(f, o) if f is not None else None


def ext_getattr_vec(I, o, name):
    if isinstance(o, Ser):
        p = SER_PROPS.get(name)
        if p is not None:
            return p(I, o)
        acc = getattr(I, "accessors", {}).get(name)
        if acc is not None:
            return I.call(acc, [o], {})
        b = bind(SER, o, name)
        if b is not None:
            return b
        for k in o.idx.vals:
            if isinstance(k, str) and k == name:
                return ser_loc(I, o, name)
        if name in ("_data",):
            return Unknown("block manager")
        if name not in ATTRS["Series"]:
            raise_("AttributeError", f"'Series' object has no attribute '{name}'")
        return Unknown(f"Series.{name}")
    if isinstance(o, Idx):
        p = IDX_PROPS.get(name)
        if p is not None:
            return p(I, o)
        b = bind(IDX, o, name)
        if b is not None:
            return b
        return Unknown(f"Index.{name}")
    if isinstance(o, DF):
        p = DF_PROPS.get(name)
        if p is not None:
            return p(I, o)
        if name in o.cols:
            return frame_getitem(I, o, name)
        b = bind(FRAME, o, name)
        if b is not None:
            return b
        if name in SER and name in COLWISE:
            return ExtFunc("frame." + name, lambda I, *a, _o=o, **k: colwise(I, _o, name, a, k))
        return Unknown(f"DataFrame.{name}")
    return Unknown(name)


# ---------------------------------------------------------------- Index

def idx_like(x, vals, dtype=None):
    return Idx(vals, dtype or x.dtype, x.name, x.tz if (dtype or x.dtype) == x.dtype else None, x.closed)


@idxm("union")
def _(I, x, other, sort=None):
    return union(I, x, mk_index(I, other))


@idxm("intersection")
def _(I, x, other, sort=False):
    other = mk_index(I, other)
    return idx_like(x, [v for v in x.vals if find_label(I, other.vals, v) is not None])


@idxm("difference")
def _(I, x, other, sort=None):
    other = mk_index(I, other)
    return idx_like(x, sort_entries(I, [v for v in x.vals if find_label(I, other.vals, v) is None]))


@idxm("append")
def _(I, x, other):
    os = [other] if isinstance(other, Idx) else I.iterate(other)
    vals, d = list(x.vals), x.dtype
    for o in os:
        if o.vals:
            d = o.dtype if not vals else common_dtype(d, o.dtype)
        vals += o.vals
    return Idx(vals, d, x.name, x.tz, x.closed)


@idxm("to_list", "tolist")
def _(I, x):
    return PyList([iter_scalar(v, x.dtype) for v in x.vals], I.epoch())


def idx_values(x):
    if x.dtype == "M8":
        return Arr(cells([hmap(lambda v: Lab("ts", v.x, None, "np") if isinstance(v, Lab) else v, v) for v in x.vals]), "M8")
    return Arr(cells([conv(v, x.dtype) for v in x.vals]), x.dtype)


@idxm("to_numpy", "__array__")
def _(I, x, dtype=None, copy=False, na_value=None):
    if x.dtype == "M8" and x.tz is not None:
        return Arr(cells([hmap(lambda v: Lab("ts", v.x, v.tz, "pd") if isinstance(v, Lab) else v, v) for v in x.vals]), "object")
    return idx_values(x)


@idxm("to_series")
def _(I, x, index=None, name=None):
    return Ser(mk_index(I, index) if index is not None else x, cells(x.vals), x.dtype, name or x.name)


@idxm("isna", "isnull")
def _(I, x):
    return Arr(cells([isnull(v) for v in x.vals]), "bool")


@idxm("notna", "notnull")
def _(I, x):
    return Arr(cells([hmap(lambda b: b if isinstance(b, TopH) else not b, isnull(v)) for v in x.vals]), "bool")


@idxm("dropna")
def _(I, x, how="any"):
    return idx_like(x, nonnull(x.vals))


@idxm("astype")
def _(I, x, dtype, copy=True):
    d = parse_dtype(dtype)
    return idx_like(x, cast(I, x.vals, x.dtype, d), d)


@idxm("map")
def _(I, x, mapper, na_action=None):
    if isinstance(mapper, (PyDict, Ser)):
        return Unknown("Index.map by mapping")
    out = map_entries(I, x.vals, x.dtype, lambda v: I.call(mapper, [v], {}))
    d = infer_dtype(out) if out else x.dtype
    return Idx(out, d, x.name)


def _imm(big):
    def f(I, x, axis=None, skipna=True):
        return out_scalar(red_ext(I, x.vals, big), x.dtype, True)
    return f


def _idx_minmax(big):
    def f(I, x, axis=None, skipna=True):
        vs = nonnull(x.vals)
        if anyH(vs) and vs:
            # sorted labels: the extreme is at an end
            if any(not any_label_run(v) for v in vs if isinstance(v, H)):
                raise U("extremum of a run")
            v = vs[-1] if big else vs[0]
            if isinstance(v, H):
                raise U("extremum of a run")
            return out_scalar(v, x.dtype, True)
        return out_scalar(red_ext(I, vs, big), x.dtype, True)
    return f


idxm("max")(_idx_minmax(True))
idxm("min")(_idx_minmax(False))


@idxm("sort_values")
def _(I, x, return_indexer=False, ascending=True, **k):
    vs = sort_entries(I, x.vals)
    if not I.truth(ascending):
        vs = vs[::-1]
    return idx_like(x, vs)


@idxm("unique", "drop_duplicates")
def _(I, x, *a, **k):
    if anyH(x.vals):
        return x
    return idx_like(x, uniq(I, x.vals))


@idxm("duplicated")
def _(I, x, keep="first"):
    return Arr(cells(dup_flags(I, x.vals, keep)), "bool")


@idxm("get_loc")
def _(I, x, key):
    j = find_label(I, x.vals, key)
    if j is None:
        raise_("KeyError", key)
    return nprefix(x.vals)[j]


@idxm("get_indexer")
def _(I, x, target, method=None, limit=None, tolerance=None):
    if anyH(x.vals):
        raise U("get_indexer with runs")
    pos = Ser(x, cells(list(range(len(x.vals)))), "int")
    r = reindex(I, pos, mk_index(I, target), method, -1)
    return Arr(cells(r.vals), "int")


@idxm("searchsorted")
def _(I, x, value, side="left", sorter=None):
    from . import npm
    if x.dtype == "M8" and x.tz is not None:
        return npm.searchsorted(I, Arr(cells(x.vals), "M8"), value, side, True)
    return npm.searchsorted(I, idx_values(x), value, side)


@idxm("insert")
def _(I, x, loc, item):
    vals = list(x.vals)
    i = I.as_int(loc)
    vals.insert(i, item)
    d = upcast(x.dtype, item) if x.vals else scalar_dtype(item)
    if x.dtype == "int" and d == "float" or can_hold(x.dtype, item):
        pass
    return Idx([conv(v, d) for v in vals], d, x.name, x.tz)


@idxm("delete")
def _(I, x, loc):
    j, _h = locate(x.vals, loc)
    vals = list(x.vals)
    del vals[j]
    return idx_like(x, vals)


@idxm("equals", "identical")
def _(I, x, other):
    if not isinstance(other, Idx):
        return False
    return same_index(I, x, other)


@idxm("rename")
def _(I, x, name, inplace=False):
    return Idx(x.vals, x.dtype, name, x.tz, x.closed)


@idxm("copy", "view", "sort", "infer_objects")
def _(I, x, *a, **k):
    return Idx(x.vals, x.dtype, x.name, x.tz, x.closed)


@idxm("take")
def _(I, x, indices, **k):
    return idx_getitem(I, x, indices)


@idxm("isin")
def _(I, x, values, level=None):
    vs = entries(I, values)[0]
    return Arr(cells([hmap(lambda q: any(leq(I, q, w) for w in vs), v) for v in x.vals]), "bool")


@idxm("where")
def _(I, x, cond, other=NAN):
    r = _where(I, Ser(x, cells(x.vals), x.dtype), cond, other, False)
    return Idx(r.vals, r.dtype, x.name)


@idxm("shift")
def _(I, x, *a, **k):
    return Unknown("Index.shift")


@idxm("to_frame")
def _(I, x, index=True, name=None):
    return DF(x if index else range_index(x.vals), {name or x.name or 0: (cells(x.vals), x.dtype)})


@idxm("tz_convert")
def _(I, x, tz):
    if x.tz is None:
        raise_("TypeError", "Cannot convert tz-naive timestamps, use tz_localize to localize")
    z = tz if isinstance(tz, str) or tz is None else str(tz)
    return Idx([hmap(lambda v: Lab("ts", v.x, z, "pd") if isinstance(v, Lab) else v, v) for v in x.vals], x.dtype, x.name, z)


@idxm("tz_localize")
def _(I, x, tz, *a, **k):
    if x.tz is not None and tz is not None:
        raise_("TypeError", "Already tz-aware, use tz_convert to convert.")
    z = tz if isinstance(tz, str) or tz is None else str(tz)
    return Idx([hmap(lambda v: Lab("ts", v.x, z, "pd") if isinstance(v, Lab) else v, v) for v in x.vals], x.dtype, x.name, z)


@idxm("contains", "overlaps")
def _(I, x, key):
    if x.dtype != "interval":
        return Unknown("Index.contains")
    out = []
    for v in x.vals:
        v = hval(v)
        out.append(iv_contains(I, v, key))
    return Arr(cells(out), "bool")


def iv_contains(I, v, k):
    a = "<=" if v.closed in ("left", "both") else "<"
    b = "<=" if v.closed in ("right", "both") else "<"
    return I.truth(I.compare(a, v.left, k)) and I.truth(I.compare(b, k, v.right))


@idxm("set_closed")
def _(I, x, closed):
    return Idx([Iv(v.left, v.right, closed) for v in x.vals], "interval", x.name, None, closed)


@idxm("to_tuples")
def _(I, x, na_tuple=True):
    return Idx([(v.left, v.right) for v in x.vals], "object")


def iv_part(x, f, dtype_of_=None):
    vals = [hmap(f, v) for v in x.vals]
    return Idx(vals, infer_dtype(vals))


def iv_nonoverlap(I, x):
    vs = x.vals
    if anyH(vs):
        raise U("intervals of a run")
    def one(vs):
        for a, b in zip(vs, vs[1:]):
            c = lcmp(I, a.right, b.left)
            if c > 0 or (c == 0 and x.closed == "both"):
                return False
        return True
    return one(vs) or one(vs[::-1])


def iv_overlapping(I, x):
    vs = sort_entries(I, x.vals)
    for a, b in zip(vs, vs[1:]):
        c = lcmp(I, a.right, b.left)
        if c > 0 or (c == 0 and x.closed == "both"):
            return True
    return False


IDX_PROPS = {
    "values": lambda I, x: idx_values(x) if x.dtype != "interval" else Arr(cells(x.vals), "object"),
    "_values": lambda I, x: idx_values(x) if x.dtype != "interval" else Arr(cells(x.vals), "object"),
    "array": lambda I, x: idx_values(x),
    "dtype": lambda I, x: DtypeObj(x.dtype if not (x.dtype == "M8" and x.tz) else "M8tz"),
    "name": lambda I, x: x.name,
    "names": lambda I, x: PyList([x.name]),
    "empty": lambda I, x: len(x.vals) == 0,
    "size": lambda I, x: vlen(x.vals),
    "shape": lambda I, x: (vlen(x.vals),),
    "ndim": lambda I, x: 1,
    "nlevels": lambda I, x: 1,
    "T": lambda I, x: x,
    "is_monotonic_increasing": lambda I, x: is_sorted(I, x.vals) if not any(isnull(v) is True for v in x.vals) else False,
    "is_monotonic_decreasing": lambda I, x: is_sorted(I, x.vals[::-1]),
    "is_monotonic": lambda I, x: is_sorted(I, x.vals),
    "is_unique": lambda I, x: not any(dup_flags(I, x.vals, "first")),
    "has_duplicates": lambda I, x: any(dup_flags(I, x.vals, "first")),
    "hasnans": lambda I, x: red_any(I, [isnull(v) for v in x.vals]),
    "start_time": lambda I, x: iv_part(x, lambda v: v.left) if x.dtype == "period" else Unknown("start_time"),
    "end_time": lambda I, x: iv_part(x, per_end) if x.dtype == "period" else Unknown("end_time"),
    "left": lambda I, x: iv_part(x, lambda v: v.left) if x.dtype == "interval" else Unknown("left"),
    "right": lambda I, x: iv_part(x, lambda v: v.right) if x.dtype == "interval" else Unknown("right"),
    "mid": lambda I, x: iv_part(x, lambda v: I.scalar_binop("/", I.scalar_binop("+", v.left, v.right), 2)) if x.dtype == "interval" else Unknown("mid"),
    "length": lambda I, x: iv_part(x, lambda v: I.scalar_binop("-", v.right, v.left)) if x.dtype == "interval" else Unknown("length"),
    "closed": lambda I, x: x.closed,
    "closed_left": lambda I, x: x.closed in ("left", "both"),
    "closed_right": lambda I, x: x.closed in ("right", "both"),
    "is_non_overlapping_monotonic": lambda I, x: iv_nonoverlap(I, x),
    "is_overlapping": lambda I, x: iv_overlapping(I, x),
    "tz": lambda I, x: x.tz,
    "inferred_type": lambda I, x: {"float": "floating", "int": "integer", "bool": "boolean", "M8": "datetime64", "m8": "timedelta64", "interval": "interval"}.get(x.dtype, "mixed"),
    "freq": lambda I, x: None,
}


def idx_getitem(I, x, k):
    if isinstance(k, PySlice):
        return idx_like(x, x.vals[slice_entries(x.vals, k)])
    if is_boolvec(I, k):
        m = mask_vals(I, k, len(x.vals))
        return idx_like(x, [v for v, t in zip(x.vals, m) if t])
    if is_listlike(k):
        js = pos_list(I, x.vals, k)
        return idx_like(x, [x.vals[j] for j in js])
    return out_scalar(get_at(x.vals, k), x.dtype, True)


# ---------------------------------------------------------------- DataFrame

DF_PROPS = {
    "index": lambda I, d: d.idx,
    "columns": lambda I, d: mk_index(I, PyList([cn_out(c) for c in d.cols])) if d.cols else Idx([], "object"),
    "values": lambda I, d: frame_values(d),
    "empty": lambda I, d: len(d.idx.vals) == 0 or not d.cols,
    "shape": lambda I, d: (vlen(d.idx.vals), len(d.cols)),
    "size": lambda I, d: I.scalar_binop("*", vlen(d.idx.vals), len(d.cols)),
    "ndim": lambda I, d: 2,
    "loc": lambda I, d: Indexer("loc", d),
    "iloc": lambda I, d: Indexer("iloc", d),
    "at": lambda I, d: Indexer("at", d),
    "iat": lambda I, d: Indexer("iat", d),
    "dtypes": lambda I, d: Unknown("dtypes"),
    "T": lambda I, d: Unknown("transpose"),
    "axes": lambda I, d: PyList([d.idx]),
}

COLWISE = {"fillna", "ffill", "bfill", "pad", "backfill", "isna", "isnull", "notna", "notnull", "shift", "diff", "cumsum",
           "round", "abs", "where", "mask", "replace", "astype", "clip", "add", "sub", "mul", "truediv", "div", "subtract",
           "multiply", "divide", "radd", "rsub", "rmul", "rdiv", "rtruediv", "eq", "ne", "lt", "le", "gt", "ge", "infer_objects"}


def colwise(I, df, name, a, k):
    inplace = k.pop("inplace", False)
    if name in ("where", "mask") and a and callable_(a[0]):
        a = (I.call(a[0], [df], {}),) + tuple(a[1:])
    out = {}
    for c in df.cols:
        s = col(df, c)
        aa = [col(x, c) if isinstance(x, DF) and c in x.cols else x for x in a]
        kk = {n: (col(x, c) if isinstance(x, DF) and c in x.cols else x) for n, x in k.items()}
        if any(isinstance(x, DF) for x in aa):
            raise U("frame operand")
        if name == "astype" and aa and isinstance(aa[0], PyDict):
            h = I.hkey(c)
            if h not in aa[0].d:
                out[c] = (cells(s.vals), s.dtype)
                continue
            aa = [aa[0].d[h][1]]
        r = SER[name].fn(I, s, *aa, **kk)
        if isinstance(r, Unknown):
            return r
        out[c] = (r.cells, r.dtype)
    if inplace:
        I.touch(df)
        for c, (cs, d) in out.items():
            old, od = df.cols[c]
            if od == d and len(old) == len(cs):
                for x, y in zip(old, cs):
                    x.v = y.v
            else:
                df.cols[c] = (cs, d)
        df.cache = {}
        return None
    return DF(df.idx, out)


@frm("copy")
def _(I, d, deep=True):
    if not I.truth(deep):
        return DF(d.idx, dict(d.cols))
    return DF(d.idx, {c: (cells([x.v for x in cs]), t) for c, (cs, t) in d.cols.items()})


def frame_inplace(I, d, r, inplace):
    if not inplace:
        return r
    I.touch(d)
    d.idx, d.cols, d.cache = r.idx, r.cols, {}
    return None


@frm("set_index")
def _(I, d, keys, drop=True, append=False, inplace=False, verify_integrity=False):
    out = {c: (cells([x.v for x in cs]), t) for c, (cs, t) in d.cols.items()}
    if isinstance(keys, PyList) and len(keys.v) == 1:
        keys = keys.v[0]
    if isinstance(keys, str):
        if keys not in out:
            raise_("KeyError", keys)
        idx = mk_index(I, col(d, keys))
        if drop:
            out.pop(keys)
    else:
        if isinstance(keys, PyList):
            raise U("set_index keys")
        idx = mk_index(I, keys)
        if len(idx.vals) != len(d.idx.vals):
            raise_("ValueError", "Length mismatch")
    return frame_inplace(I, d, DF(idx, out), inplace)


@frm("reset_index")
def _(I, d, level=None, drop=False, inplace=False, **k):
    out = {}
    if not drop:
        out[d.idx.name or "index"] = (cells(d.idx.vals), d.idx.dtype)
    for c, (cs, t) in d.cols.items():
        out[c] = (cells([x.v for x in cs]), t)
    return frame_inplace(I, d, DF(range_index(d.idx.vals), out), inplace)


@frm("set_axis")
def _(I, d, labels, axis=0, copy=None):
    if axis in (0, "index"):
        return DF(mk_index(I, labels), {c: (cells([x.v for x in cs]), t) for c, (cs, t) in d.cols.items()})
    names = I.iterate(labels)
    return DF(d.idx, {n: (cells([x.v for x in cs]), t) for n, (cs, t) in zip(names, d.cols.values())})


@frm("reindex")
def _(I, d, labels=None, index=None, columns=None, axis=None, method=None, fill_value=NAN, **k):
    idx = index if index is not None else labels
    if columns is not None or idx is None:
        raise U("reindex columns")
    idx = mk_index(I, idx)
    out = {}
    for c in d.cols:
        r = reindex(I, col(d, c), idx, method, fill_value)
        out[c] = (r.cells, r.dtype)
    return DF(idx, out)


@frm("drop")
def _(I, d, labels=None, axis=0, index=None, columns=None, level=None, inplace=False, errors="raise"):
    if columns is None and labels is not None and axis in (1, "columns"):
        columns, labels = labels, None
    out = dict(d.cols)
    if columns is not None:
        for n in (entries(I, columns)[0] if is_listlike(columns) else [columns]):
            if n not in out:
                if errors == "ignore":
                    continue
                raise_("KeyError", n)
            out.pop(n)
        r = DF(d.idx, {c: (cells([x.v for x in cs]), t) for c, (cs, t) in out.items()})
        return frame_inplace(I, d, r, inplace)
    labels = labels if labels is not None else index
    js = set()
    for lab in (entries(I, labels)[0] if is_listlike(labels) else [labels]):
        j = find_label(I, d.idx.vals, lab)
        if j is None:
            if errors == "ignore":
                continue
            raise_("KeyError", lab)
        js.add(j)
    r = frame_rows(d, [j for j in range(len(d.idx.vals)) if j not in js])
    return frame_inplace(I, d, r, inplace)


@frm("dropna")
def _(I, d, axis=0, how="any", inplace=False, subset=None, **k):
    keep = []
    for j in range(len(d.idx.vals)):
        ns = [hval(isnull(d.cols[c][0][j].v)) for c in d.cols]
        if any(isinstance(n, TopH) for n in ns):
            raise U("dropna over a run")
        if not (any(ns) if how == "any" else all(ns)):
            keep.append(j)
    return frame_inplace(I, d, frame_rows(d, keep), inplace)


@frm("rename")
def _(I, d, mapper=None, index=None, columns=None, axis=None, copy=None, inplace=False, **k):
    if columns is None and axis in (1, "columns"):
        columns = mapper
    if columns is None:
        return Unknown("rename index")
    f = (lambda c: columns.d[I.hkey(c)][1] if I.hkey(c) in columns.d else c) if isinstance(columns, PyDict) else (lambda c: I.call(columns, [c], {}))
    r = DF(d.idx, {f(c): (cells([x.v for x in cs]), t) for c, (cs, t) in d.cols.items()})
    return frame_inplace(I, d, r, inplace)


@frm("assign")
def _(I, d, **kw):
    r = FRAME["copy"].fn(I, d)
    for k, v in kw.items():
        if callable_(v):
            v = I.call(v, [r], {})
        frame_setcol(I, r, k, v)
    return r


@frm("insert")
def _(I, d, loc, column, value, allow_duplicates=False):
    frame_setcol(I, d, column, value)
    i = I.as_int(loc)
    names = [c for c in d.cols if c != column]
    names.insert(i, column)
    d.cols = {n: d.cols[n] for n in names}


@frm("pop")
def _(I, d, item):
    if item not in d.cols:
        raise_("KeyError", item)
    s = col(d, item)
    s.ref = None
    I.touch(d)
    del d.cols[item]
    d.cache.pop(item, None)
    return s


@frm("sort_index")
def _(I, d, axis=0, ascending=True, inplace=False, **k):
    js = sort_entries(I, list(range(len(d.idx.vals))), key=lambda j: d.idx.vals[j])
    return frame_inplace(I, d, frame_rows(d, js), inplace)


@frm("sort_values")
def _(I, d, *a, **k):
    return Unknown("DataFrame.sort_values")


@frm("keys")
def _(I, d):
    return DF_PROPS["columns"](I, d)


@frm("get")
def _(I, d, key, default=None):
    return frame_getitem(I, d, key) if key in d.cols else default


@frm("items", "iteritems")
def _(I, d):
    return PyIter([(cn_out(c), col(d, c)) for c in d.cols])


@frm("to_numpy", "__array__")
def _(I, d, dtype=None, copy=False, na_value=None):
    a = frame_values(d)
    return Arr2([[Cell(c.v) for c in r] for r in a.rows], a.dtype)


@frm("squeeze")
def _(I, d, axis=None):
    if len(d.cols) == 1:
        return col(d, next(iter(d.cols)))
    return Unknown("squeeze")


@frm("pipe")
def _(I, d, func, *a, **k):
    return I.call(func, [d] + list(a), k)


@frm("equals")
def _(I, d, o):
    if not isinstance(o, DF) or list(d.cols) != list(o.cols):
        return False
    return all(I.truth(SER["equals"].fn(I, col(d, c), col(o, c))) for c in d.cols)


@frm("head")
def _(I, d, n=5):
    return frame_slice(d, slice_entries(d.idx.vals, PySlice(None, n, None)))


@frm("tail")
def _(I, d, n=5):
    return frame_slice(d, slice_entries(d.idx.vals, PySlice(-n, None, None)))


def _fred(name):
    def f(I, d, axis=0, **k):
        if axis in (1, "columns"):
            rows = [[cs[j].v for cs, _ in d.cols.values()] for j in range(len(d.idx.vals))]
            out = []
            for r in rows:
                hid = next((v.hid for v in r if isinstance(v, H)), None)
                s = Ser(range_index([0] * len(r)), cells([hval(v) for v in r]), next(iter(d.cols.values()))[1])
                v = SER[name].fn(I, s, **k)
                out.append(H(hid, v) if hid is not None else v)
            return Ser(d.idx, cells(out), infer_dtype(out) if out else "float")
        if axis is None:
            s = Ser(range_index([]), [c for cs, _ in d.cols.values() for c in cs], "float")
            return SER[name].fn(I, s, **k)
        out = [SER[name].fn(I, col(d, c), **k) for c in d.cols]
        return Ser(mk_index(I, PyList([cn_out(c) for c in d.cols])), cells(out), infer_dtype(out) if out else "float")
    return f


for n_ in ("sum", "mean", "min", "max", "any", "all", "median", "count", "std", "var"):
    frm(n_)(_fred(n_))


@frm("apply", "groupby", "merge", "join", "stack", "pivot", "itertuples", "iterrows", "to_dict", "describe", "corr", "cov",
     "transpose", "drop_duplicates", "duplicated", "melt", "agg", "aggregate", "map", "applymap", "query", "eval", "to_records", "align", "combine", "combine_first", "update", "nunique", "idxmax", "idxmin", "quantile", "rolling")
def _(I, d, *a, **k):
    return Unknown("DataFrame method not modelled")


# ---------------------------------------------------------------- module level

def pd_concat(I, objs, axis=0, join="outer", ignore_index=False, keys=None, levels=None, names=None, verify_integrity=False, sort=False, copy=None):
    if isinstance(objs, PyDict):
        objs = PyList([v for _, v in objs.d.values()])
    os = [o for o in I.iterate(objs) if o is not None]
    if not os:
        raise_("ValueError", "No objects to concatenate")
    if keys is not None and axis in (0, "index"):
        return Unknown("concat keys")
    if all(isinstance(o, Ser) for o in os):
        if axis in (0, "index"):
            vals, ivals = [], []
            d, idt = None, None
            for o in os:
                if o.cells:
                    d = o.dtype if d is None else common_dtype(d, o.dtype)
                    idt = o.idx.dtype if idt is None else common_dtype(idt, o.idx.dtype)
                vals += o.vals
                ivals += o.idx.vals
            d = d or os[0].dtype
            idt = idt or os[0].idx.dtype
            nms = {o.name for o in os}
            idx = Idx(ivals, idt) if not ignore_index else range_index(vals)
            return Ser(idx, cells([hmap(lambda q: conv(q, d) if d != "object" else q, v) for v in vals]), d, nms.pop() if len(nms) == 1 else None)
        idx = os[0].idx
        for o in os[1:]:
            idx = union(I, idx, o.idx)
        df = DF(idx, {})
        for j, o in enumerate(os):
            r = o if same_index(I, o.idx, idx) else reindex(I, o, idx)
            nm = j if ignore_index or o.name is None else o.name
            if keys is not None:
                nm = I.iterate(keys)[j]
            df.cols[nm] = (cells(r.vals), r.dtype)
        return df
    if all(isinstance(o, (DF, Ser)) for o in os):
        if axis in (1, "columns"):
            idx = os[0].idx
            for o in os[1:]:
                idx = union(I, idx, o.idx)
            df = DF(idx, {})
            n = 0
            for o in os:
                for s in ([o] if isinstance(o, Ser) else [col(o, c) for c in o.cols]):
                    r = s if same_index(I, s.idx, idx) else reindex(I, s, idx)
                    nm = n if ignore_index else s.name
                    df.cols[nm] = (cells(r.vals), r.dtype)
                    n += 1
            return df
        if all(isinstance(o, DF) for o in os):
            names = []
            for o in os:
                names += [c for c in o.cols if c not in names]
            out = {}
            idx = IDX["append"].fn(I, os[0].idx, PyList([o.idx for o in os[1:]])) if len(os) > 1 else os[0].idx
            for c in names:
                vals, d = [], None
                for o in os:
                    if c in o.cols:
                        vals += [x.v for x in o.cols[c][0]]
                        d = o.cols[c][1] if d is None else common_dtype(d, o.cols[c][1])
                    else:
                        vals += [H(e.hid, NAN) if isinstance(e, H) else NAN for e in o.idx.vals]
                        d = "float" if d is None else {"int": "float", "bool": "object"}.get(d, d)
                out[c] = (cells(vals), d)
            return DF(range_index(idx.vals) if ignore_index else idx, out)
    return Unknown("concat")


def from_arrays(I, left, right, closed="right", name=None, copy=False, dtype=None):
    l, r = mk_index(I, left), mk_index(I, right)
    if len(l.vals) != len(r.vals):
        raise_("ValueError", "left and right must have the same length")
    out = []
    for a, b in pairup(l.vals, r.vals):
        def f(a, b):
            if isnull(a) and isnull(b):
                return NAN
            if isnull(a) or isnull(b):
                raise_("ValueError", "missing values must be missing in the same location both left and right sides")
            if lcmp(I, a, b) > 0:
                raise_("ValueError", "left side of interval must be <= right side")
            return Iv(out_scalar(a, l.dtype, True), out_scalar(b, r.dtype, True), closed)
        out.append(hmap(f, a, b))
    return Idx(out, "interval", name, None, closed)


def from_breaks(I, breaks, closed="right", name=None, copy=False, dtype=None):
    b = mk_index(I, breaks)
    if len(b.vals) == 0:
        return Idx([], "interval", name, None, closed)
    return from_arrays(I, Idx(b.vals[:-1], b.dtype, None, b.tz), Idx(b.vals[1:], b.dtype, None, b.tz), closed, name)


def from_tuples(I, data, closed="right", name=None, copy=False, dtype=None):
    ps = [I.iterate(p) for p in I.iterate(data)]
    return from_arrays(I, PyList([p[0] for p in ps]), PyList([p[1] for p in ps]), closed, name)


def mk_interval_index(I, data, closed=None, dtype=None, copy=False, name=None, verify_integrity=True):
    vals = entries(I, data)[0]
    cl = closed or (vals[0].closed if vals else "right")
    return Idx([Iv(v.left, v.right, cl) for v in vals], "interval", name, None, cl)


def pd_isnull(I, obj):
    if isinstance(obj, Ser):
        return SER["isna"].fn(I, obj)
    if isinstance(obj, Idx):
        return IDX["isna"].fn(I, obj)
    if isinstance(obj, Arr):
        return Arr(cells([isnull(v) for v in obj.vals]), "bool")
    if isinstance(obj, Arr2):
        return Arr2([[Cell(isnull(c.v)) for c in r] for r in obj.rows], "bool")
    if isinstance(obj, DF):
        return colwise(I, obj, "isna", (), {})
    if isinstance(obj, (PyList,)):
        return Arr(cells([isnull(v) for v in obj.v]), "bool")
    if isinstance(obj, Inst) and I_is_extarray(I, obj):
        return I.call(I.getattr(obj, "isna"), [], {})
    if isinstance(obj, TopH):
        return TOPH
    return isnull(obj)


def pd_notnull(I, obj):
    r = pd_isnull(I, obj)
    if isinstance(r, bool):
        return not r
    from . import models
    return models.vec_unop(I, "Invert", r)


def pd_unique(I, values):
    if isinstance(values, Idx):
        return IDX["unique"].fn(I, values)
    vals, d = entries(I, values)
    return Arr(cells(uniq(I, vals)), d or infer_dtype(vals, True))


@ser("align")
def _(I, s, other, join="outer", axis=None, level=None, copy=None, fill_value=None, method=None, limit=None):
    if not isinstance(other, Ser) or level is not None or method is not None or join not in ("outer", "left", "right", "inner"):
        raise U("Series.align")
    fill = NAN if fill_value is None else fill_value
    if same_index(I, s.idx, other.idx):
        idx = s.idx
    elif join == "outer":
        idx = union(I, s.idx, other.idx)
    elif join == "left":
        idx = s.idx
    elif join == "right":
        idx = other.idx
    else:
        raise U("inner Series.align")
    return reindex(I, s, idx, None, fill), reindex(I, other, idx, None, fill)

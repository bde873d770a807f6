"""min / max / values_in_range over a window respect endpoint closedness exactly"""
from .ops import *
from .C08 import check_num

RULE = ("values_in_range(where, closed) = the set of values taken at defined points of the window with the requested endpoint closedness, the value at an endpoint being the one given by "
        "the function's closed side; min / max / agg('min'|'max') = its least / greatest element; without a window the unbounded pieces are included; undefined points never count")
EXPLAIN = ("Obligations = query x shape x form x window position (both ends at / between / outside step points, missing, infinite, degenerate) x requested endpoint closedness x function "
           "closed side x domain kind. Values and labels symbolic; the specification enumerates point values and open-piece values.")

CLOSED = [None, "left", "right", "both", "neither"]


def taken(s, f, a, b, closed, side):
    """values f takes at defined points of the window; None = unbounded"""
    out = []
    point = "right" if side == "left" else "left"

    def add(v):
        if not nan_(v) and not any(same_num(v, w) for w in out):
            out.append(v)
    if a is not None and closed in ("left", "both"):
        add(s.at(f, a, point))
    if b is not None and closed in ("right", "both"):
        add(s.at(f, b, point))
    # open window: one-sided limits of the pieces meeting it, and the step points inside
    if a is not None and b is not None and lcmp(s.U, a, b) >= 0:
        return out
    add(s.at(f, a, "right") if a is not None else f.init)
    for l, v in f.pts:
        if (a is None or lcmp(s.U, l, a) > 0) and (b is None or lcmp(s.U, l, b) < 0):
            add(v)
    return out


WIN = {
    "none": lambda s: None,
    "nn": lambda s: (None, None),
    "inf": lambda s: (s.st.d["inf"] and s.un("-", s.st.d["inf"]), s.st.d["inf"]),
    "01": lambda s: (s.P(0), s.P(1)),
    "0n": lambda s: (s.P(0), None),
    "n1": lambda s: (None, s.P(1)),
    "n0": lambda s: (None, s.P(0)),
    "1n": lambda s: (s.P(1), None),
    "m-a": lambda s: (s.between(0), s.after(1)),
    "b-0": lambda s: (s.before(1), s.P(0)),
    "b-m": lambda s: (s.before(1), s.between(0)),
    "0-m": lambda s: (s.P(0), s.between(0)),
    "m-1": lambda s: (s.between(0), s.P(1)),
    "1-a": lambda s: (s.P(1), s.after(1)),
    "b-b": lambda s: (s.before(2), s.before(1)),
    "00": lambda s: (s.P(0), s.P(0)),
    "02": lambda s: (s.P(0), s.P(2)),
    "list": lambda s: PyList([s.P(0), s.P(1)]),
    "listn": lambda s: PyList([None, s.P(1)]),
}


def window(s, w):
    r = WIN[w](s)
    if r is None or w in ("nn", "inf"):
        return r, None, None
    a, b = s.U.iterate(r)
    return r, a, b


def query(q, fs, ff, w, closed, kw=True, reads=()):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        arg, a, b = window(s, w)
        cl = closed or s.closed
        want = taken(s, f, a, b, cl, s.closed)
        for r in reads:
            s.m(o, r)
        k = {}
        if arg is not None:
            k["where"] = arg
        if closed is not None:
            k["closed"] = closed
        if q == "values":
            got = s.m(o, "values_in_range", *([arg] if not kw and arg is not None else []), **({} if not kw else k) if kw or closed is None else dict(closed=closed))
            values_same(s, got, want)
        else:
            if q in ("min", "max"):
                got = s.m(o, q)
            elif q.startswith("agg"):
                got = s.m(o, "agg", q[4:], **k)
            else:
                r = s.m(o, "agg", PyList(["min", "max"]), **k)
                got = s.check_unknown(s.U.getitem(r, q[5:]))
            if not want:
                if not nan_(got):
                    raise Refuted("value", f"{q} over a window without defined points is {got!r}")
            else:
                check_num(s, got, (vmin if q.endswith("min") else vmax)(want), q)
        s.same(o, f, "function after the query", minimal=False)
    return body


def values_same(s, got, want):
    els = [hval(x) for x in s.elements(got, "values_in_range")]
    seen = []
    for e in els:
        if nan_(e):
            raise Refuted("value", "values_in_range contains undefined")
        if not is_number(e):
            raise Refuted("value", f"values_in_range contains {e!r}")
        if any(same_num(e, x) for x in seen):
            raise Refuted("value", f"values_in_range contains {s.show(e)} twice")
        seen.append(e)
        if not any(same_num(e, x) for x in want):
            raise Refuted("value", f"values_in_range contains {s.show(e)}, not taken in the window (taken: {[s.show(x) for x in want]})")
    for x in want:
        if not any(same_num(e, x) for e in seen):
            raise Refuted("value", f"values_in_range misses {s.show(x)}")


SH = [("SSS", (0, 1)), ("SNS", (0, 1)), ("NSN", (0, 1)), ("SSN", (0, 1)), ("NSS", (0, 1)), ("SS", (0,)), ("SN", (0,)), ("NS", (0,)), ("S", ()), ("N", ())]


def obligations(tier):
    P = "C10"
    for side in ("left", "right"):
        v = ("num", side)
        for fs in SH:
            for w in WIN:
                for c in CLOSED:
                    if w in ("none", "nn", "inf") and c not in (None, "both", "neither"):
                        continue
                    if w == "00" and c != "both":
                        continue
                    for ff in forms(fs[0], len(fs[1])) if w in ("01", "m-a", "n1") else [form1(fs)]:
                        yield Ob(f"{P}/values/{side}/{sid(fs)}.{ff}/{w}/{c}", query("values", fs, ff, w, c), *v)
                        for q in ("agg-min", "agg-max") if ff == form1(fs) and w != "00" else ():
                            yield Ob(f"{P}/{q}/{side}/{sid(fs)}.{ff}/{w}/{c}", query(q, fs, ff, w, c), *v)
            for w in ("none", "01", "n1"):
                yield Ob(f"{P}/list-min/{side}/{sid(fs)}/{w}", query("list-min", fs, form1(fs), w, "both"), *v)
                yield Ob(f"{P}/list-max/{side}/{sid(fs)}/{w}", query("list-max", fs, form1(fs), w, "both"), *v)
                yield Ob(f"{P}/values-pos/{side}/{sid(fs)}/{w}", query("values", fs, form1(fs), w, "right", kw=False), *v)
            for q in ("min", "max"):
                for ff in forms(fs[0], len(fs[1])):
                    yield Ob(f"{P}/{q}/{side}/{sid(fs)}.{ff}", query(q, fs, ff, "none", None), *v)
                    yield Ob(f"{P}/{q}-after/{side}/{sid(fs)}.{ff}", query(q, fs, ff, "none", None, reads=("isna", "step_values" and "to_frame")), *v)
        for fs in (("SSSS", (0, 1, 2)), ("SNSS", (0, 1, 2)), ("SSNS", (0, 1, 2))):
            for w in ("01", "02", "m-a", "m-1", "1n", "00"):
                for c in CLOSED[1:]:
                    if w == "00" and c != "both":
                        continue
                    yield Ob(f"{P}/values/{side}/{sid(fs)}/{w}/{c}", query("values", fs, form1(fs), w, c), *v)
    for v in VARIANTS[1:]:
        for fs in (("SSS", (0, 1)), ("SNS", (0, 1)), ("S", ())):
            for w in ("none", "inf", "01", "m-a", "n1", "b-0", "00"):
                for c in CLOSED:
                    if w in ("none", "inf") and c is not None or w == "00" and c != "both":
                        continue
                    yield Ob(f"{P}/values/{vid(v)}/{sid(fs)}/{w}/{c}", query("values", fs, form1(fs), w, c), *v)
                    if w != "00":
                        yield Ob(f"{P}/agg-max/{vid(v)}/{sid(fs)}/{w}/{c}", query("agg-max", fs, form1(fs), w, c), *v)

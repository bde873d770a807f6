"""One-sided limits, sampling and the structural views agree"""
from .ops import *

RULE = ("limit(x, side), sample(x), f(x) at, between, before and after the step points equal the one-sided limits of the function read off the piece table; scalar, vector and "
        "include_index forms agree; to_frame, step_points, step_values, step_changes, number_of_steps, initial_value describe that same function")
EXPLAIN = ("Obligations = function shape (up to 3 step points, any undefined pieces, step-free) x construction route x query kind and container x domain kind x closed side; query "
           "points are symbolic (coinciding with, strictly between, before and after step points, repeated and unsorted).")


def queries(s, n):
    q = [s.before(1)]
    for i in range(n):
        q.append(s.P(i))
        q.append(s.between(i) if i < n - 1 else s.after(n - 1))
    return q


def sides(s):
    return {"limit-left": "left", "limit-right": "right", "sample": "right" if s.closed == "left" else "left"}


def call(s, o, how, x, **k):
    if how == "call":
        return s.call(o, x, **k)
    if how == "sample":
        return s.m(o, "sample", x, **k)
    return s.m(o, "limit", x, how[6:], **k)


def side_of(s, how):
    if how in ("sample", "call"):
        return "right" if s.closed == "left" else "left"
    return how[6:]


def scalar_q(fs, ff, how, flavour=None):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        for x in queries(s, max(1, len(fs[1]))):
            xx = flav(s, x, flavour)
            s.val_eq(call(s, o, how, xx), s.at(f, x, side_of(s, how)), f"{how} at {x!r}")
        s.same(o, f, "function after being queried", minimal=False)
    return body


def flav(s, x, flavour):
    if flavour is None:
        return x
    if isinstance(x, Lab):
        return Lab(x.kind, x.x, x.tz, flavour)
    return Num(to_num(x).n, to_num(x).d, flavour)


def vector_q(fs, ff, how, kind, index=False):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        q = queries(s, max(1, len(fs[1])))
        q = q[1:] + q[:1] + q[1:2]          # unsorted, with a repeat
        r = call(s, o, how, s.vector(kind, q), **({"include_index": True} if index else {}))
        vals = s.elements(r, how)
        if len(vals) != len(q):
            raise Refuted("shape", f"{how} of {len(q)} points gives {len(vals)} values")
        for x, v in zip(q, vals):
            s.val_eq(v, s.at(f, x, side_of(s, how)), f"{how} at {x!r} (vector)")
        if index:
            if not isinstance(r, Ser):
                raise Refuted("shape", f"{how} with include_index does not give a Series")
            for x, l in zip(q, r.idx.vals):
                s.lab_same(l, x, f"index entry of {how}")
    return body


def index_scalar(fs, ff):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        x = s.P(0)
        r = s.m(o, "sample", x, include_index=True)
        if not isinstance(r, Ser) or len(r.idx.vals) != 1:
            raise Refuted("shape", "sample(x, include_index=True) is not a one-element Series")
        s.lab_same(r.idx.vals[0], x, "index of sample")
        s.val_eq(s.elements(r, "sample")[0], s.at(f, x, side_of(s, "sample")), "sample with index")
    return body


def views(fs, ff, order):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        got = {}
        for name in order:
            got[name] = s.attr(o, name)
        n = len(f.pts)
        s.same(o, f, "to_frame", minimal=False)
        if "number_of_steps" in got and not (is_number(got["number_of_steps"]) and same_num(got["number_of_steps"], n)):
            raise Refuted("views", f"number_of_steps is {got['number_of_steps']!r}, the function has {n}")
        if "step_points" in got:
            pts = s.elements(got["step_points"], "step_points")
            if len(pts) != n:
                raise Refuted("views", f"{len(pts)} step_points, the function has {n}")
            for a, (b, _) in zip(pts, f.pts):
                s.lab_same(a, b, "step point")
        if "initial_value" in got:
            s.val_eq(got["initial_value"], f.init, "initial_value")
        for nm in ("step_values", "step_changes"):
            if nm not in got:
                continue
            r = got[nm]
            if not isinstance(r, Ser):
                raise Refuted("views", f"{nm} is not a Series")
            if len(r.idx.vals) != n:
                raise Refuted("views", f"{nm} has {len(r.idx.vals)} entries, the function has {n} steps")
            vals = s.elements(r, nm)
            for (l, v), a, b in zip(f.pts, r.idx.vals, vals):
                s.lab_same(a, l, f"index of {nm}")
                if nm == "step_values":
                    s.val_eq(b, v, f"step value at {l!r}")
        if "step_changes" in got and not any(nan_(v) for v in [f.init] + f.values):
            t = f.init
            for (l, v), d in zip(f.pts, s.elements(got["step_changes"], "step_changes")):
                if isnull(d):
                    raise Refuted("views", "undefined step change of an everywhere defined function")
                t = num_arith("+", t, d)
                s.val_eq(t, v, f"initial value plus the running sum of step_changes at {l!r}")
        # editing a returned view must not edit the function
        s.same(o, f, "to_frame after reading the views", minimal=False)
        if s.attr(o, "closed") != s.closed:
            raise Refuted("closed", "closed side of the operand")
    return body


ORDERS = [("number_of_steps", "step_points", "step_values", "step_changes", "initial_value"), ("step_changes", "step_values", "step_points", "initial_value", "number_of_steps"),
          ("step_values",), ("step_changes",), ("step_points", "number_of_steps")]


def after_op(op, fs, gs, how):
    """evaluation of a result agrees with its piece table"""
    def body(s):
        f, g = s.fn(*fs, "f"), s.fn(*gs, "g")
        a, b = s.build(f, form1(fs)), s.build(g, form1(gs))
        r = apply2(s, op, a, b)
        if how == "first":
            for x in (s.P(0), s.before(1), s.after(1)):
                got = call(s, r, "limit-left", x)
                s.val_eq(got, s.at(s.den(r), x, "left"), "left limit of a result")
        else:
            w = s.den(r)
            views_match(s, r, w)
    return body


def views_match(s, o, w):
    n = len(w.pts)
    if not same_num(s.attr(o, "number_of_steps"), n):
        raise Refuted("views", "number_of_steps differs from the piece table")
    sv, sc = s.attr(o, "step_values"), s.attr(o, "step_changes")
    pts = s.elements(s.attr(o, "step_points"), "step_points")
    if len(pts) != n or len(sv.idx.vals) != n or len(sc.idx.vals) != n:
        raise Refuted("views", "views of different lengths")
    s.val_eq(s.attr(o, "initial_value"), w.init, "initial_value")
    ok = not any(nan_(v) for v in [w.init] + w.values)
    t = w.init
    for (l, v), p, a, b, x, d in zip(w.pts, pts, sv.idx.vals, sc.idx.vals, s.elements(sv, "step_values"), s.elements(sc, "step_changes")):
        s.lab_same(p, l, "step point")
        s.lab_same(a, l, "index of step_values")
        s.lab_same(b, l, "index of step_changes")
        s.val_eq(x, v, "step value")
        if ok:
            t = num_arith("+", t, d)
            s.val_eq(t, v, "initial value plus running sum of step_changes")


def obligations(tier):
    P = "C03"
    HOW = ("limit-left", "limit-right", "sample", "call")
    for fs in unary_shapes(3):
        for ff in forms(fs[0], len(fs[1])):
            for how in HOW:
                yield Ob(f"{P}/scalar/{how}/{sid(fs)}.{ff}", scalar_q(fs, ff, how))
                for kind in ("list", "tuple", "ndarray", "series", "series-idx", "index"):
                    if kind != "list" and (ff in ("LB", "S", "VB") or len(fs[1]) == 3):
                        continue
                    yield Ob(f"{P}/vector/{how}-{kind}/{sid(fs)}.{ff}", vector_q(fs, ff, how, kind))
                    yield Ob(f"{P}/index/{how}-{kind}/{sid(fs)}.{ff}", vector_q(fs, ff, how, kind, True))
            yield Ob(f"{P}/index/scalar/{sid(fs)}.{ff}", index_scalar(fs, ff))
            for i, o in enumerate(ORDERS):
                yield Ob(f"{P}/views/{i}/{sid(fs)}.{ff}", views(fs, ff, o))
    for v in VARIANTS:
        for fs in REP1:
            ff = form1(fs)
            for how in HOW:
                yield Ob(f"{P}/scalar/{how}/{vid(v)}/{sid(fs)}", scalar_q(fs, ff, how), *v)
                for kind in ("list", "tuple", "ndarray", "series", "series-idx", "index"):
                    yield Ob(f"{P}/vector/{how}-{kind}/{vid(v)}/{sid(fs)}", vector_q(fs, ff, how, kind), *v)
                    yield Ob(f"{P}/index/{how}-{kind}/{vid(v)}/{sid(fs)}", vector_q(fs, ff, how, kind, True), *v)
            yield Ob(f"{P}/index/scalar/{vid(v)}/{sid(fs)}", index_scalar(fs, ff), *v)
            for i, o in enumerate(ORDERS[:2]):
                for f2 in forms(fs[0], len(fs[1])):
                    yield Ob(f"{P}/views/{i}/{vid(v)}/{sid(fs)}.{f2}", views(fs, f2, o), *v)
    # other scalar flavours of the same instant or number
    for fs in REP1:
        for fl in ("np", "npi", "pyi"):
            yield Ob(f"{P}/flavour/{fl}/{sid(fs)}", scalar_q(fs, form1(fs), "limit-right", fl))
        for k in ("ts", "td"):
            for fl in ("np", "dt"):
                yield Ob(f"{P}/flavour/{k}-{fl}/{sid(fs)}", scalar_q(fs, form1(fs), "limit-left", fl), k)
    for op in BINARY:
        for fs, gs in REP2:
            for how in ("first", "views"):
                yield Ob(f"{P}/result/{op}-{how}/{sid(fs)}/{sid(gs)}", after_op(op, fs, gs, how))

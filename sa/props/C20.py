"""shift, diff and rolling_mean are exact translations and window means"""
from .C13 import concrete
from .C19 import minus, moved
from .ops import *

RULE = ("shift(d)(x) = f(x - d) and the closed side stays; diff(d) = f - f.shift(d); rolling_mean has one point for every x where a window edge meets a step point of f within `where` and whose window "
        "lies within `where`, in increasing order, with the mean of f over the defined part of [x + l, x + r]; linear interpolation between the points follows, the mean of a moving window being "
        "linear between such x")
EXPLAIN = ("Obligations = operation x shape x form x displacement / window (positive, negative, one-sided, equal to a gap between step points so that edges coincide, wider than the support) x `where` "
           "(none, finite, half open, through and between step points) x domain kind x closed side x scalar flavour; values symbolic, positions symbolic or on a grid.")

DEL = {
    "+d": lambda s: s.delta(s.A("+d")), "-d": lambda s: s.delta(nsub(num(0), s.A("+d"))), "gap": lambda s: s.delta(s.A("+g1")), "-gap": lambda s: s.delta(nsub(num(0), s.A("+g1"))),
    "half": lambda s: s.delta(nmul(s.A("+g1"), num(Fraction(1, 2)))), "0": lambda s: s.delta(num(0)), "any": lambda s: s.delta(s.A("d")),
}


def npd(s, d, fl):
    return Num(to_num(d).n, to_num(d).d, fl) if not isinstance(d, Lab) else d


def look(s, r, w, side, what):
    """the function through sample and limit as well"""
    s.same(r, w, what, minimal=False)
    if s.attr(r, "closed") != side:
        raise Refuted("closed", f"{what} is {s.attr(r, 'closed')}-closed, expected {side}-closed")
    for l in w.labels:
        for got, sd in ((s.m(r, "sample", l), "left" if side == "right" else "right"), (s.m(r, "limit", l, "left"), "left"), (s.m(r, "limit", l, "right"), "right")):
            if not s.eqval(got, s.at(w, l, sd)):
                raise Refuted("denotation", f"{what} gives {s.show(got)} at {l!r}, specified {s.show(s.at(w, l, sd))}")


def shift(fs, ff, d, grid=False, fl=None, after=None, op="shift"):
    def body(s):
        s.grid = grid
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        x = DEL[d](s)
        if fl:
            x = npd(s, x, fl)
        if after == "clip":
            o, f = s.m(o, "clip", s.between(0), None), s.restrict(f, s.between(0), None)
        elif after == "mul":
            o, f = s.op("*", o, s.V("c")), s.lift(POINT["*"], f, Fn(s.V("c")))
        elif after == "layer":
            o = s.m(o, "layer", s.between(0), None, s.V("c"))
            f = s.lift(POINT["+"], f, Fn(0, [(s.between(0), s.V("c"))]))
        elif after == "reads":
            s.attr(o, "step_changes")
            s.m(o, "mean") if s.finite_pieces(f) else None
            s.m(o, "sample", s.P(0))
        elif after == "shifted":
            o = s.m(o, "shift", x)
            f = s.shifted(f, x)
        w = s.shifted(f, x)
        if op == "diff":
            w = s.lift(POINT["-"], f, w)
        r = s.m(o, op, x)
        look(s, r, w, s.closed, f"{op} by {d}")
        look(s, o, f, s.closed, "the receiver")
        if op == "shift":
            look(s, s.m(r, "shift", minus(s, x)), f, s.closed, "shift there and back")
        else:
            s.same_result(r, s.op("-", o, s.m(o, "shift", x)), "diff against f - f.shift")
    return body


WINDOWS = {
    "sym": lambda s: (nsub(num(0), s.A("+w")), s.A("+w")), "fwd": lambda s: (num(0), s.A("+d")), "back": lambda s: (nsub(num(0), s.A("+d")), num(0)), "ahead": lambda s: (s.A("+d"), nadd(s.A("+d"), s.A("+w"))),
    "behind": lambda s: (nsub(num(0), nadd(s.A("+d"), s.A("+w"))), nsub(num(0), s.A("+d"))), "gap": lambda s: (num(0), s.A("+g1")), "-gap": lambda s: (nsub(num(0), s.A("+g1")), num(0)),
    "asym": lambda s: (nsub(num(0), nmul(s.A("+d"), num(Fraction(2, 3)))), s.A("+d")), "wide": lambda s: (nsub(num(0), num(20)), num(20)), "thin": lambda s: (num(0), num(Fraction(1, 4))),
}
WH = {
    "default": lambda s: None, "none": lambda s: (None, None), "all": lambda s: (s.before(4), s.after(2)), "near": lambda s: (s.before(1), s.after(2)), "01": lambda s: (s.P(0), s.P(1)), "low": lambda s: (s.before(1), None),
    "up": lambda s: (None, s.after(2)), "in": lambda s: (s.between(0), s.after(1)), "lowin": lambda s: (s.between(0), None), "0a": lambda s: (s.P(0), s.after(2)), "infs": lambda s: (s.un("-", s.st.d["inf"]), s.st.d["inf"]),
    "inner": lambda s: (s.between(0), s.between(1)), "far": lambda s: (s.mklab(nsub(s.lx(s.P(0)), num(60))), s.mklab(nadd(s.lx(s.P(0)), num(60)))),
}


def plus(s, l, x):
    x = nadd(s.lx(l), x)
    return Lab(l.kind, x, l.tz, l.flav) if isinstance(l, Lab) else s.mklab(x)


def end(b):
    return None if b is None or isinstance(b, Inst) else b


def rolling(fs, ff, win, wh, grid=True, fl=None, how="tuple", after=None):
    def body(s):
        s.grid = grid
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        if after == "mul":
            o, f = s.op("*", o, 2), s.lift(POINT["*"], f, Fn(2))
        elif after == "mask":
            o, f = s.m(o, "mask", (s.P(0), s.between(0))), outside(s, f, s.P(0), s.between(0))
        l, r = WINDOWS[win](s)
        dl, dr = s.delta(l), s.delta(r)
        if fl:
            dl, dr = npd(s, dl, fl), npd(s, dr, fl)
        w = WH[wh](s)
        lo, up = (None, None) if w is None else (end(w[0]), end(w[1]))
        k = {"window": (dl, dr) if how == "tuple" else PyList([dl, dr])}
        if w is not None:
            k["where"] = w if how == "tuple" else PyList(list(w))
        got = s.m(o, "rolling_mean", **k)
        h = s.simplify(s.restrict(f, lo, up))
        if not isinstance(got, Ser):
            raise Refuted("shape", f"rolling_mean is {got!r}")
        xs, ys = s.elements(s.attr(got, "index"), "index"), s.elements(got, "rolling_mean")
        if not h.pts:
            for y in ys:
                if not s.eqval(y, h.init):
                    raise Refuted("value", f"rolling mean of a step-free function takes the value {s.show(y)}, specified {s.show(h.init)}")
            return
        want = []
        for p in h.labels:
            for e in (l, r):
                x = plus(s, p, nsub(num(0), e))
                if lo is not None and lcmp(s.U, plus(s, x, l), lo) < 0 or up is not None and lcmp(s.U, plus(s, x, r), up) > 0:
                    continue
                i = 0
                while i < len(want) and lcmp(s.U, want[i], x) < 0:
                    i += 1
                if i == len(want) or lcmp(s.U, want[i], x) != 0:
                    want.insert(i, x)
        if len(xs) != len(want):
            raise Refuted("points", f"rolling_mean has the points {xs!r}, window edges meet step points at {want!r}")
        for x, y, t in zip(xs, ys, want):
            s.lab_same(x, t, "a rolling mean point", "points")
            g = s.restrict(h, plus(s, t, l), plus(s, t, r))
            ps = s.finite_pieces(g)
            if not ps:
                s.val_eq(y, NAN, f"rolling mean at {t!r}, nothing defined in the window")
                continue
            n, d = num(0), num(0)
            for v, q in ps:
                n, d = nadd(n, nmul(to_num(v), q)), nadd(d, q)
            s.val_eq(hval(y), num_arith("/", n, d), f"rolling mean at {t!r}")
        s.same(o, f, "the receiver", minimal=False)
    return body


def obligations(tier):
    P = "C20"
    deep = tier != "quick"
    for op in ("shift", "diff"):
        for fs in unary_shapes(3):
            for ff in forms(fs[0], len(fs[1])):
                for d in DEL:
                    if len(fs[1]) > 2 and (ff != form1(fs) or d == "any") or ff in ("S", "LB") and d not in ("+d", "-gap"):
                        continue
                    yield Ob(f"{P}/{op}/{d}/{sid(fs)}.{ff}", shift(fs, ff, d, op=op))
        for v in VARIANTS:
            for fs in REP1 + [("NSS", (0, 1)), ("SN", (0,))]:
                for d in DEL:
                    yield Ob(f"{P}/{op}/{vid(v)}/{d}/{sid(fs)}", shift(fs, form1(fs), d, op=op), *v)
        for fs in REP1:
            for fl in ("pyi", "np", "npi"):
                for d in ("+d", "-d", "gap"):
                    yield Ob(f"{P}/{op}/{fl}/{d}/{sid(fs)}", shift(fs, form1(fs), d, fl=fl, op=op), "int" if fl.endswith("i") else "num")
            for a in ("clip", "mul", "layer", "reads", "shifted"):
                for d in ("+d", "-gap", "half"):
                    for c in ("left", "right"):
                        yield Ob(f"{P}/{op}-{a}/{c}/{d}/{sid(fs)}", shift(fs, form1(fs), d, after=a, op=op), "num", c)
                    yield Ob(f"{P}/{op}-{a}/tz/{d}/{sid(fs)}", shift(fs, form1(fs), d, after=a, op=op), "tz", "left")
    shapes = unary_shapes(2)
    for fs in shapes:
        for ff in forms(fs[0], len(fs[1])):
            for win in WINDOWS:
                for wh in WH:
                    if ff != form1(fs) and (wh not in ("default", "near") or win not in ("sym", "gap")):
                        continue
                    yield Ob(f"{P}/rolling/{win}/{wh}/{sid(fs)}.{ff}", rolling(fs, ff, win, wh))
    for fs in [x for x in unary_shapes(3) if len(x[1]) == 3]:
        for win in ("sym", "gap", "asym", "ahead", "wide"):
            for wh in ("default", "near", "01", "low", "up", "inner", "far"):
                yield Ob(f"{P}/rolling/{win}/{wh}/{sid(fs)}", rolling(fs, form1(fs), win, wh))
    for fs in [("SS", (0,)), ("SN", (0,)), ("NS", (0,)), ("SSS", (0, 1)), ("NSN", (0, 1)), ("SNS", (0, 1))]:
        for win in ("sym", "fwd", "back", "asym", "gap"):
            for wh in ("default", "all", "low", "01") if len(fs[1]) == 1 or deep else ("default", "01"):
                if len(fs[1]) == 2 and win == "asym" and not deep:
                    continue
                yield Ob(f"{P}/rolling-free/{win}/{wh}/{sid(fs)}", rolling(fs, form1(fs), win, wh, grid=False))
    for v in VARIANTS:
        for fs in REP1:
            for win in ("sym", "fwd", "gap", "asym", "behind"):
                for wh in ("default", "near", "01", "low", "in", "up"):
                    yield Ob(f"{P}/rolling/{vid(v)}/{win}/{wh}/{sid(fs)}", rolling(fs, form1(fs), win, wh), *v)
    for fs in REP1:
        for fl in ("pyi", "np", "npi"):
            for win in ("sym", "fwd", "back"):
                yield Ob(f"{P}/rolling/{fl}/{win}/{sid(fs)}", rolling(fs, form1(fs), win, "near", fl=fl), "int" if fl.endswith("i") else "num")
        for how in ("list",):
            for wh in ("near", "infs", "none", "low"):
                yield Ob(f"{P}/rolling-list/{wh}/{sid(fs)}", rolling(fs, form1(fs), "sym", wh, how=how))
        for a in ("mul", "mask"):
            for win in ("sym", "gap", "back"):
                for wh in ("default", "near", "in"):
                    yield Ob(f"{P}/rolling-{a}/{win}/{wh}/{sid(fs)}", rolling(fs, form1(fs), win, wh, after=a))

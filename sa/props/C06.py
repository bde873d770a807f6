"""clip / mask / where restrict the domain exactly; isna / notna report it"""
from . import C01, C04
from .ops import *

RULE = ("clip(a, b) equals f between the bounds and is undefined elsewhere; mask / where keep f exactly where the masker is defined and zero / non-zero; tuples stand for interval "
        "indicators; isna / notna are the everywhere defined indicators; receivers are restricted for every bound position and masker shape")
EXPLAIN = ("Obligations = receiver shape/form x masker shape/form or bound pair (None, infinite, before, at, between, after step points, string) x domain kind x closed side; values and "
           "positions symbolic.")

B = {"none": lambda s: None, "inf": lambda s: s.st.d["inf"], "ninf": lambda s: s.un("-", s.st.d["inf"]), "b2": lambda s: s.before(2), "b": lambda s: s.before(1), "p": lambda s: s.P(0),
     "m": lambda s: s.between(0), "q": lambda s: s.P(1), "n": lambda s: s.between(1), "r": lambda s: s.P(2), "a": lambda s: s.after(2)}
ORDER = ["b2", "b", "p", "m", "q", "n", "r", "a"]


def bound(s, c):
    return None if c in ("none", "inf", "ninf") else B[c](s)


def restrict(kind, fs, ff, lo, up, kw=None):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        a, b = B[lo](s), B[up](s)
        if kind == "clip":
            if kw == "kw":
                k = {}
                if a is not None:
                    k["lower"] = a
                if b is not None:
                    k["upper"] = b
                r = s.m(o, "clip", **k)
            else:
                r = s.m(o, "clip", a, b)
        else:
            r = s.m(o, kind, (a, b))
        a, b = bound(s, lo), bound(s, up)
        w = outside(s, f, a, b) if kind == "mask" else s.restrict(f, a, b)
        s.same(r, w, f"{kind} from {lo} to {up}", minimal=False)
        s.same(o, f, "receiver", minimal=False)
    return body


def then_again(kind, fs, lo, up):
    """restricting what is already restricted"""
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, form1(fs))
        r = s.m(o, "clip", s.P(0), s.P(2))
        f = s.restrict(f, s.P(0), s.P(2))
        a, b = B[lo](s), B[up](s)
        r = s.m(r, "clip", a, b) if kind == "clip" else s.m(r, kind, (a, b))
        a, b = bound(s, lo), bound(s, up)
        w = outside(s, f, a, b) if kind == "mask" else s.restrict(f, a, b)
        s.same(r, w, f"clip then {kind}", minimal=False)
    return body


def by_result(op, fs, gs, how):
    """masker that is itself the result of an operation"""
    def body(s):
        f, g = s.fn(*fs, "f"), s.fn(*gs, "g")
        a, b = s.build(f, form1(fs)), s.build(g, form1(gs))
        k, w = {"gt": (lambda: s.op(">", b, 0), lambda: s.lift(POINT[">"], g, Fn(0))),
                "isna": (lambda: s.m(b, "isna"), lambda: s.lift(lambda v: 1 if nan_(v) else 0, g)),
                "clip": (lambda: s.m(b, "clip", s.P(0), s.P(1)), lambda: s.restrict(g, s.P(0), s.P(1))),
                "layered": (lambda: s.m(s.m(b, "copy"), "layer", s.P(0), s.P(1)), lambda: s.lift(strict(lambda x, y: num_arith("+", x, y)), g, Fn(0, [(s.P(0), 1), (s.P(1), 0)]))),
                }[how]
        s.same(s.m(a, op, k()), s.lift(POINT[op], f, w()), f"{op} by {how}", minimal=False)
    return body


def string(kind, fs):
    def body(s):
        iso0, iso1 = "2020-01-01", "2020-01-02"
        l0, l1 = s.ext("pandas", "Timestamp", iso0), s.ext("pandas", "Timestamp", iso1)
        f = s.fn(fs[0], [l0, l1][:len(fs[1])], "f")
        o = s.build(f, form1(fs))
        for a, b in (("2020-01-01", "2020-01-02"), ("2020-01-01", None), (None, "2020-01-02"), ("2020-01-01 12:00", "2020-01-03")):
            r = s.m(o, "clip", a, b) if kind == "clip" else s.m(o, kind, (a, b))
            la, lb = (None if x is None else s.ext("pandas", "Timestamp", x) for x in (a, b))
            w = outside(s, f, la, lb) if kind == "mask" else s.restrict(f, la, lb)
            s.same(r, w, f"{kind}({a!r}, {b!r})", minimal=False)
    return body


def bounds_pairs():
    for i, a in enumerate(ORDER):
        for b in ORDER[i + 1:]:
            yield a, b
    for b in ORDER:
        yield "none", b
        yield b, "none"
    yield "none", "none"
    yield "ninf", "q"
    yield "p", "inf"
    yield "ninf", "inf"


def obligations(tier):
    P = "C06"
    for op in ("mask", "where"):
        for fs, gs in C01.pairs(tier):
            big = max(fs[1] + gs[1] + (0,)) > 1
            for ff in forms(fs[0], len(fs[1])):
                for gf in forms(gs[0], len(gs[1])):
                    if big and (ff, gf) not in (("V", "V"), ("L", "L"), ("C", "V"), ("V", "C"), ("M", "V")):
                        continue
                    if "S" in (ff, gf) and not (ff == gf or "C" in (ff, gf)):
                        continue
                    yield Ob(f"{P}/{op}/{sid(fs)}.{ff}/{sid(gs)}.{gf}", fun(op, fs, gs, ff, gf))
        for v in VARIANTS:
            for fs, gs in REP2:
                yield Ob(f"{P}/{op}/{vid(v)}/{sid(fs)}/{sid(gs)}", fun(op, fs, gs, form1(fs), form1(gs)), *v)
                yield Ob(f"{P}/{op}/{vid(v)}/{sid(gs)}/{sid(fs)}", fun(op, gs, fs, form1(gs), form1(fs)), *v)
        for how in ("gt", "isna", "clip", "layered"):
            for fs, gs in REP2:
                yield Ob(f"{P}/{op}-by-{how}/{sid(fs)}/{sid(gs)}", by_result(op, fs, gs, how))
    for kind in ("clip", "where", "mask"):
        for fs in unary_shapes(2):
            for ff in forms(fs[0], len(fs[1])):
                for lo, up in bounds_pairs():
                    if ff in ("LB", "S", "VB") and not {lo, up} <= {"none", "p", "m", "q"}:
                        continue
                    yield Ob(f"{P}/{kind}-interval/{lo},{up}/{sid(fs)}.{ff}", restrict(kind, fs, ff, lo, up))
        for fs in [x for x in unary_shapes(3) if len(x[1]) == 3]:
            for lo, up in bounds_pairs():
                yield Ob(f"{P}/{kind}-interval/{lo},{up}/{sid(fs)}", restrict(kind, fs, form1(fs), lo, up))
        for v in VARIANTS:
            for fs in REP1:
                for lo, up in (("p", "q"), ("none", "q"), ("p", "none"), ("m", "n"), ("b2", "b"), ("n", "a"), ("none", "none"), ("ninf", "inf"), ("q", "r"), ("b", "p")):
                    yield Ob(f"{P}/{kind}-interval/{vid(v)}/{lo},{up}/{sid(fs)}", restrict(kind, fs, form1(fs), lo, up), *v)
        for fs in REP1:
            for lo, up in (("p", "q"), ("none", "q"), ("m", "none"), ("b", "m"), ("none", "none"), ("q", "a")):
                yield Ob(f"{P}/{kind}-clipped/{lo},{up}/{sid(fs)}", then_again(kind, fs, lo, up))
        for fs in REP1:
            yield Ob(f"{P}/{kind}-string/{sid(fs)}", string(kind, fs), "ts")
            yield Ob(f"{P}/{kind}-string/right/{sid(fs)}", string(kind, fs), "ts", "right")
    for fs in REP1:
        for lo, up in (("p", "q"), ("none", "q"), ("p", "none"), ("none", "none")):
            yield Ob(f"{P}/clip-kw/{lo},{up}/{sid(fs)}", restrict("clip", fs, form1(fs), lo, up, "kw"))
    for n in ("isna", "notna"):
        for fs in unary_shapes(3):
            for ff in forms(fs[0], len(fs[1])):
                yield Ob(f"{P}/{n}/{sid(fs)}.{ff}", C01.unary(n, fs, ff))
        for v in VARIANTS:
            for fs in REP1:
                yield Ob(f"{P}/{n}/{vid(v)}/{sid(fs)}", C01.unary(n, fs, form1(fs)), *v)


def fun(op, fs, gs, ff, gf):
    def body(s):
        f, g = s.fn(*fs, "f"), s.fn(*gs, "g")
        a, b = s.build(f, ff), s.build(g, gf)
        s.same(apply2(s, op, a, b), spec2(s, op, f, g), f"f.{op}(g)", minimal=False)
    return body

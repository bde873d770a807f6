"""Relational operators are pointwise 0/1 indicators"""
from . import C01
from .ops import *

RULE = ("the result of each relational operator is 1 / 0 where both operands are defined and the relation holds / fails, undefined exactly elsewhere, and a follow-up read, "
        "layer, + and identical on it completes with the denotation predicted")
EXPLAIN = C01.EXPLAIN


def followup(sym, fs, gs, ff, gf, how):
    def body(s):
        if gs == "c":
            g, b = Fn(s.V("c")), None
        else:
            g = s.fn(*gs, "g")
        f = s.fn(*fs, "f")
        a = s.build(f, ff)
        b = s.V("c") if gs == "c" else s.build(g, gf)
        r = s.op(sym, a, b)
        w = s.lift(POINT[sym], f, g)
        follow(s, r, w, how)
    return body


def follow(s, r, w, how):
    if how == "layer":
        s.m(r, "layer", s.P(0), s.after(1), s.V("v"))
        add = strict(lambda x, y: num_arith("+", x, y))
        w = s.lift(add, w, Fn(0, [(s.P(0), s.V("v")), (s.after(1), 0)]))
        s.same(r, w, "result after a layer", minimal=False)
    elif how == "layer-vec":
        s.m(r, "layer", PyList([s.P(0)]), PyList([s.after(1)]), PyList([s.V("v")]))
        add = strict(lambda x, y: num_arith("+", x, y))
        w = s.lift(add, w, Fn(0, [(s.P(0), s.V("v")), (s.after(1), 0)]))
        s.same(r, w, "result after a vector layer", minimal=False)
    elif how == "add":
        k = Fn(s.V("k0"), [(s.P(0), s.V("k1"))])
        s.distinct(*[k.init, k.values[0]])
        s.same(s.op("+", r, s.build(k, "L")), s.lift(POINT["+"], w, k), "result + k", minimal=False)
    elif how == "changes":
        s.attr(r, "step_changes")
        s.same(r, w, "result after reading step_changes", minimal=False)
    elif how == "fillna":
        s.same(s.m(r, "fillna", 0), s.lift(lambda v: 0 if nan_(v) else v, w), "result.fillna(0)", minimal=False)
    elif how == "mul":
        s.same(s.op("*", r, 3), s.lift(POINT["*"], w, Fn(3)), "result * 3", minimal=False)
    elif how == "identical":
        w2 = s.simplify(w)
        t = s.truth(s.m(r, "identical", s.build(w2, "V")))
        if not t:
            raise Refuted("identical", "result is not identical to a freshly built equal function")
    elif how == "invert":
        s.same(s.un("~", r), s.lift(inv, w), "~result", minimal=False)
    elif how == "limit":
        for sd in ("left", "right"):
            s.val_eq(s.m(r, "limit", s.P(0), sd), s.at(w, s.P(0), sd), "limit of the result")


HOW = ("layer", "layer-vec", "add", "changes", "fillna", "mul", "identical", "invert", "limit")


def follows(pid, syms):
    for sym in syms:
        for how in HOW:
            for fs, gs in REP2:
                yield Ob(f"{pid}/{NAMES[sym]}-then-{how}/{sid(fs)}/{sid(gs)}", followup(sym, fs, gs, form1(fs), form1(gs), how))
            for fs in REP1:
                yield Ob(f"{pid}/{NAMES[sym]}-then-{how}/{sid(fs)}/c", followup(sym, fs, "c", form1(fs), None, how))
            yield Ob(f"{pid}/{NAMES[sym]}-then-{how}/ts/SNS", followup(sym, ("SNS", (0, 1)), "c", "V", None, how), "ts")


def obligations(tier):
    yield from C01.of(tier, "C04", REL)
    yield from follows("C04", REL)

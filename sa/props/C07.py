"""fillna only ever changes undefined points"""
from . import C01, C04, C06
from .ops import *

RULE = ("f.fillna(v) equals f wherever f is defined; elsewhere the scalar, g(x), or the nearest defined piece to the left / right, undefined only where the filler is")
EXPLAIN = ("Obligations = receiver shape (undefined pieces leading, trailing, inner, consecutive, everywhere) x form x filler (scalars of every flavour, four method names, "
           "functions of every shape incl. partly undefined and step-free) x domain kind x closed side; values symbolic.")

FILL = {"py": lambda s: s.V("c"), "int": lambda s: s.V("c", "pyi"), "np": lambda s: s.V("c", "np"), "npi": lambda s: s.V("c", "npi"), "zero": lambda s: 0}


def scalar(fs, ff, c):
    def body(s):
        f = s.fn(*fs, "f")
        v = FILL[c](s)
        s.same(s.m(s.build(f, ff), "fillna", v), s.lift(lambda x: v if nan_(x) else x, f), "fillna(c)", minimal=False)
    return body


def clipped(fs, name):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.m(s.build(f, form1(fs)), "clip", s.P(0), s.after(1))
        f = s.restrict(f, s.P(0), s.after(1))
        ap, sp = UNARY[name]
        s.same(ap(s, o), sp(s, f), f"clip then {name}", minimal=False)
    return body


def obligations(tier):
    P = "C07"
    names = ["fillna-scalar", "fillna-0", "fillna-ffill", "fillna-pad", "fillna-bfill", "fillna-backfill"]
    for n in names:
        for fs in unary_shapes(3):
            for ff in forms(fs[0], len(fs[1])):
                yield Ob(f"{P}/{n}/{sid(fs)}.{ff}", C01.unary(n, fs, ff))
        for v in VARIANTS:
            for fs in REP1 + [("NSS", (0, 1)), ("SSN", (0, 1)), ("SN", (0,)), ("NS", (0,))]:
                yield Ob(f"{P}/{n}/{vid(v)}/{sid(fs)}", C01.unary(n, fs, form1(fs)), *v)
        for fs in unary_shapes(2):
            yield Ob(f"{P}/clip-{n}/{sid(fs)}", clipped(fs, n))
    for c in FILL:
        for fs in unary_shapes(2):
            yield Ob(f"{P}/scalar-{c}/{sid(fs)}", scalar(fs, form1(fs), c))
    for fs, gs in C01.pairs(tier):
        for ff in forms(fs[0], len(fs[1])):
            for gf in forms(gs[0], len(gs[1])):
                if max(fs[1] + gs[1] + (0,)) > 1 and (ff, gf) not in (("V", "V"), ("L", "L"), ("C", "V"), ("V", "C"), ("M", "V"), ("V", "L")):
                    continue
                if "S" in (ff, gf) and not (ff == gf or "C" in (ff, gf)):
                    continue
                yield Ob(f"{P}/function/{sid(fs)}.{ff}/{sid(gs)}.{gf}", C06.fun("fillna", fs, gs, ff, gf))
    for v in VARIANTS:
        for fs, gs in REP2:
            yield Ob(f"{P}/function/{vid(v)}/{sid(fs)}/{sid(gs)}", C06.fun("fillna", fs, gs, form1(fs), form1(gs)), *v)
            yield Ob(f"{P}/function/{vid(v)}/{sid(gs)}/{sid(fs)}", C06.fun("fillna", gs, fs, form1(gs), form1(fs)), *v)

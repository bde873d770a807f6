"""Arithmetic is pointwise on the common domain"""
from .ops import *

RULE = ("for every partition member the piece table of f o g is the common refinement of the operands' pieces with the pointwise operation: undefined exactly where an "
        "operand is undefined or the divisor is zero, never infinite, no exception on any path")
EXPLAIN = ("Obligations = operator x operand shapes (which pieces exist, coincide, are undefined) x construction route / materialised form x scalar flavour and side x "
           "domain kind x closed side. Each is decided for all real values and all strictly increasing labels by the abstract interpreter's sign partition; no code is run.")


def binary(sym, fs, gs, ff, gf, how="op"):
    def body(s):
        f, g = s.fn(*fs, "f"), s.fn(*gs, "g")
        a, b = s.build(f, ff), s.build(g, gf)
        if how == "op":
            r = s.op(sym, a, b)
        elif how == "method":
            r = s.m(a, METHOD[sym], b)
        else:
            r = s.m(b, RMETHOD[sym], a)
        s.same(r, s.lift(POINT[sym], f, g), f"f {sym} g", minimal=False)
    return body


SCALARS = {
    "py": lambda s: s.V("c"), "pyi": lambda s: s.V("c", "pyi"), "np": lambda s: s.V("c", "np"), "npi": lambda s: s.V("c", "npi"),
    "zero": lambda s: 0, "zerof": lambda s: num(0, fl="py"), "one": lambda s: 1, "nan": lambda s: NAN, "npnan": lambda s: NAN, "true": lambda s: True,
}


def scalar(sym, fs, ff, sc, side, how="op"):
    def body(s):
        f = s.fn(*fs, "f")
        a = s.build(f, ff)
        c = SCALARS[sc](s)
        k = Fn(c)
        if side == "right":
            r = s.op(sym, a, c) if how == "op" else s.m(a, METHOD[sym], c)
            w = s.lift(POINT[sym], f, k)
        else:
            r = s.op(sym, c, a) if how == "op" else s.m(a, RMETHOD[sym], c)
            w = s.lift(POINT[sym], k, f)
        s.same(r, w, f"f {sym} c" if side == "right" else f"c {sym} f", minimal=False)
    return body


def unary(name, fs, ff):
    def body(s):
        f = s.fn(*fs, "f")
        a = s.build(f, ff)
        ap, sp = UNARY[name]
        s.same(ap(s, a), sp(s, f), name, minimal=False)
    return body


def pairs(tier):
    yield from binary_shapes()
    if tier == "thorough":
        seen = set(binary_shapes())
        for x in binary_shapes((0, 1, 2)):
            if x not in seen:
                yield x


def obligations(tier):
    yield from of(tier, "C01", ARITH)
    for n in ("neg", "negate"):
        for fs in unary_shapes(3):
            for ff in forms(fs[0], len(fs[1])):
                yield Ob(f"C01/{n}/{sid(fs)}.{ff}", unary(n, fs, ff))
        for v in VARIANTS:
            for fs in REP1:
                yield Ob(f"C01/{n}/{vid(v)}/{sid(fs)}", unary(n, fs, form1(fs)), *v)


def of(tier, pid, syms, scalars=SCALARS):
    """obligations of binary pointwise operators"""
    for sym in syms:
        nm = NAMES[sym]
        for fs, gs in pairs(tier):
            big = max(fs[1] + gs[1] + (0,)) > 1
            for ff in forms(fs[0], len(fs[1])):
                for gf in forms(gs[0], len(gs[1])):
                    if big and (ff, gf) not in (("V", "V"), ("L", "L"), ("C", "V"), ("V", "C"), ("M", "V"), ("V", "L")):
                        continue
                    if "S" in (ff, gf) and not (ff == gf or "C" in (ff, gf)):
                        continue
                    yield Ob(f"{pid}/{nm}/{sid(fs)}.{ff}/{sid(gs)}.{gf}", binary(sym, fs, gs, ff, gf))
        for how in ("method", "rmethod"):
            if how == "rmethod" and sym not in RMETHOD:
                continue
            for fs, gs in REP2:
                yield Ob(f"{pid}/{nm}-{how}/{sid(fs)}/{sid(gs)}", binary(sym, fs, gs, form1(fs), form1(gs), how))
        for v in VARIANTS:
            for fs, gs in REP2:
                yield Ob(f"{pid}/{nm}/{vid(v)}/{sid(fs)}/{sid(gs)}", binary(sym, fs, gs, form1(fs), form1(gs)), *v)
            for fs, gs in REP2[:2]:
                yield Ob(f"{pid}/{nm}/{vid(v)}/{sid(fs)}.L/{sid(gs)}.L", binary(sym, fs, gs, "L", "L"), *v)
        for sc in scalars:
            for side in ("right", "left"):
                for fs in unary_shapes(2):
                    for ff in forms(fs[0], len(fs[1])):
                        if ff in ("S", "LB", "VB") and sc not in ("py", "zero", "nan"):
                            continue
                        yield Ob(f"{pid}/{nm}-scalar/{side}-{sc}/{sid(fs)}.{ff}", scalar(sym, fs, ff, sc, side))
        for side in ("right", "left"):
            if side == "left" and sym not in RMETHOD:
                continue
            for fs in REP1:
                yield Ob(f"{pid}/{nm}-scalar-method/{side}/{sid(fs)}", scalar(sym, fs, form1(fs), "py", side, "method"))
        for v in VARIANTS:
            for fs in REP1:
                yield Ob(f"{pid}/{nm}-scalar/{vid(v)}/{sid(fs)}", scalar(sym, fs, form1(fs), "py", "right"), *v)
                yield Ob(f"{pid}/{nm}-scalar/{vid(v)}/left/{sid(fs)}", scalar(sym, fs, form1(fs), "py", "left"), *v)

"""Logical operators act pointwise on truthiness"""
from . import C01, C04
from .ops import *

RULE = ("f & g, f | g, f ^ g equal the truth value of and / or / xor wherever both operands are defined and are undefined exactly elsewhere (scalars and step-free operands "
        "included); ~f and make_boolean are complementary indicators of truthiness on f's domain")
EXPLAIN = C01.EXPLAIN


def obligations(tier):
    yield from C01.of(tier, "C05", LOGIC)
    yield from C04.follows("C05", LOGIC)
    for n in ("invert", "make_boolean"):
        for fs in unary_shapes(3):
            for ff in forms(fs[0], len(fs[1])):
                yield Ob(f"C05/{n}/{sid(fs)}.{ff}", C01.unary(n, fs, ff))
        for v in VARIANTS:
            for fs in REP1:
                yield Ob(f"C05/{n}/{vid(v)}/{sid(fs)}", C01.unary(n, fs, form1(fs)), *v)
        for how in C04.HOW:
            for fs in REP1:
                yield Ob(f"C05/{n}-then-{how}/{sid(fs)}", then(n, fs, how))


def then(n, fs, how):
    def body(s):
        f = s.fn(*fs, "f")
        ap, sp = UNARY[n]
        C04.follow(s, ap(s, s.build(f, form1(fs))), sp(s, f), how)
    return body

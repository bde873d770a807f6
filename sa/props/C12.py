"""Results are in minimal form, so identical() decides equality of functions"""
from . import C01, C02, C06
from .ops import *

RULE = ("every step function returned by a public operation has strictly increasing step points each of which is a change of value or definedness on every partition member; "
        "f.identical(g) answers exactly equality of the denoted functions; the listed pointwise identities hold up to identical; bool(f) is true exactly for the constant 1")
EXPLAIN = ("Obligations = operation x operand shapes/forms (values symbolic, so coinciding results on adjacent pieces are partition members) for minimality; pairs of shapes x forms for "
           "identical; identities of pointwise algebra over pairs/triples of shapes; domain kinds and closed sides on representative shapes.")


def minimal1(n, fs, ff, reads=False):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        ap, sp = UNARY[n]
        s.same(ap(s, o), sp(s, f), n, minimal=True)
    return body


def minimal2(op, fs, gs, ff, gf):
    def body(s):
        f, g = s.fn(*fs, "f"), s.fn(*gs, "g")
        s.same(apply2(s, op, s.build(f, ff), s.build(g, gf)), spec2(s, op, f, g), op, minimal=True)
    return body


def minimal_agg(name, shapes):
    def body(s):
        fns = [s.fn(*sh, ("fgh"[i] if i < 3 else f"f{i}_")) for i, sh in enumerate(shapes)]
        r = s.top(name, PyList([s.build(f, form1(sh)) for f, sh in zip(fns, shapes)]))
        s.same(r, s.lift(AGG[name], *fns), name, minimal=True)
    return body


def minimal_layer(fs, ff, calls):
    return C02.hist(fs, ff, calls, minimal=True)


def redundant_input(pat, npts):
    """from_values given repeated values"""
    def body(s):
        f = s.fn(pat, tuple(range(npts)), "f", minimal=False)
        o = s.build(f, "V")
        s.same(o, f, "from_values", minimal=True)
        k = s.simplify(f)
        if not s.truth(s.m(o, "identical", s.build(k, "V"))):
            raise Refuted("identical", "from_values with repeated values is not identical to the same function")
    return body


def identical(fs, gs, ff, gf):
    def body(s):
        f, g = s.fn(*fs, "f"), s.fn(*gs, "g")
        a, b = s.build(f, ff), s.build(g, gf)
        got = s.truth(s.m(a, "identical", b))
        back = s.truth(s.m(b, "identical", a))
        want = equal(s, f, g)
        if got != want:
            raise Refuted("identical", f"f.identical(g) is {got} although the functions are {'equal' if want else 'different'}")
        if back != want:
            raise Refuted("identical", f"g.identical(f) is {back} although the functions are {'equal' if want else 'different'}")
        if not s.truth(s.m(a, "identical", a)) or not s.truth(s.m(a, "identical", s.m(a, "copy"))):
            raise Refuted("identical", "identical is not reflexive")
        s.same(a, f, "left operand", minimal=False)
        s.same(b, g, "right operand", minimal=False)
    return body


def equal(s, f, g):
    for _, (x, y) in s.merge(f, g):
        if not s.eqval(x, y):
            return False
    return True


def ident_scalar(fs, ff, c):
    def body(s):
        f = s.fn(*fs, "f")
        a = s.build(f, ff)
        k = C01.SCALARS[c](s)
        got = s.truth(s.m(a, "identical", k))
        want = equal(s, f, Fn(k))
        if got != want:
            raise Refuted("identical", f"f.identical({k!r}) is {got}, the functions are {'equal' if want else 'different'}")
    return body


def boolean_(fs, ff, op=None):
    def body(s):
        f = s.fn(*fs, "f")
        a = s.build(f, ff)
        if op == "self==":
            a, f = s.op("==", a, a), s.lift(strict(lambda x, y: 1), f, f)
        elif op == "ge":
            a, f = s.op(">=", a, 0), s.lift(POINT[">="], f, Fn(0))
        elif op == "notna":
            a, f = s.m(a, "notna"), s.lift(lambda v: 0 if nan_(v) else 1, f)
        got = s.truth(a)
        want = equal(s, f, Fn(1))
        if got != want:
            raise Refuted("bool", f"bool(f) is {got} for {f!r}")
    return body


LAWS = {
    "add-comm": lambda s, f, g, h: (s.op("+", f, g), s.op("+", g, f)),
    "mul-comm": lambda s, f, g, h: (s.op("*", f, g), s.op("*", g, f)),
    "and-comm": lambda s, f, g, h: (s.op("&", f, g), s.op("&", g, f)),
    "or-comm": lambda s, f, g, h: (s.op("|", f, g), s.op("|", g, f)),
    "xor-comm": lambda s, f, g, h: (s.op("^", f, g), s.op("^", g, f)),
    "add-assoc": lambda s, f, g, h: (s.op("+", s.op("+", f, g), h), s.op("+", f, s.op("+", g, h))),
    "mul-assoc": lambda s, f, g, h: (s.op("*", s.op("*", f, g), h), s.op("*", f, s.op("*", g, h))),
    "distrib": lambda s, f, g, h: (s.op("*", f, s.op("+", g, h)), s.op("+", s.op("*", f, g), s.op("*", f, h))),
    "and-distrib": lambda s, f, g, h: (s.op("&", f, s.op("|", g, h)), s.op("|", s.op("&", f, g), s.op("&", f, h))),
    "de-morgan-and": lambda s, f, g, h: (s.un("~", s.op("&", f, g)), s.op("|", s.un("~", f), s.un("~", g))),
    "de-morgan-or": lambda s, f, g, h: (s.un("~", s.op("|", f, g)), s.op("&", s.un("~", f), s.un("~", g))),
    "sub-self": lambda s, f, g, h: (s.op("-", f, f), s.op("*", f, 0)),
    "double-not": lambda s, f, g, h: (s.un("~", s.un("~", f)), s.m(f, "make_boolean")),
    "mask-where": lambda s, f, g, h: (s.m(f, "mask", g), s.m(f, "where", s.un("~", g))),
    "where-mask": lambda s, f, g, h: (s.m(f, "where", g), s.m(f, "mask", s.un("~", g))),
    "sub-add-neg": lambda s, f, g, h: (s.op("-", f, g), s.op("+", f, s.un("-", g))),
    "double-neg": lambda s, f, g, h: (s.un("-", s.un("-", f)), f),
    "lt-gt": lambda s, f, g, h: (s.op("<", f, g), s.op(">", g, f)),
    "le-not-gt": lambda s, f, g, h: (s.op("<=", f, g), s.un("~", s.op(">", f, g))),
    "ne-not-eq": lambda s, f, g, h: (s.op("!=", f, g), s.un("~", s.op("==", f, g))),
    "xor-ne-bool": lambda s, f, g, h: (s.op("^", f, g), s.op("!=", s.m(f, "make_boolean"), s.m(g, "make_boolean"))),
    "notna": lambda s, f, g, h: (s.m(f, "notna"), s.un("~", s.m(f, "isna"))),
    "add-zero": lambda s, f, g, h: (s.op("+", f, 0), f),
    "mul-one": lambda s, f, g, h: (s.op("*", f, 1), f),
    "div-one": lambda s, f, g, h: (s.op("/", f, 1), f),
    "shift-back": lambda s, f, g, h: (s.m(s.m(f, "shift", D_(s)), "shift", s.delta(nsub(num(0), atom("+d")))), f),
    "agg-sum": lambda s, f, g, h: (s.top("sum", PyList([f, g])), s.op("+", f, g)),
    "agg-max": lambda s, f, g, h: (s.top("max", PyList([f, g])), s.un("-", s.top("min", PyList([s.un("-", f), s.un("-", g)])))),
}
UNARY_LAWS = {"sub-self", "double-not", "double-neg", "notna", "add-zero", "mul-one", "div-one", "shift-back"}
TERNARY_LAWS = {"add-assoc", "mul-assoc", "distrib", "and-distrib"}
DOMAINLOSS = {}


def law(name, shapes, fms):
    def body(s):
        fns = [s.fn(*sh, ("fgh"[i] if i < 3 else f"f{i}_")) for i, sh in enumerate(shapes)]
        obs = [s.build(f, fm) for f, fm in zip(fns, fms)] + [None, None]
        l, r = LAWS[name](s, *obs[:3])
        if not s.truth(s.m(l, "identical", r)) or not s.truth(s.m(r, "identical", l)):
            raise Refuted("identity", f"{name}: the two sides are not identical", left=repr(s.den(l)), right=repr(s.den(r)))
    return body


TRIPLES = [
    (("SS", (0,)), ("SS", (0,)), ("SS", (0,))),
    (("SS", (0,)), ("SS", (1,)), ("S", ())),
    (("SN", (0,)), ("SS", (1,)), ("NS", (0,))),
    (("SS", (1,)), ("S", ()), ("SNS", (0, 1))),
    (("S", ()), ("SS", (0,)), ("N", ())),
]


def obligations(tier):
    P = "C12"
    for n in UNARY:
        for fs in unary_shapes(3 if tier == "thorough" else 2):
            for ff in forms(fs[0], len(fs[1])):
                if ff in ("S", "LB") and tier == "quick":
                    continue
                yield Ob(f"{P}/min-{n}/{sid(fs)}.{ff}", minimal1(n, fs, ff))
        for v in VARIANTS:
            for fs in REP1:
                yield Ob(f"{P}/min-{n}/{vid(v)}/{sid(fs)}", minimal1(n, fs, form1(fs)), *v)
    for op in BINARY:
        for fs, gs in C01.pairs(tier):
            for ff, gf in (("V", "V"), ("L", "L"), ("M", "M"), ("V", "L"), ("L", "V"), ("V", "M")):
                a, b = forms(fs[0], len(fs[1])), forms(gs[0], len(gs[1]))
                x, y = ff if ff in a else a[0], gf if gf in b else b[0]
                yield Ob(f"{P}/min-{NAMES[op]}/{sid(fs)}.{x}/{sid(gs)}.{y}", minimal2(op, fs, gs, x, y))
        for v in VARIANTS:
            for fs, gs in REP2:
                yield Ob(f"{P}/min-{NAMES[op]}/{vid(v)}/{sid(fs)}/{sid(gs)}", minimal2(op, fs, gs, form1(fs), form1(gs)), *v)
    for a in AGG:
        for fs, gs in binary_shapes():
            yield Ob(f"{P}/min-agg-{a}/{sid(fs)}/{sid(gs)}", minimal_agg(a, (fs, gs)))
        for t in TRIPLES:
            yield Ob(f"{P}/min-agg-{a}/{'/'.join(map(sid, t))}", minimal_agg(a, t))
    for fs in C02.RECV:
        for ff in forms(fs[0], len(fs[1])):
            for c in C02.SC:
                if set(c) <= set("-pqmv"):
                    yield Ob(f"{P}/min-layer/{sid(fs)}.{ff}/{c}", minimal_layer(fs, ff, [c]))
            for v in (["pqv"], ["pqv", "qrw"], ["pqv", "pqn"], ["-qv", "p-w"], ["-pv", "p-v"]):
                yield Ob(f"{P}/min-layer-vec/{sid(fs)}.{ff}/{','.join(v)}", minimal_layer(fs, ff, [("list", v)]))
    for a in ("pqv", "-qv", "p-v"):
        for b in ("pqn", "pqw", "qrw", "-qn", "p-n", "qpv"):
            yield Ob(f"{P}/min-layer-two/{a},{b}", minimal_layer(("S", ()), "C", [a, b]))
    for pat in ("SS", "SSS", "SNN", "NNS", "NN", "SSN"):
        yield Ob(f"{P}/from-values/{pat}", redundant_input(pat, len(pat) - 1))
    for fs, gs in binary_shapes():
        for ff in forms(fs[0], len(fs[1])):
            for gf in forms(gs[0], len(gs[1])):
                if "S" in (ff, gf) and not (ff == gf or "C" in (ff, gf)):
                    continue
                yield Ob(f"{P}/identical/{sid(fs)}.{ff}/{sid(gs)}.{gf}", identical(fs, gs, ff, gf))
    for v in VARIANTS:
        for fs, gs in REP2 + [(f, f) for f in REP1]:
            for ff, gf in (("V", "V"), ("L", "V"), ("V", "M"), ("L", "L")):
                a, b = forms(fs[0], len(fs[1])), forms(gs[0], len(gs[1]))
                x, y = ff if ff in a else a[0], gf if gf in b else b[0]
                yield Ob(f"{P}/identical/{vid(v)}/{sid(fs)}.{x}/{sid(gs)}.{y}", identical(fs, gs, x, y), *v)
    for c in C01.SCALARS:
        for fs in REP1:
            yield Ob(f"{P}/identical-scalar/{c}/{sid(fs)}", ident_scalar(fs, form1(fs), c))
    for fs in unary_shapes(2):
        for ff in forms(fs[0], len(fs[1])):
            for op in (None, "self==", "ge", "notna"):
                yield Ob(f"{P}/bool/{op}/{sid(fs)}.{ff}", boolean_(fs, ff, op))
    for n in LAWS:
        if n in UNARY_LAWS:
            cases = [(x,) for x in unary_shapes(2)]
        elif n in TERNARY_LAWS:
            cases = TRIPLES
        else:
            cases = list(REP2) + [(b, a) for a, b in REP2[:6]] + [(("SS", (0,)), ("SS", (0,)))]
        for sh in cases:
            for fm in ("V", "L", "M"):
                fms = [fm if fm in forms(x[0], len(x[1])) else form1(x) for x in sh]
                yield Ob(f"{P}/law-{n}/{'/'.join(sid(x) + '.' + y for x, y in zip(sh, fms))}", law(n, sh, fms))

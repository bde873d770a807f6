"""The public operations that return a step function, with their pointwise meaning.

Every entry: apply(scene, operands) -> result object, spec(scene, functions) -> Fn."""
from .common import *


def arith(sym):
    def f(a, b):
        if nan_(a) or nan_(b):
            return NAN
        if sym == "/" and zero(b):
            return NAN
        return num_arith(sym, a, b, True)
    return f


def strict(op):
    def f(a, b):
        if nan_(a) or nan_(b):
            return NAN
        return op(a, b)
    return f


def relf(sym):
    return strict(rel(sym))


def l_and(a, b):
    return 1 if truthy(a) and truthy(b) else 0


def l_or(a, b):
    return 1 if truthy(a) or truthy(b) else 0


def l_xor(a, b):
    return 1 if truthy(a) != truthy(b) else 0


def masked(a, g):
    return a if not nan_(g) and zero(g) else NAN


def whered(a, g):
    return a if not nan_(g) and not zero(g) else NAN


def filled(a, g):
    return g if nan_(a) else a


ARITH = ["+", "-", "*", "/"]
REL = ["<", "<=", ">", ">=", "==", "!="]
LOGIC = ["&", "|", "^"]
METHOD = {"+": "add", "-": "subtract", "*": "multiply", "/": "divide", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne",
          "&": "logical_and", "|": "logical_or", "^": "logical_xor"}
RMETHOD = {"+": "radd", "-": "rsubtract", "*": "rmultiply", "/": "rdivide", "&": "logical_rand", "|": "logical_ror", "^": "logical_rxor"}
POINT = {**{o: arith(o) for o in ARITH}, **{o: relf(o) for o in REL}, "&": strict(l_and), "|": strict(l_or), "^": strict(l_xor),
         "mask": masked, "where": whered, "fillna": filled}
NAMES = {"+": "add", "-": "sub", "*": "mul", "/": "div", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne", "&": "and", "|": "or", "^": "xor",
         "mask": "mask", "where": "where", "fillna": "fillna"}
BINARY = ARITH + REL + LOGIC + ["mask", "where", "fillna"]


def apply2(s, op, a, b):
    if op in ("mask", "where", "fillna"):
        return s.m(a, op, b)
    return s.op(op, a, b)


def spec2(s, op, f, g):
    return s.lift(POINT[op], f, g)


def one(f):
    return lambda s, fn: s.lift(f, fn)


def neg(v):
    return NAN if nan_(v) else num_arith("-", 0, v)


def inv(v):
    return NAN if nan_(v) else (0 if truthy(v) else 1)


def boolean(v):
    return NAN if nan_(v) else (1 if truthy(v) else 0)


def ffill(s, fn):
    cur = fn.init
    out = []
    for l, v in fn.pts:
        cur = cur if nan_(v) else v
        out.append((l, cur))
    return Fn(fn.init, out)


def bfill(s, fn):
    vals = [fn.init] + fn.values
    cur = NAN
    res = []
    for v in reversed(vals):
        cur = cur if nan_(v) else v
        res.append(cur)
    res.reverse()
    return Fn(res[0], list(zip(fn.labels, res[1:])))


def outside(s, fn, a, b):
    """fn outside [a, b), undefined inside"""
    one_ = Fn(0 if a is not None else 1, ([(a, 1)] if a is not None else []) + ([(b, 0)] if b is not None else []))
    return s.lift(masked, fn, one_)


def diff(s, fn, d):
    return s.lift(POINT["-"], fn, s.shifted(fn, d))


def C_(s):
    return s.V("c")


# name -> (apply(s, obj), spec(s, fn))
UNARY = {
    "neg": (lambda s, o: s.un("-", o), one(neg)),
    "negate": (lambda s, o: s.m(o, "negate"), one(neg)),
    "invert": (lambda s, o: s.un("~", o), one(inv)),
    "make_boolean": (lambda s, o: s.m(o, "make_boolean"), one(boolean)),
    "isna": (lambda s, o: s.m(o, "isna"), one(lambda v: 1 if nan_(v) else 0)),
    "notna": (lambda s, o: s.m(o, "notna"), one(lambda v: 0 if nan_(v) else 1)),
    "fillna-scalar": (lambda s, o: s.m(o, "fillna", C_(s)), lambda s, fn: s.lift(lambda v: C_(s) if nan_(v) else v, fn)),
    "fillna-0": (lambda s, o: s.m(o, "fillna", 0), lambda s, fn: s.lift(lambda v: 0 if nan_(v) else v, fn)),
    "fillna-ffill": (lambda s, o: s.m(o, "fillna", "ffill"), ffill),
    "fillna-pad": (lambda s, o: s.m(o, "fillna", "pad"), ffill),
    "fillna-bfill": (lambda s, o: s.m(o, "fillna", "bfill"), bfill),
    "fillna-backfill": (lambda s, o: s.m(o, "fillna", "backfill"), bfill),
    "copy": (lambda s, o: s.m(o, "copy"), lambda s, fn: fn),
    "clip-01": (lambda s, o: s.m(o, "clip", s.P(0), s.P(1)), lambda s, fn: s.restrict(fn, s.P(0), s.P(1))),
    "clip-in": (lambda s, o: s.m(o, "clip", s.between(0), s.after(1)), lambda s, fn: s.restrict(fn, s.between(0), s.after(1))),
    "clip-low": (lambda s, o: s.m(o, "clip", s.P(0)), lambda s, fn: s.restrict(fn, s.P(0), None)),
    "clip-up": (lambda s, o: s.m(o, "clip", None, s.P(1)), lambda s, fn: s.restrict(fn, None, s.P(1))),
    "clip-none": (lambda s, o: s.m(o, "clip", None, None), lambda s, fn: fn),
    "clip-before": (lambda s, o: s.m(o, "clip", s.before(2), s.before(1)), lambda s, fn: s.restrict(fn, s.before(2), s.before(1))),
    "where-tuple": (lambda s, o: s.m(o, "where", (s.P(0), s.P(1))), lambda s, fn: s.restrict(fn, s.P(0), s.P(1))),
    "where-tuple-low": (lambda s, o: s.m(o, "where", (None, s.P(0))), lambda s, fn: s.restrict(fn, None, s.P(0))),
    "mask-tuple": (lambda s, o: s.m(o, "mask", (s.P(0), s.P(1))), lambda s, fn: outside(s, fn, s.P(0), s.P(1))),
    "mask-tuple-up": (lambda s, o: s.m(o, "mask", (s.P(1), None)), lambda s, fn: outside(s, fn, s.P(1), None)),
    "shift": (lambda s, o: s.m(o, "shift", D_(s)), lambda s, fn: s.shifted(fn, D_(s))),
    "diff": (lambda s, o: s.m(o, "diff", D_(s)), lambda s, fn: diff(s, fn, D_(s))),
    "add-c": (lambda s, o: s.op("+", o, C_(s)), lambda s, fn: s.lift(POINT["+"], fn, Fn(C_(s)))),
    "rsub-c": (lambda s, o: s.op("-", C_(s), o), lambda s, fn: s.lift(POINT["-"], Fn(C_(s)), fn)),
    "mul-c": (lambda s, o: s.op("*", o, C_(s)), lambda s, fn: s.lift(POINT["*"], fn, Fn(C_(s)))),
    "mul-0": (lambda s, o: s.op("*", o, 0), lambda s, fn: s.lift(POINT["*"], fn, Fn(0))),
    "div-c": (lambda s, o: s.op("/", o, C_(s)), lambda s, fn: s.lift(POINT["/"], fn, Fn(C_(s)))),
    "rdiv-c": (lambda s, o: s.op("/", C_(s), o), lambda s, fn: s.lift(POINT["/"], Fn(C_(s)), fn)),
    "gt-c": (lambda s, o: s.op(">", o, C_(s)), lambda s, fn: s.lift(POINT[">"], fn, Fn(C_(s)))),
    "eq-c": (lambda s, o: s.op("==", o, C_(s)), lambda s, fn: s.lift(POINT["=="], fn, Fn(C_(s)))),
    "and-1": (lambda s, o: s.op("&", o, 1), lambda s, fn: s.lift(POINT["&"], fn, Fn(1))),
    "or-1": (lambda s, o: s.op("|", o, 1), lambda s, fn: s.lift(POINT["|"], fn, Fn(1))),
    "and-0": (lambda s, o: s.op("&", o, 0), lambda s, fn: s.lift(POINT["&"], fn, Fn(0))),
    "xor-1": (lambda s, o: s.op("^", o, 1), lambda s, fn: s.lift(POINT["^"], fn, Fn(1))),
}


def D_(s):
    """a positive displacement unrelated to the step points' spacing"""
    return s.delta(s.A("+d"))


def vmin(vs):
    m = vs[0]
    for v in vs[1:]:
        if num_cmp("<", v, m):
            m = v
    return m


def vmax(vs):
    m = vs[0]
    for v in vs[1:]:
        if num_cmp(">", v, m):
            m = v
    return m


def vsum(vs):
    t = vs[0]
    for v in vs[1:]:
        t = num_arith("+", t, v)
    return t


def vsort(vs):
    out = []
    for v in vs:
        i = 0
        while i < len(out) and not num_cmp("<", v, out[i]):
            i += 1
        out.insert(i, v)
    return out


def vmedian(vs):
    o = vsort(vs)
    n = len(o)
    if n % 2:
        return o[n // 2]
    return num_arith("/", num_arith("+", o[n // 2 - 1], o[n // 2]), 2)


def agg_strict(f):
    def g(*vs):
        if any(nan_(v) for v in vs):
            return NAN
        return f(list(vs))
    return g


AGG = {
    "sum": agg_strict(vsum),
    "mean": agg_strict(lambda vs: num_arith("/", vsum(vs), len(vs))),
    "median": agg_strict(vmedian),
    "min": agg_strict(vmin),
    "max": agg_strict(vmax),
    "logical_or": agg_strict(lambda vs: 1 if any(truthy(v) for v in vs) else 0),
    "logical_and": agg_strict(lambda vs: 1 if all(truthy(v) for v in vs) else 0),
}

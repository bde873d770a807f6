"""The closed side is preserved, and opposite sides are never silently merged"""
from .ops import *
from .C13 import UN_EXTRA, concrete

RULE = ("every step function returned over the same domain has the closed side of the operand(s) with steps (of the receiver when none has), reports it through .closed and through its values at its step "
        "points; a left-closed and a right-closed operand that both have steps raise ClosedMismatchError on every path; no path on consistently closed operands raises it")
EXPLAIN = ("Obligations = operation x operand shapes (step-free by construction, by cancelled layering, by f - f, by masking) x closed side of every operand x forms x routes (operator, method, reflected, "
           "aggregation, StairsArray, tuple shorthand, slicer, cov / corr). Values and positions symbolic: results that lose all steps on some values are partition members.")

OTHER = {"left": "right", "right": "left"}


def mismatch(e):
    return isinstance(e.exc, Inst) and any(getattr(k, "name", "") == "ClosedMismatchError" for k in e.exc.cls.mro)


def expect_mismatch(s, f, what):
    try:
        r = f()
    except PyRaise as e:
        if mismatch(e):
            return
        raise
    raise Refuted("merged", f"{what} combines a left-closed and a right-closed function with steps into {r!r} instead of raising ClosedMismatchError")


def same_side(s, r, side, what, want=None):
    if not s.is_stairs(r):
        raise Refuted("type", f"{what} is not a step function: {r!r}")
    got = s.attr(r, "closed")
    if got != side:
        raise Refuted("closed", f"{what} is {got}-closed, expected {side}-closed")
    fn = s.den(r, what)
    if fn.pts:
        for l, v in zip(fn.labels, s.elements(s.m(r, "sample", PyList(fn.labels)), "sample")):
            w = s.at(fn, l, "right" if side == "left" else "left")
            if not s.eqval(v, w):
                raise Refuted("closed", f"{what} takes the value {s.show(v)} at its step point {l!r}, {side}-closed it is {s.show(w)}")
    return fn


def mkstepless(s, how, name, closed):
    """a function without steps, by several routes; -> (object, Fn)"""
    v = num(3) if s.grid else s.V(name + "0")
    st = s.stairs_cls()
    if how == "ctor":
        return s.call(st, initial_value=v, closed=closed), Fn(v)
    if how == "nan":
        return s.call(st, initial_value=NAN, closed=closed), Fn(NAN)
    if how == "zero":
        return s.call(st, closed=closed), Fn(0)
    if how == "cancel":
        o = s.call(st, initial_value=v, closed=closed)
        s.m(o, "layer", s.P(0), s.P(1), 1)
        return s.m(o, "layer", s.P(0), s.P(1), -1), Fn(v)
    if how == "cancel-vector":
        o = s.call(st, initial_value=v, closed=closed)
        s.m(o, "layer", PyList([s.P(0)]), PyList([s.P(1)]), PyList([num(1)]))
        return s.m(o, "layer", PyList([s.P(0)]), PyList([s.P(1)]), PyList([num(-1)])), Fn(v)
    if how == "f-f":
        o = s.m(s.call(st, closed=closed), "layer", s.P(0), s.P(1), 1)
        return s.op("-", o, o), Fn(0)
    if how == "f*0":
        o = s.m(s.call(st, closed=closed), "layer", s.P(0), s.P(1), 1)
        return s.op("*", o, 0), Fn(0)
    if how == "f>=0":
        o = s.m(s.call(st, closed=closed), "layer", s.P(0), s.P(1), 1)
        return s.op(">=", o, 0), Fn(1)
    if how == "masked":
        o = s.m(s.call(st, closed=closed), "layer", s.P(0), s.P(1), 1)
        return s.m(o, "mask", (None, None)), Fn(NAN)
    if how == "values":
        return s.call(s.U.getattr(st, "from_values"), initial_value=num(1), values=s.series([s.P(0)], [num(1)]), closed=closed), Fn(1)
    raise AssertionError(how)


STEPLESS = ["ctor", "nan", "zero", "cancel", "cancel-vector", "f-f", "f*0", "f>=0", "masked", "values"]


def operand(s, spec, name, closed):
    """spec: a shape, or a string naming a route to a step-free function"""
    if isinstance(spec, str):
        return mkstepless(s, spec, name, closed)
    (sh, ff) = spec
    f = s.fn(*sh, name)
    return s.build(f, ff, closed), f


def unary(n, spec):
    def body(s):
        o, f = operand(s, spec, "f", s.closed)
        r = UNARY[n][0](s, o)
        same_side(s, r, s.closed, n)
        if s.attr(o, "closed") != s.closed:
            raise Refuted("closed", f"the operand of {n} changed its side")
    return body


def steps(f):
    return bool(f.pts)


def binary(call, sa, sb, ca, cb, what):
    def body(s):
        a, f = operand(s, sa, "f", ca)
        b, g = operand(s, sb, "g", cb)
        if steps(f) and steps(g) and ca != cb:
            expect_mismatch(s, lambda: call(s, a, b), what)
        else:
            side = ca if steps(f) or not steps(g) else cb
            same_side(s, call(s, a, b), side, what)
        for o, c in ((a, ca), (b, cb)):
            if s.attr(o, "closed") != c:
                raise Refuted("closed", f"an operand of {what} changed its side")
    return body


def stat2(name, sa, sb, ca, cb, kw=()):
    def body(s):
        s.grid = True
        a, f = operand(s, sa, "f", ca)
        b, g = operand(s, sb, "g", cb)
        w = (s.before(2), s.before(1)) if "flat" in kw else (s.before(1), s.after(2))
        k = {"where": w}
        if "lag" in kw:
            k["lag"] = s.delta(nmul(s.A("+gb"), num(Fraction(1, 2))))
        if "post" in kw:
            k["clip"] = "post"
        if "nowhere" in kw:
            del k["where"]
        go = lambda: (s.top(name, PyList([a, b]), where=w) if "matrix" in kw else s.m(a, name, b, **k))
        if steps(f) and steps(g) and ca != cb:
            expect_mismatch(s, go, name)
        else:
            try:
                go()
            except PyRaise as e:
                if mismatch(e):
                    raise Refuted("mismatch", f"{name} of consistently closed functions raises ClosedMismatchError")
                raise
    return body


def collection(name, specs, sides, cont):
    def body(s):
        os_, fs = zip(*[operand(s, sp, ("fgh"[i] if i < 3 else f"f{i}_"), c) for i, (sp, c) in enumerate(zip(specs, sides))])
        have = {c for f, c in zip(fs, sides) if steps(f)}
        go = lambda: s.m(s.coll(cont, os_), name) if cont == "array" else s.top(name, s.coll(cont, os_))
        if len(have) > 1:
            expect_mismatch(s, go, name)
        else:
            same_side(s, go(), have.pop() if have else sides[0], f"{name} of a {cont}")
    return body


def array(op, sa, sb, ca, cb, mode):
    def body(s):
        a, f = operand(s, sa, "f", ca)
        b, g = operand(s, sb, "g", cb)
        arr = s.arr([a, a])
        go = lambda: s.op(op, arr, b if mode == "stairs" else s.arr([b, b])) if mode != "scalar" else s.op(op, arr, C_(s))
        if mode == "scalar":
            for r in s.elements(s.attr(go(), "data"), "array"):
                same_side(s, r, ca, f"array {op} scalar")
            return
        if steps(f) and steps(g) and ca != cb:
            expect_mismatch(s, go, f"array {op}")
        else:
            side = ca if steps(f) or not steps(g) else cb
            for r in s.elements(s.attr(go(), "data"), "array"):
                same_side(s, r, side, f"array {op}")
    return body


HEAVY = ("describe", "var", "std", "cov-lag", "cov-self", "cov-scalar", "quantiles", "hist", "percentile", "median", "agg-var", "agg-median", "slice-median", "slice-mode", "resample-median", "agg-mode")


def quiet(call, spec, what):
    """consistently closed input never raises a mismatch"""
    def body(s):
        s.grid = what in HEAVY
        o, f = operand(s, spec, "f", s.closed)
        try:
            r = call(s, o)
        except PyRaise as e:
            if mismatch(e):
                raise Refuted("mismatch", f"{what} of a {s.closed}-closed function raises ClosedMismatchError")
            raise Skip("raises")
        if s.is_stairs(r) and not s.xtile(r):
            same_side(s, r, s.closed, what)
    return body


CUTS = lambda s: PyList([s.before(1), s.P(0), s.between(0), s.after(2)])
QUIET = {
    **{f"resample-{n}": (lambda s, o, n=n: s.m(s.m(o, "slice", CUTS(s)), "resample", n)) for n in ("mean", "max", "min", "median")},
    **{f"slice-{n}": (lambda s, o, n=n: s.m(s.m(o, "slice", CUTS(s)), n)) for n in ("mean", "max", "min", "median", "mode", "integral")},
    **{f"agg-{n}": (lambda s, o, n=n: s.m(o, "agg", n, (s.before(1), s.between(0)))) for n in ("mean", "max", "min", "median", "var", "mode", "integral")},
    "slice-copies": lambda s, o: s.m(s.m(o, "slice", CUTS(s)), "apply", s.U.getattr(s.stairs_cls(), "copy")),
    "rolling_mean": lambda s, o: s.m(o, "rolling_mean", window=(s.delta(num_arith("-", 0, s.A("+d"))), D_(s))),
    "describe": lambda s, o: s.m(o, "describe", where=(s.before(1), s.after(2))),
    "var": lambda s, o: s.m(o, "var"), "std": lambda s, o: s.m(o, "std"), "median": lambda s, o: s.m(o, "median"), "quantiles": lambda s, o: s.m(o, "quantiles", 4),
    "hist": lambda s, o: s.m(o, "hist", bins=PyList([num(-1), num(1), num(5)])), "percentile": lambda s, o: s.call(s.attr(o, "percentile"), 30),
    "cov-self": lambda s, o: s.m(o, "cov", o, where=(s.before(1), s.after(2))), "identical-self": lambda s, o: s.m(o, "identical", o),
    "cov-lag": lambda s, o: s.m(o, "cov", o, where=(s.before(1), s.after(2)), lag=s.delta(nmul(s.A("+gb"), num(Fraction(1, 2))))),
    "cov-scalar": lambda s, o: s.m(o, "cov", s.call(s.stairs_cls(), initial_value=1), where=(s.before(1), s.after(2))),
    "layer-scalar": lambda s, o: s.m(o, "layer", s.P(0), s.between(0), s.V("m")),
    "layer-nostart": lambda s, o: s.m(o, "layer", None, s.between(0), s.V("m")),
    "layer-vector": lambda s, o: s.m(o, "layer", PyList([s.P(0), s.before(1)]), PyList([s.between(0), s.P(1)]), PyList([s.V("m"), num(1)])),
    "mask-tuple-open": lambda s, o: s.m(o, "mask", (None, s.P(0))), "mask-all": lambda s, o: s.m(o, "mask", (None, None)), "where-all": lambda s, o: s.m(o, "where", (None, None)),
    "mask-stepfree": lambda s, o: s.m(o, "mask", s.call(s.stairs_cls(), initial_value=1)),
    "where-stepfree": lambda s, o: s.m(o, "where", s.call(s.stairs_cls(), initial_value=1)),
    "mask-undefined": lambda s, o: s.m(o, "mask", s.call(s.stairs_cls(), initial_value=NAN)),
    "radd": lambda s, o: s.op("+", C_(s), o), "rmul": lambda s, o: s.op("*", C_(s), o), "rand": lambda s, o: s.op("&", 1, o), "ror": lambda s, o: s.op("|", 0, o), "rxor": lambda s, o: s.op("^", 1, o),
    "rlt": lambda s, o: s.op("<", C_(s), o), "radd-nan": lambda s, o: s.op("+", NAN, o), "add-nan": lambda s, o: s.op("+", o, NAN), "mul-nan": lambda s, o: s.op("*", o, NAN),
    "div-0": lambda s, o: s.op("/", o, 0), "rdiv-0": lambda s, o: s.op("/", 0, o), "le-nan": lambda s, o: s.op("<=", o, NAN), "sum-builtin": lambda s, o: s.op("+", s.op("+", 0, o), o),
    "bool": lambda s, o: s.m(o, "make_boolean"), "pipe": lambda s, o: s.m(o, "pipe", s.U.getattr(s.stairs_cls(), "copy")),
}

SH1 = [("SS", (0,)), ("SSS", (0, 1)), ("SNS", (0, 1)), ("NSN", (0, 1))]
PAIRS = [("SS", (0,)), ("SSS", (0, 1)), ("NS", (1,))]
ST = ["ctor", "nan", "cancel", "f-f"]


def obligations(tier):
    P = "C15"
    deep = tier != "quick"
    sides = ("left", "right")
    for c in sides:
        for n in UNARY:
            for sh in unary_shapes(2):
                for ff in forms(sh[0], len(sh[1])):
                    yield Ob(f"{P}/{n}/{c}/{sid(sh)}.{ff}", unary(n, (sh, ff)), "num", c)
            for how in STEPLESS:
                yield Ob(f"{P}/{n}/{c}/{how}", unary(n, how), "num", c)
        for n, q in {**QUIET, **UN_EXTRA}.items():
            for sh in SH1:
                for ff in forms(sh[0], len(sh[1])) if deep else dict.fromkeys((form1(sh), forms(sh[0], len(sh[1]))[-2])):
                    yield Ob(f"{P}/quiet-{n}/{c}/{sid(sh)}.{ff}", quiet(q, (concrete(sh, "120") if n in HEAVY else sh, ff), n), "num", c)
            for how in STEPLESS:
                yield Ob(f"{P}/quiet-{n}/{c}/{how}", quiet(q, how, n), "num", c)
    for kind in ("ts", "td", "tz"):
        for n in UNARY:
            for sh in [("SSS", (0, 1)), ("NSN", (0, 1)), ("S", ())]:
                yield Ob(f"{P}/{n}/{kind}/{sid(sh)}", unary(n, (sh, form1(sh))), kind, "right")
        for n, q in QUIET.items():
            for sh in [("SSS", (0, 1)), ("S", ())]:
                yield Ob(f"{P}/quiet-{n}/{kind}/{sid(sh)}", quiet(q, (concrete(sh, "120"), form1(sh)), n), kind, "right")
    specs = [((sh), form1(sh)) for sh in PAIRS] + ST
    nm = lambda x: x if isinstance(x, str) else f"{sid(x[0])}.{x[1]}"
    for op in BINARY:
        call = lambda s, a, b, op=op: apply2(s, op, a, b)
        for a in specs:
            for b in specs:
                for ca in sides:
                    for cb in sides:
                        if ca == cb == "left" and not deep:
                            continue
                        yield Ob(f"{P}/{NAMES[op]}/{ca}-{cb}/{nm(a)}/{nm(b)}", binary(call, a, b, ca, cb, NAMES[op]))
        if op in METHOD:
            call = lambda s, a, b, op=op: s.m(a, METHOD[op], b)
            for a, b in ((specs[0], specs[1]), (specs[0], "ctor"), ("ctor", specs[0]), ("ctor", "ctor"), (specs[1], specs[2])):
                for ca, cb in (("left", "right"), ("right", "left"), ("right", "right")):
                    yield Ob(f"{P}/{METHOD[op]}/{ca}-{cb}/{nm(a)}/{nm(b)}", binary(call, a, b, ca, cb, METHOD[op]))
        # other materialised forms
        for ff, gf in (("L", "V"), ("VB", "LB"), ("S", "L")):
            for ca, cb in (("left", "right"), ("right", "left"), ("right", "right")):
                call = lambda s, a, b, op=op: apply2(s, op, a, b)
                yield Ob(f"{P}/{NAMES[op]}-forms/{ca}-{cb}/{ff}/{gf}", binary(call, (("SSS", (0, 1)), ff), (("SS", (1,)), gf), ca, cb, NAMES[op]))
        # scalars combine with either side
    for name in ("cov", "corr"):
        for a in (specs[0], specs[1], "ctor", "cancel"):
            for b in (specs[0], specs[1], "ctor", "f-f"):
                for ca, cb in (("left", "right"), ("right", "left"), ("right", "right")):
                    for kw in ((), ("lag",), ("lag", "post"), ("matrix",), ("flat",)):
                        # values matter to the side only through which steps remain and a zero denominator
                        a_, b_ = [x if isinstance(x, str) else (concrete(x[0], "120"), x[1]) for x in (a, b)]
                        yield Ob(f"{P}/{name}/{ca}-{cb}/{nm(a_)}/{nm(b_)}/{'-'.join(kw)}", stat2(name, a_, b_, ca, cb, kw))
    triples = [("SS", "SS1"), ("SS", "C"), ("C", "SS"), ("C", "C"), ("C", "SS", "SS1"), ("SS", "C", "SS1"), ("X", "SS"), ("C", "X", "SS"), ("N", "SS"), ("SS", "SS1", "SS"), ("NS", "SS"), ("C", "SS", "C")]
    code = {"SS": (("SS", (0,)), "L"), "SS1": (("SS", (1,)), "V"), "NS": (("NS", (0,)), "V"), "C": "ctor", "X": "cancel", "N": "nan"}
    import itertools
    for name in AGG:
        for tr in triples:
            for cs in itertools.product(sides, repeat=len(tr)):
                for cont in ("list", "array", "ndarray", "dict", "series") if len(tr) == 2 and (deep or name in ("sum", "max")) else ("list",):
                    if len(tr) == 3 and name in ("median",) and not deep and len([t for t in tr if t != "C"]) > 2:
                        continue
                    yield Ob(f"{P}/{name}/{'-'.join(cs)}/{'-'.join(tr)}/{cont}", collection(name, [code[t] for t in tr], cs, cont))
    for op in ARITH + REL:
        for a in (specs[0], "ctor", "cancel"):
            for b in (specs[0], specs[2], "ctor"):
                for ca, cb in (("left", "right"), ("right", "left"), ("right", "right")):
                    for mode in ("stairs", "array", "scalar"):
                        yield Ob(f"{P}/array-{NAMES[op]}/{ca}-{cb}/{nm(a)}/{nm(b)}/{mode}", array(op, a, b, ca, cb, mode))

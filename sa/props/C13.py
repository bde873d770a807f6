"""Only layer mutates; results never alias operands or each other"""
from .ops import *

RULE = ("after any public operation, layering onto one of {result, sibling result, any operand} leaves every other object involved denoting the same function with the same closed side; "
        "queries leave their operands unchanged; storage is boxed in the abstract heap, so frames, columns and arrays that pandas would share are shared in the analysis")
EXPLAIN = ("Obligations = operation x operand shapes/forms x which object is layered onto afterwards x layer kind (scalar with both bounds / no start / no end, vector, frame) x prior reads. The "
           "expected function of every object is taken from an unmutated twin program, so the check presumes no particular meaning of the operation.")


def kwlayer(s, o, kind):
    """a layer call that changes the function wherever it is defined"""
    m = s.V("m")
    s.assume(m, (-1, 1))
    if kind == "scalar":
        s.m(o, "layer", s.P(0), s.between(0), m)
    elif kind == "nostart":
        s.m(o, "layer", None, s.P(0), m)
    elif kind == "noend":
        s.m(o, "layer", s.between(0), None, m)
    elif kind == "vector":
        s.m(o, "layer", PyList([s.P(0), s.before(1)]), PyList([s.between(0), s.P(0)]), PyList([m, num(1)]))
    elif kind == "vector-nostart":
        s.m(o, "layer", PyList([None, s.P(0)]), PyList([s.P(0), s.between(0)]), PyList([m, m]))
    elif kind == "frame":
        from .C02 import mkdict
        df = s.ext("pandas", "DataFrame", mkdict(s, [("s", PyList([s.P(0)])), ("e", PyList([s.between(0)])), ("v", PyList([m]))]))
        s.m(o, "layer", frame=df, start="s", end="e", value="v")
    elif kind == "twice":
        s.m(o, "layer", s.P(0), s.between(0), m)
        s.m(o, "layer", s.before(1), s.P(0), 1)
    else:
        raise AssertionError(kind)


def functions(s, r):
    """the step functions in a result"""
    if s.is_stairs(r):
        return [r]
    if isinstance(r, (Ser, Arr, PyList, tuple)) or isinstance(r, Inst):
        try:
            xs = [s.check_unknown(x) for x in s.U.iterate(r)]
        except PyRaise:
            return []
        return [x for x in xs if s.is_stairs(x)]
    return []


def prepare(s, shapes, forms_, reads):
    fns = [s.fn(*sh, ("fgh"[i] if i < 3 else f"f{i}_")) for i, sh in enumerate(shapes)]
    objs = [s.build(f, ff) for f, ff in zip(fns, forms_)]
    if reads:
        for o in objs:
            s.attr(o, "step_values")
            s.attr(o, "step_changes")
            s.attr(o, "ecdf") if reads == "stats" and s.finite_pieces(fns[objs.index(o)]) else None
    return fns, objs


def unchanged(s, o, want, closed, what):
    s.same(o, want, what, minimal=False, rule="aliasing", changes=not s.xtile(o))
    if s.attr(o, "closed") != closed:
        raise Refuted("aliasing", f"{what} is {s.attr(o, 'closed')}-closed now, was {closed}-closed")


def attempt(s, f, *a):
    """an operation that raises returns nothing: not a matter of aliasing"""
    try:
        return f(s, *a)
    except PyRaise as e:
        raise Skip(f"raises {e}")


def program(apply, shapes, forms_, target, kind, reads=None):
    """target: 'r' the first result, 'a'/'b' an operand, 'q' nothing (plain query)"""
    def body(s):
        fns, objs = prepare(s, shapes, forms_, reads)
        # the twin supplies what an unmutated result denotes
        _, twin = prepare(s, shapes, forms_, reads)
        want = [(s.den(r), s.attr(r, "closed")) for r in functions(s, attempt(s, apply, twin))]
        r1 = functions(s, attempt(s, apply, objs))
        r2 = functions(s, attempt(s, apply, objs))
        if not (len(r1) == len(r2) == len(want)):
            raise Refuted("aliasing", "repeating the operation gives another number of step functions")
        every = [(o, f, s.closed, f"operand {'fgh'[i]}") for i, (o, f) in enumerate(zip(objs, fns))]
        every += [(r, w, c, "earlier result" if n == 0 else "sibling result") for n, rs in ((0, r1), (1, r2)) for r, (w, c) in zip(rs, want)]
        if target == "q":
            mutated = None
        elif target == "r":
            if not r1:
                raise Skip("no step function returned")
            mutated = r1[0]
            # the very same object cannot be told apart
        else:
            mutated = objs["abc".index(target)]
        if mutated is not None:
            attempt(s, kwlayer, mutated, kind)
        for o, f, c, what in every:
            if o is mutated and not (target == "r" and what != "earlier result"):
                continue
            tail = {"r": "after layering onto the result", "q": "after the operation"}.get(target, f"after layering onto operand {'fgh'['abc'.find(target)]}")
            unchanged(s, o, f, c, f"{what} {tail}")
    return body


def ops_arr(how):
    def f(s, objs):
        arr = s.arr(objs)
        if how == "neg":
            return s.un("-", arr)
        if how == "add-c":
            return s.op("+", arr, C_(s))
        if how == "radd-c":
            return s.op("+", C_(s), arr)
        if how == "mul-1":
            return s.op("*", arr, 1)
        if how == "add-0":
            return s.op("+", arr, 0)
        if how == "sub-arr":
            return s.op("-", arr, arr)
        if how == "ge-f":
            return s.op(">=", arr, objs[0])
        if how == "sub-f":
            return s.op("-", arr, objs[0])
        raise AssertionError(how)
    return f


ARR = ["neg", "add-c", "radd-c", "mul-1", "add-0", "sub-arr", "ge-f", "sub-f"]


def slicing(how):
    def f(s, objs):
        o = objs[0]
        z = s.m(o, "slice", PyList([s.before(1), s.P(0), s.after(1)]))
        if how == "resample":
            return s.m(z, "resample", "max")
        if how == "apply-copy":
            return s.m(z, "apply", s.U.getattr(s.stairs_cls(), "copy"))
        if how == "apply-clip":
            return s.m(z, "apply", s.U.getattr(s.stairs_cls(), "clip"), None, None)
        if how == "apply-neg":
            return s.m(z, "apply", s.U.getattr(s.stairs_cls(), "negate"))
        if how == "one":
            z = s.m(o, "slice", PyList([s.before(1), s.after(1)]))
            return s.m(z, "apply", s.U.getattr(s.stairs_cls(), "copy"))
        if how == "mean":
            return s.m(z, "mean")
        raise AssertionError(how)
    return f


def att(n):
    return lambda s, objs: s.attr(objs[0], n)


def met(n, *a, **k):
    return lambda s, objs: s.m(objs[0], n, *[x(s) if callable(x) else x for x in a], **k)


LIST = lambda *f: (lambda s: PyList([x(s) for x in f]))
P0, P1, MID = (lambda s: s.P(0)), (lambda s: s.P(1)), (lambda s: s.between(0))
WIN = lambda s: (s.before(1), s.after(1))

# queries: (needs a finite defined piece, call)
QUERY = {
    "limit": (0, met("limit", LIST(P0, MID), side="right")), "limit-left": (0, met("limit", P0, side="left")), "sample": (0, met("sample", LIST(P0, P1))), "call": (0, lambda s, o: s.call(o[0], MID(s))),
    "limit-table": (0, met("limit", LIST(P0, MID), side="left", include_index=True)),
    "to_frame": (0, met("to_frame")), "step_values": (0, att("step_values")), "step_changes": (0, att("step_changes")), "step_points": (0, att("step_points")),
    "number_of_steps": (0, att("number_of_steps")), "bool": (0, lambda s, o: s.truth(o[0])), "min": (0, met("min")), "max": (0, met("max")),
    "agg-minmax": (0, lambda s, o: s.m(o[0], "agg", PyList(["min", "max"]), WIN(s))), "values_in_range": (0, met("values_in_range")),
    "values_in_range-w": (0, lambda s, o: s.m(o[0], "values_in_range", WIN(s))),
    "integral": (1, met("integral")), "mean": (1, met("mean")), "median": (1, met("median")), "mode": (1, met("mode")), "var": (1, met("var")), "std": (1, met("std")),
    "value_sums": (1, met("value_sums")), "value_sums-na": (1, met("value_sums", dropna=False)), "agg-mean": (1, lambda s, o: s.m(o[0], "agg", "mean", WIN(s))),
    "ecdf": (1, att("ecdf")), "percentile": (1, att("percentile")), "fractile": (1, att("fractile")), "quantiles": (1, met("quantiles", 4)),
    "hist": (1, lambda s, o: s.m(o[0], "hist", bins=PyList([s.A("b"), nadd(s.A("b"), s.A("+w"))]))), "describe": (1, met("describe")),
    "rolling_mean": (1, lambda s, o: s.m(o[0], "rolling_mean", window=(s.delta(num_arith("-", 0, s.A("+d"))), D_(s)))),
    "slice-mean": (1, lambda s, o: s.m(s.m(o[0], "slice", PyList([s.P(0), s.after(1)])), "mean")),
    "slice-max": (1, lambda s, o: s.m(s.m(o[0], "slice", PyList([s.P(0), s.after(1)])), "max")),
    "slice-hist": (1, lambda s, o: s.m(s.m(o[0], "slice", PyList([s.P(0), s.P(1)])), "hist", bins=PyList([s.A("b"), nadd(s.A("b"), s.A("+w"))]))),
}
QUERY2 = {
    "identical": lambda s, o: s.m(o[0], "identical", o[1]),
    "cov": lambda s, o: s.m(o[0], "cov", o[1], where=WIN(s)),
    "cov-lag": lambda s, o: s.m(o[0], "cov", o[1], where=WIN(s), lag=s.delta(nmul(s.A("+gb"), num(Fraction(1, 2))))),
    "corr": lambda s, o: s.m(o[0], "corr", o[1], where=WIN(s)),
    "arr-sample": lambda s, o: s.top("sample", PyList(list(o)), PyList([s.P(0)])),
    "arr-limit": lambda s, o: s.top("limit", PyList(list(o)), PyList([s.P(0)]), side="left"),
    "arr-cov": lambda s, o: s.top("cov", PyList(list(o)), where=WIN(s)),
}
SHAPES1 = [("SS", (0,)), ("SSS", (0, 1)), ("SNS", (0, 1)), ("NSN", (0, 1)), ("S", ()), ("N", ())]
SHAPES2 = [(("SSS", (0, 1)), ("SS", (0,))), (("SS", (0,)), ("SSS", (0, 1))), (("SNS", (0, 1)), ("SS", (0,))), (("SS", (0,)), ("NSN", (0, 1))), (("S", ()), ("SS", (0,))),
           (("SSS", (0, 1)), ("S", ())), (("S", ()), ("S", ())), (("N", ()), ("SS", (0,))), (("SNS", (0, 1)), ("N", ())), (("SSS", (0, 1)), ("SSS", (0, 1)))]
KINDS = ["scalar", "nostart", "vector", "twice"]


def concrete(sh, digits):
    """the shape with distinct constants in place of symbols"""
    it = iter(digits)
    return "".join(next(it) if c == "S" else c for c in sh[0]), sh[1]


def un(n):
    return lambda s, objs: UNARY[n][0](s, objs[0])


def bi(op):
    return lambda s, objs: apply2(s, op, objs[0], objs[1])


def selfop(op):
    return lambda s, objs: apply2(s, op, objs[0], objs[0])


def obligations(tier):
    P = "C13"
    deep = tier != "quick"
    for n in UNARY:
        for fs in SHAPES1:
            for ff in forms(fs[0], len(fs[1])):
                for t in "ra":
                    for k in KINDS + (["noend", "vector-nostart", "frame"] if deep or n in ("copy", "clip-none", "shift", "fillna-0", "mul-c") else []):
                        if ff in ("S", "M", "LB") and k != "scalar" and not deep:
                            continue
                        yield Ob(f"{P}/{n}/{sid(fs)}.{ff}/{t}-{k}", program(un(n), [fs], [ff], t, k))
                yield Ob(f"{P}/{n}/{sid(fs)}.{ff}/r-reads", program(un(n), [fs], [ff], "r", "scalar", "stats"))
                yield Ob(f"{P}/{n}/{sid(fs)}.{ff}/a-reads", program(un(n), [fs], [ff], "a", "scalar", "stats"))
    for op in BINARY:
        for fs, gs in SHAPES2:
            ffs = [(form1(fs), form1(gs)), (forms(fs[0], len(fs[1]))[-2:][0], forms(gs[0], len(gs[1]))[-2:][0])]
            if fs[1] and "N" not in fs[0] and "N" not in gs[0]:
                ffs.append(("L", "L" if gs[1] else "C"))
            heavy = not deep and len(fs[1]) + len(gs[1]) > 2 and op in REL + LOGIC + ["/", "fillna"]
            for n, (ff, gf) in enumerate(dict.fromkeys(ffs)):
                for t in "rab":
                    for k in ("scalar", "vector") + (("nostart", "noend", "twice", "frame") if deep else ("nostart",) if t == "r" else ()):
                        if heavy and (n or t == "b" or k != "scalar"):
                            c, d = concrete(fs, "1203"), concrete(gs, "2104")
                            yield Ob(f"{P}/{NAMES[op]}/{sid(c)}.{ff}/{sid(d)}.{gf}/{t}-{k}", program(bi(op), [c, d], [ff, gf], t, k))
                            continue
                        yield Ob(f"{P}/{NAMES[op]}/{sid(fs)}.{ff}/{sid(gs)}.{gf}/{t}-{k}", program(bi(op), [fs, gs], [ff, gf], t, k))
                yield Ob(f"{P}/{NAMES[op]}/{sid(fs)}.{ff}/{sid(gs)}.{gf}/r-reads", program(bi(op), [fs, gs], [ff, gf], "r", "scalar", "stats"))
        for fs in SHAPES1:
            for t in "ra":
                for k in ("scalar", "vector"):
                    yield Ob(f"{P}/{NAMES[op]}-self/{sid(fs)}/{t}-{k}", program(selfop(op), [fs], [form1(fs)], t, k))
    for name in AGG:
        for fs in SHAPES1:
            for t in "ra":
                for cont in ("list", "ndarray"):
                    yield Ob(f"{P}/{name}-one/{sid(fs)}/{cont}/{t}", program(lambda s, o, name=name, cont=cont: s.top(name, s.coll(cont, o)), [fs], [form1(fs)], t, "scalar"))
                    yield Ob(f"{P}/{name}-dup/{sid(fs)}/{cont}/{t}", program(lambda s, o, name=name, cont=cont: s.top(name, s.coll(cont, o + o)), [fs], [form1(fs)], t, "scalar"))
        for fs, gs in SHAPES2:
            for t in "rab":
                for k in ("scalar", "vector"):
                    if not deep and (k == "vector" or len(fs[1]) + len(gs[1]) > 2) and name in ("median", "min", "max"):
                        fs, gs = concrete(fs, "1203"), concrete(gs, "2104")
                    yield Ob(f"{P}/{name}/{sid(fs)}/{sid(gs)}/{t}-{k}", program(lambda s, o, name=name: s.top(name, PyList(list(o))), [fs, gs], [form1(fs), form1(gs)], t, k))
    for how in ARR:
        for fs, gs in SHAPES2:
            for t in "rab":
                for ff, gf in {(form1(fs), form1(gs)), (forms(fs[0], len(fs[1]))[-2:][0], forms(gs[0], len(gs[1]))[-2:][0])}:
                    yield Ob(f"{P}/array-{how}/{sid(fs)}.{ff}/{sid(gs)}.{gf}/{t}", program(ops_arr(how), [fs, gs], [ff, gf], t, "scalar"))
    for how in ("resample", "apply-copy", "apply-clip", "apply-neg", "one"):
        for fs in SHAPES1:
            for t in "ra":
                for k in ("scalar", "vector"):
                    yield Ob(f"{P}/slice-{how}/{sid(fs)}/{t}-{k}", program(slicing(how), [fs], [form1(fs)], t, k))
    for n, (finite, q) in QUERY.items():
        for fs in [("SSS", (0, 1)), ("SNSN", (0, 1, 2)), ("NSN", (0, 1))] + ([] if finite else [("SS", (0,)), ("S", ()), ("N", ())]):
            for ff in forms(fs[0], len(fs[1])):
                yield Ob(f"{P}/query-{n}/{sid(fs)}.{ff}", program(q, [fs], [ff], "q", None))
                if n in ("ecdf", "percentile", "fractile"):
                    for t in "ra":
                        for k in ("scalar", "vector", "twice"):
                            yield Ob(f"{P}/query-{n}/{sid(fs)}.{ff}/{t}-{k}", program(q, [fs], [ff], t, k))
        for v in VARIANTS:
            if n not in ("ecdf", "percentile", "fractile", "hist", "slice-hist"):
                yield Ob(f"{P}/query-{n}/{vid(v)}", program(q, [("SSS", (0, 1))], ["L"], "q", None), *v)
    for n, q in QUERY2.items():
        for fs, gs in SHAPES2:
            if ("cov" in n or "corr" in n) and (len(fs[1]) < 1 or len(gs[1]) < 1):
                continue
            if not deep and n in ("corr", "arr-cov"):
                fs, gs = concrete(fs, "1203"), concrete(gs, "2104")
            yield Ob(f"{P}/query-{n}/{sid(fs)}/{sid(gs)}", program(q, [fs, gs], [form1(fs), form1(gs)], "q", None))
    for v in VARIANTS:
        for n in UNARY:
            for fs in (("SSS", (0, 1)), ("NSN", (0, 1)), ("S", ())):
                for t in "ra":
                    yield Ob(f"{P}/{n}/{vid(v)}/{sid(fs)}/{t}", program(un(n), [fs], [form1(fs)], t, "scalar"), *v)
        for op in BINARY:
            for fs, gs in SHAPES2[:6:2]:
                fs, gs = concrete(fs, "1203"), concrete(gs, "2104")
                for t in "rab":
                    yield Ob(f"{P}/{NAMES[op]}/{vid(v)}/{sid(fs)}/{sid(gs)}/{t}", program(bi(op), [fs, gs], [form1(fs), form1(gs)], t, "scalar"), *v)
    # functions built from one caller-owned container, and from each other
    for cont in ("values", "list", "series", "frame"):
        for k in ("scalar", "nostart", "vector"):
            yield Ob(f"{P}/shared-input/{cont}/{k}", shared(cont, k))
    for how in ("from-step-values", "from-step-changes"):
        for ff in ("V", "VB", "L", "LB"):
            for t in "ra":
                for k in ("scalar", "vector", "twice"):
                    yield Ob(f"{P}/rebuilt-{how}/{ff}/{t}-{k}", program(rebuilt(how), [("SSS", (0, 1))], [ff], t, k))


def rebuilt(how):
    """a function built from what another one reports about itself"""
    def f(s, objs):
        o = objs[0]
        init = s.attr(o, "initial_value")
        if how == "from-step-values":
            return s.call(s.U.getattr(s.stairs_cls(), "from_values"), initial_value=init, values=s.attr(o, "step_values"), closed=s.closed)
        sc = s.attr(o, "step_changes")
        return s.call(s.stairs_cls(), start=s.attr(sc, "index"), value=sc, initial_value=init, closed=s.closed)
    return f


def shared(cont, k):
    """two functions built from the same container are independent of each other"""
    def body(s):
        f = s.fn("SSS", (0, 1), "f")
        st = s.stairs_cls()
        if cont == "values":
            c = s.series(f.labels, f.values)
            mk = lambda: s.call(s.U.getattr(st, "from_values"), initial_value=f.init, values=c, closed=s.closed)
        else:
            a, d = PyList(list(f.labels)), PyList(s.deltas(f))
            if cont == "series":
                a, d = s.vector("series", a.v), s.vector("series", d.v)
            if cont == "frame":
                from .C02 import mkdict
                df = s.ext("pandas", "DataFrame", mkdict(s, [("s", a), ("v", d)]))
                mk = lambda: s.call(st, frame=df, start="s", value="v", initial_value=f.init, closed=s.closed)
            else:
                mk = lambda: s.call(st, start=a, value=d, initial_value=f.init, closed=s.closed)
        x, y = mk(), mk()
        kwlayer(s, x, k)
        unchanged(s, y, f, s.closed, "function built from the same container")
        unchanged(s, mk(), f, s.closed, "function built from the container afterwards")
    return body


UN_EXTRA = {
    "fillna-self": lambda s, o: s.m(o, "fillna", s.m(o, "copy")),
    "mask-isna": lambda s, o: s.m(o, "mask", s.m(o, "isna")),
    "where-notna": lambda s, o: s.m(o, "where", s.m(o, "notna")),
    "add-self": lambda s, o: s.op("+", o, o), "sub-self": lambda s, o: s.op("-", o, o), "and-not": lambda s, o: s.op("&", o, s.un("~", o)),
    "diff-shift": lambda s, o: s.op("-", s.m(o, "shift", D_(s)), o),
    "clip-shift": lambda s, o: s.m(s.m(o, "clip", s.P(0), s.P(1)), "shift", D_(s)),
}

"""Numeric, Timestamp (naive or tz-aware) and Timedelta domains behave identically"""
from .C02 import mkdict
from .C13 import concrete
from .C16 import ALL2, PROV, T, U_, ANY, applies, op1, layered, arity, total
from .ops import *

RULE = ("the same program in two domains gives results that are images of one another under the relabelling of the points: step points and interval ends relabelled, values equal, lengths and integrals "
        "scaled to Timedeltas, the time zone on every label; an operation that answers in one domain answers in the other; labels given as int, float, numpy or pandas scalars of the same point are interchangeable")
EXPLAIN = ("Obligations = operation or query x shape x route of construction x pair of domains (float against int, naive and zoned Timestamp, Timedelta; labels mixed within one program; numpy flavours) x closed "
           "side. Both programs are interpreted side by side in one partition, with the same symbols for positions and values.")


# ------------------------------------------------------------ observations
def obs(s, r, what):
    """what there is to see of an answer, as plain data"""
    s.check_unknown(r)
    if s.is_stairs(r):
        f = s.den(r, what)
        sc = s.attr(r, "step_changes")
        return ("st", f, s.attr(r, "closed"), s.elements(s.attr(sc, "index"), what), s.elements(sc, what), s.attr(r, "number_of_steps"), s.xtile(r))
    if isinstance(r, DF):
        return ("df", s.elements(s.attr(r, "index"), what), s.elements(s.attr(r, "columns"), what), [[c.v for c in r.cols[k][0]] for k in r.cols])
    if isinstance(r, Ser):
        return ("ser", s.elements(s.attr(r, "index"), what), [x if not s.is_stairs(x) else obs(s, x, what) for x in s.elements(r, what)], isinstance(r.idx, Idx) and r.idx.closed)
    if isinstance(r, Arr2):
        return ("mat", [[hval(x.v) for x in row] for row in r.rows])
    if isinstance(r, (Arr, Idx, PyList, tuple)):
        return ("vec", [obs(s, x, what) if s.is_stairs(x) else x for x in s.elements(r, what)])
    if isinstance(r, Inst) and r.cls.name == "StairsArray":
        return ("vec", [obs(s, x, what) for x in s.elements(s.attr(r, "data"), what)])
    return ("x", hval(r))


def image(s, v, dim):
    """the entry an entry of the numeric answer corresponds to"""
    v = hval(v)
    if isinstance(v, Iv):
        return Iv(image(s, v.left, dim), image(s, v.right, dim), v.closed)
    if dim == "val" or not is_number(v) or isnull(v) or is_inf(v):
        return v
    x = to_num(v)
    return s.mklab(x) if dim == "lab" else s.delta(x)


def cmp1(s, got, num_, dim, what):
    if isinstance(num_, tuple):
        compare(s, num_, got, (dim,), what)
        return
    got = hval(got)
    want = image(s, num_, dim)
    if isnull(want) and isnull(got):
        return
    if isinstance(want, Iv) and isinstance(got, Iv) and want.closed != got.closed:
        raise Refuted("image", f"{what}: interval closed {got.closed}, closed {want.closed} in numbers")
    s.same_result(got, want, what, "image")


def cmpv(s, got, num_, dim, what):
    if len(got) != len(num_):
        raise Refuted("image", f"{what} has {len(got)} entries, {len(num_)} in numbers")
    for g, n in zip(got, num_):
        cmp1(s, g, n, dim, what)


def compare(s, n, k, dims, what):
    """k is the image of n"""
    if n[0] != k[0]:
        raise Refuted("image", f"{what} is {k!r}, in numbers {n!r}")
    if n[0] == "st":
        x = "val" if n[6] else "lab"
        if n[2] != k[2]:
            raise Refuted("image", f"{what} is {k[2]}-closed, {n[2]}-closed in numbers")
        cmp1(s, k[1].init, n[1].init, "lab" if dims[0] == "xtile" else "val", f"{what} towards -infinity")
        cmpv(s, k[1].labels, n[1].labels, x, f"step points of {what}")
        cmpv(s, k[1].values, n[1].values, "val", f"values of {what}")
        cmpv(s, k[3], n[3], x, f"index of the step changes of {what}")
        cmpv(s, k[4], n[4], "val", f"step changes of {what}")
        cmp1(s, k[5], n[5], "val", f"number of steps of {what}")
    elif n[0] == "df":
        ix, cx, cv = (dims + ("val",) * 3)[:3]
        cmpv(s, k[1], n[1], ix, f"index of {what}")
        cmpv(s, k[2], n[2], cx, f"columns of {what}")
        for i, (a, b) in enumerate(zip(n[3], k[3])):
            cmpv(s, b, a, cv[i] if isinstance(cv, list) else cv, f"column {i} of {what}")
    elif n[0] == "ser":
        cmpv(s, k[1], n[1], dims[0], f"index of {what}")
        cmpv(s, k[2], n[2], dims[1] if len(dims) > 1 else "val", what)
        if n[3] != k[3]:
            raise Refuted("image", f"the index of {what} is closed {k[3]}, in numbers {n[3]}")
    elif n[0] == "mat":
        for a, b in zip(n[1], k[1]):
            cmpv(s, b, a, "val", what)
    elif n[0] == "vec":
        cmpv(s, k[1], n[1], dims[0], what)
    else:
        cmp1(s, k[1], n[1], dims[0], what)


class Flav:
    """labels handed to the library as another scalar type"""
    def __init__(self, s, flav):
        self.s, self.flav = s, flav

    def __enter__(self):
        s, flav = self.s, self.flav
        if flav:
            mk, de = type(s).mklab.__get__(s), type(s).delta.__get__(s)

            def re(v):
                return Lab(v.kind, v.x, v.tz, flav) if isinstance(v, Lab) else Num(v.n, v.d, flav)
            s.mklab, s.delta = (lambda x: re(mk(x))), (lambda x: re(de(x)))

    def __exit__(self, *a):
        if self.flav:
            del self.s.mklab, self.s.delta


def twin(shs, call, dims, kind, flav=None, routes=None, grid=False, mixed=False, closed=None, skip=False):
    """call(s, objs, fns) in numbers and in the other domain"""
    def body(s):
        s.grid = grid
        out = []
        for k in ("num", kind):
            s.kind = k
            with Flav(s, flav if k == kind and out else None):
                try:
                    fns = [s.fn(*sh, ("fgh"[i] if i < 3 else f"f{i}_")) for i, sh in enumerate(shs)]
                    objs = []
                    for i, f in enumerate(fns):
                        if mixed and out and i % 2 == mixed - 1:      # this operand keeps float labels
                            s.kind = "num"
                        r = (routes or [None] * 9)[i]
                        objs.append(PROV[r][1](s, f) if r in PROV and f.pts else s.build(f, form1(shs[i])))
                        s.kind = k
                    r = call(s, objs, fns)
                except PyRaise as e:
                    if out:
                        raise Refuted("image", f"answers in numbers, but raises {e} in the {kind} domain")
                    if skip:
                        raise Skip(f"raises {e} in numbers")
                    raise
            out.append(obs(s, r, "the answer"))
        s.kind = kind
        compare(s, *out, dims, "the answer")
    return body


P0, P1, MID = (lambda s: s.P(0)), (lambda s: s.P(1)), (lambda s: s.between(0))
WIN = lambda s: (s.before(1), s.after(1))


def m(name, *a, **k):
    ev = lambda s, x: x(s) if callable(x) else x
    return lambda s, o, f: s.m(o[0], name, *[ev(s, x) for x in a], **{n: ev(s, x) for n, x in k.items()})


def lst(*f):
    return lambda s: PyList([x(s) for x in f])


def fin(q):
    """needs a finite defined piece"""
    def g(s, o, f):
        if not s.finite_pieces(f[0]):
            raise Skip("nothing defined on a finite interval")
        return q(s, o, f)
    return g


BINS = PyList([num(-1), num(Fraction(1, 2)), num(5)])
CUTS = lst(lambda s: s.before(1), P0, MID, lambda s: s.after(2))


def iv_index(s):
    return s.U.call(s.U.getattr(s.U.getattr(ExtMod("pandas"), "IntervalIndex"), "from_breaks"), [CUTS(s)], {"closed": "left"})


# query -> (call, dims)
QS = {
    "limit-left": (m("limit", lst(MID, P0, P1), "left"), ("val",)), "limit-right": (m("limit", lst(P1, P0), side="right"), ("val",)), "limit-one": (m("limit", P0, "left"), ("val",)),
    "limit-index": (m("limit", lst(MID, P0), "left", include_index=True), ("lab", "val")), "sample": (m("sample", lst(P0, MID, P1)), ("val",)), "sample-one": (m("sample", P1), ("val",)),
    "sample-index": (m("sample", lst(P1, P0), include_index=True), ("lab", "val")), "call": (lambda s, o, f: s.call(o[0], P0(s)), ("val",)), "call-list": (lambda s, o, f: s.call(o[0], PyList([P1(s), P0(s)])), ("val",)),
    "sample-ndarray": (lambda s, o, f: s.m(o[0], "sample", s.vector("ndarray", [P0(s), P1(s)])), ("val",)), "sample-series": (lambda s, o, f: s.m(o[0], "sample", s.vector("series", [P0(s), P1(s)])), ("val",)),
    "sample-pdindex": (lambda s, o, f: s.m(o[0], "sample", s.vector("index", [P0(s), P1(s)])), ("val",)), "limit-series": (lambda s, o, f: s.m(o[0], "limit", s.vector("series", [P0(s), P1(s)]), "left"), ("val",)),
    "limit-tuple": (lambda s, o, f: s.m(o[0], "limit", (P0(s), P1(s)), "left"), ("val",)),
    "to_frame": (m("to_frame"), ("val", "val", ["lab", "lab", "val"])), "step_values": (lambda s, o, f: s.attr(o[0], "step_values"), ("lab", "val")), "step_changes": (lambda s, o, f: s.attr(o[0], "step_changes"), ("lab", "val")),
    "step_points": (lambda s, o, f: s.attr(o[0], "step_points"), ("lab",)), "number_of_steps": (lambda s, o, f: s.attr(o[0], "number_of_steps"), ("val",)), "bool": (lambda s, o, f: s.truth(o[0]), ("val",)),
    "min": (m("min"), ("val",)), "max": (m("max"), ("val",)), "values_in_range": (m("values_in_range"), ("val",)),
    **{f"values_in_range-{w}": (m("values_in_range", win, **k), ("val",)) for w, win, k in (("w", WIN, {}), ("01", lambda s: (P0(s), P1(s)), {}), ("both", lambda s: (P0(s), P1(s)), {"closed": "both"}), ("neither", lambda s: (P0(s), P1(s)), {"closed": "neither"}),
                                                                                         ("half", lambda s: (P0(s), None), {}), ("up", lambda s: (None, P1(s)), {"closed": "right"}))},
    **{f"agg-{n}-{w}": (m("agg", n, win), ("len" if n == "integral" else "val",)) for n in ("min", "max", "mean", "integral", "median", "mode") for w, win in (("w", WIN), ("in", lambda s: (MID(s), s.after(2))))},
    "agg-list": (m("agg", PyList(["max", "min"]), WIN), ("val", "val")), "agg-half": (fin(m("agg", "mean", lambda s: (None, s.after(1)))), ("val",)),
    **{n: (fin(m(n)), ("len" if n == "integral" else "val",)) for n in ("integral", "mean", "median", "mode", "var", "std")}, "integral-any": (m("integral"), ("len",)), "mean-any": (m("mean"), ("val",)),
    "value_sums": (fin(m("value_sums")), ("val", "len")), "value_sums-na": (fin(m("value_sums", dropna=False)), ("val", "len")), "value_sums-flat": (fin(m("value_sums", group=False)), ("val", "len")),
    "percentile": (fin(lambda s, o, f: s.call(s.attr(o[0], "percentile"), PyList([num(10), num(50), num(90)]))), ("val",)), "fractile": (fin(lambda s, o, f: s.call(s.attr(o[0], "fractile"), PyList([num(Fraction(1, 2))]))), ("val",)),
    "ecdf": (fin(lambda s, o, f: s.call(s.attr(o[0], "ecdf"), PyList([num(0), num(1), num(2)]))), ("val",)), "quantiles": (fin(m("quantiles", 4)), ("val",)), "describe": (fin(m("describe")), ("val", "val")),
    **{f"hist-{st}": (fin(m("hist", bins=BINS, stat=st)), ("val", "len" if st == "sum" else "any" if st == "frequency" else "val")) for st in ("sum", "probability", "density", "frequency")}, "hist-unit": (fin(m("hist")), ("val", "len")),
    "rolling": (m("rolling_mean", window=lambda s: (s.delta(nsub(num(0), s.A("+d"))), D_(s))), ("lab", "val")),
    "rolling-where": (m("rolling_mean", window=lambda s: (s.delta(num(0)), s.delta(s.A("+g1"))), where=WIN), ("lab", "val")),
    **{f"slice-{n}": (lambda s, o, f, n=n: s.m(s.m(o[0], "slice", CUTS(s)), n), ("lab", "len" if n == "integral" else "val")) for n in ("mean", "min", "max")},
    **{f"slice-{n}": (lambda s, o, f, n=n: s.m(s.m(o[0], "slice", PyList([P0(s), MID(s), P1(s)])), n), ("lab", "len" if n == "integral" else "val")) for n in ("median", "mode", "integral")},
    "slice-agg": (lambda s, o, f: s.m(s.m(o[0], "slice", CUTS(s)), "agg", PyList(["max", "mean"])), ("lab", "val", "val")), "slice-index": (lambda s, o, f: s.m(s.m(o[0], "slice", iv_index(s)), "max"), ("lab", "val")),
    "slice-hist": (lambda s, o, f: s.m(s.m(o[0], "slice", PyList([P0(s), MID(s), P1(s)])), "hist", bins=BINS), ("lab", "val", "len")),
    "slice-apply": (lambda s, o, f: s.m(s.m(o[0], "slice", CUTS(s)), "apply", s.U.getattr(s.stairs_cls(), "number_of_steps") if 0 else s.U.getattr(s.stairs_cls(), "max")), ("lab", "val")),
    "resample": (lambda s, o, f: s.m(s.m(o[0], "slice", CUTS(s)), "resample", "mean"), ("val",)), "resample-max": (lambda s, o, f: s.m(s.m(o[0], "slice", CUTS(s)), "resample", "max"), ("val",)),
}
QS2 = {
    "identical": (lambda s, o, f: s.m(o[0], "identical", o[1]), ("val",)),
    **{f"{n}-{w}": (lambda s, o, f, n=n, k=k: s.m(o[0], n, o[1], **{a: b(s) if callable(b) else b for a, b in k.items()}), ("val",)) for n in ("cov", "corr") for w, k in
       (("w", dict(where=lambda s: (s.before(1), s.after(2)))), ("lag", dict(where=lambda s: (s.before(1), s.after(2)), lag=lambda s: s.delta(s.A("+gb")))),
        ("lag-post", dict(where=lambda s: (s.before(1), s.after(2)), lag=lambda s: s.delta(nsub(num(0), s.A("+gb"))), clip="post")))},
    **{f"{n}-matrix": (lambda s, o, f, n=n: s.top(n, PyList(list(o)), where=(s.before(1), s.after(2))), ("val", "val", "val")) for n in ("cov", "corr")},
    "sample-table": (lambda s, o, f: s.top("sample", PyList(list(o)), PyList([P1(s), P0(s), MID(s)])), ("val", "lab", "val")), "limit-table": (lambda s, o, f: s.top("limit", s.coll("dict", o), PyList([P1(s), P0(s)]), side="left"), ("val", "lab", "val")),
    "sample-table-one": (lambda s, o, f: s.top("sample", PyList(list(o)), P0(s)), ("val", "lab", "val")), "sample-accessor": (lambda s, o, f: s.m(s.attr(s.coll("series", o), "sc"), "sample", PyList([P0(s), P1(s)])), ("val", "lab", "val")),
    "array-sub": (lambda s, o, f: s.op("-", s.arr(o), o[0]), ("val",)), "array-ge": (lambda s, o, f: s.op(">=", s.arr(o), s.arr([o[1], o[0]])), ("val",)), "array-neg": (lambda s, o, f: s.un("-", s.arr(o)), ("val",)),
}
# frequencies of a histogram are lengths over widths of values: a length
QS = {k: (c, tuple("len" if d == "any" else d for d in ds)) for k, (c, ds) in QS.items()}

LAYERS = {
    "scalar": lambda s, o, f: s.m(o[0], "layer", s.between(0), s.after(1), 2), "nostart": lambda s, o, f: s.m(o[0], "layer", None, s.between(0), 2), "noend": lambda s, o, f: s.m(o[0], "layer", P0(s), None, 2),
    "on": lambda s, o, f: s.m(o[0], "layer", P0(s), P1(s), num(-1)), "vector": lambda s, o, f: s.m(o[0], "layer", PyList([P0(s), s.before(1)]), PyList([s.after(1), P0(s)]), PyList([num(1), num(2)])),
    "vector-none": lambda s, o, f: s.m(o[0], "layer", PyList([None, P0(s)]), PyList([P1(s), None])), "series": lambda s, o, f: s.m(o[0], "layer", s.vector("series", [P0(s), MID(s)]), s.vector("series-idx", [s.after(1), P1(s)])),
    "ndarray": lambda s, o, f: s.m(o[0], "layer", s.vector("ndarray", [P0(s), MID(s)]), s.vector("ndarray", [s.after(1), P1(s)])), "starts": lambda s, o, f: s.m(o[0], "layer", PyList([P0(s), P1(s)])),
    "ends": lambda s, o, f: s.m(o[0], "layer", None, PyList([P0(s), P1(s)])), "index": lambda s, o, f: s.m(o[0], "layer", s.vector("index", [P0(s), MID(s)]), None, PyList([num(1), num(3)])),
    "frame": lambda s, o, f: s.m(o[0], "layer", "a", "b", "v", frame=s.ext("pandas", "DataFrame", mkdict(s, [("b", PyList([s.after(1), P1(s)])), ("v", PyList([num(1), num(2)])), ("a", PyList([P0(s), MID(s)]))]))),
    "frame-nat": lambda s, o, f: s.m(o[0], "layer", "a", "b", frame=s.ext("pandas", "DataFrame", mkdict(s, [("a", PyList([P0(s), MID(s)])), ("b", PyList([None, P1(s)]))]))),
}

KINDS = [("ts", None), ("tz", None), ("td", None), ("int", None)]
FLAVS = [("num", "np"), ("int", "npi"), ("ts", "np"), ("td", "np"), ("num", "pyi"), ("num", "npi")]


def obligations(tier):
    Pr = "C17"
    deep = tier != "quick"
    nm = lambda n: NAMES.get(n, n) if ":" not in n else n.split(":")[0] + NAMES[n.split(":")[1]]
    kid = lambda k: k[0] + ("" if not k[1] else "." + k[1])

    def nary(n):
        def call(s, o, f):
            return op1(s, n, o[0], f[0], lambda: (o[1], f[1]))[0]
        return call
    UN = [("SS", (0,)), ("SSS", (0, 1)), ("SNS", (0, 1)), ("NSN", (0, 1)), ("S", ())]
    BI = [(("SSS", (0, 1)), ("SS", (1,))), (("SNS", (0, 1)), ("SS", (0,))), (("SS", (0,)), ("NSN", (0, 1))), (("S", ()), ("SN", (0,)))]
    for k in KINDS + FLAVS:
        for c in ("left", "right"):
            if c == "right" and (k[1] or k[0] == "int") and not deep:
                continue
            for n in list(UNARY):
                for sh in UN:
                    yield Ob(f"{Pr}/{nm(n)}/{kid(k)}-{c}/{sid(sh)}", twin([sh], nary(n), ("val",), *k), "num", c)
            for n in BINARY + list(AGG):
                for a, b in BI:
                    heavy = n in REL + LOGIC + ["/", "median", "max", "min"] and not deep
                    if heavy:
                        a, b = concrete(a, "203"), concrete(b, "130")
                    yield Ob(f"{Pr}/{nm(n)}/{kid(k)}-{c}/{sid(a)}/{sid(b)}", twin([a, b], nary(n), ("val",), *k), "num", c)
            for n, call in LAYERS.items():
                for sh in UN:
                    yield Ob(f"{Pr}/layer-{n}/{kid(k)}-{c}/{sid(sh)}", twin([sh], call, ("val",), *k), "num", c)
            for n, (q, dims) in QS.items():
                for sh in UN:
                    skip = n.startswith(("agg", "slice", "resample", "rolling", "hist"))
                    if not deep and n in ("describe", "var", "std", "quantiles", "percentile") or n.startswith(("slice", "hist", "agg", "resample")):
                        sh = concrete(sh, "203")
                    if not deep and k[1] and n.startswith(("hist", "quantiles", "describe", "var", "std", "ecdf", "fractile")):
                        continue
                    yield Ob(f"{Pr}/{n}/{kid(k)}-{c}/{sid(sh)}", twin([sh], q, dims, *k, grid=n.startswith(("slice", "rolling", "resample", "agg")), skip=True), "num", c)
            for n, (q, dims) in QS2.items():
                for a, b in BI:
                    stat = n.startswith(("cov", "corr"))
                    a, b = concrete(a, "203"), concrete(b, "130")
                    yield Ob(f"{Pr}/{n}/{kid(k)}-{c}/{sid(a)}/{sid(b)}", twin([a, b], q, dims, *k, grid=stat, skip=True), "num", c)
    # every route of construction
    for k in KINDS + FLAVS:
        for sh in (("SSS", (0, 1)), ("SNS", (0, 1)), ("NSN", (0, 1))):
            for pv, (kk, _) in PROV.items():
                if not applies(kk, sh) or not deep and k[1] and pv in ("glue", "*g/g", "mean", "median"):
                    continue
                yield Ob(f"{Pr}/route/{pv}/{kid(k)}/{sid(sh)}", twin([concrete(sh, "203") if pv in ("max", "median", "glue", "*g/g", "div0", "wheref") else sh], lambda s, o, f: o[0], ("val",), *k, routes=[pv]))
                for n in ("clip-in", "where-tuple", "mask-tuple", "shift", "fillna-ffill"):
                    if pv in ("L", "S", "frame", "ivv", "V", "M", "copy", "sum", "shift", "masked"):
                        yield Ob(f"{Pr}/route/{pv}/{n}/{kid(k)}/{sid(sh)}", twin([concrete(sh, "203")], nary(n), ("val",), *k, routes=[pv]))
                for n in ("limit-left", "sample-one", "slice-max", "agg-min-w", "values_in_range-both"):
                    if pv in ("L", "S", "frame", "V", "M", "shift"):
                        yield Ob(f"{Pr}/route/{pv}/{n}/{kid(k)}/{sid(sh)}", twin([concrete(sh, "203")], QS[n][0], QS[n][1], *k, routes=[pv], grid=True, skip=True))
    # int and float labels within one program
    for mixed in (1, 2):
        for n in BINARY + list(AGG):
            for a, b in BI:
                yield Ob(f"{Pr}/mixed/{nm(n)}/{mixed}/{sid(a)}/{sid(b)}", twin([concrete(a, "203"), concrete(b, "130")], nary(n), ("val",), "int", mixed=mixed))
        for n, (q, dims) in QS2.items():
            for a, b in BI:
                yield Ob(f"{Pr}/mixed/{n}/{mixed}/{sid(a)}/{sid(b)}", twin([concrete(a, "203"), concrete(b, "130")], q, dims, "int", mixed=mixed, grid=True, skip=True))
    for n, (q, dims) in QS.items():
        for sh in UN[1:4]:
            yield Ob(f"{Pr}/mixed/{n}/{sid(sh)}", twin([concrete(sh, "203")], q, dims, "int", mixed=1, grid=True, skip=True))
    for n, call in LAYERS.items():
        for sh in UN:
            yield Ob(f"{Pr}/mixed/layer-{n}/{sid(sh)}", twin([concrete(sh, "203")], call, ("val",), "int", mixed=1))
    for n in UNARY:
        for sh in UN:
            yield Ob(f"{Pr}/mixed/{nm(n)}/{sid(sh)}", twin([concrete(sh, "203")], nary(n), ("val",), "int", mixed=1))

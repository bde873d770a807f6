"""Results depend only on the functions denoted and compose without errors"""
from .C02 import mkdict
from .C13 import QUERY, QUERY2, concrete
from .ops import *

RULE = ("for every program of up to three operations over leaves of every provenance, with reads interposed, every path evaluates without an exception to the function obtained by applying the pointwise "
        "definitions step by step; queries of a result equal the same query of a directly built function with the same pieces; the flavour of a scalar makes no difference")
EXPLAIN = ("Obligations = route by which a leaf is built (scalar / vector / frame layering, intervals, open starts, from_values of float / int / redundant values, copy, results of arithmetic, masking, filling, "
           "clipping, shifting, aggregation, collections) x reads x operation or query; compositions op2(op1(f, g), h) of all public operations, results as left or right operand; scalar flavours.")


# ------------------------------------------------------------ provenance of a leaf
def total(fn):
    return not any(nan_(v) for v in [fn.init] + fn.values)


def stair(s, init, closed=None):
    return s.call(s.stairs_cls(), initial_value=init, closed=closed or s.closed)


def from_vals(s, fn, **k):
    return s.call(s.U.getattr(s.stairs_cls(), "from_values"), initial_value=fn.init, values=s.series(fn.labels, fn.values), closed=s.closed)


def raised(s, fn, v=7):
    """fn with a value in place of the undefined pieces, and where it is undefined"""
    up = lambda x: num(v) if nan_(x) else x
    na = lambda x: 1 if nan_(x) else 0
    return Fn(up(fn.init), [(l, up(x)) for l, x in fn.pts]), s.simplify(Fn(na(fn.init), [(l, na(x)) for l, x in fn.pts]))


def pieces(fn):
    """intervals with the height above the initial value"""
    out = []
    for i, (l, v) in enumerate(fn.pts):
        out.append((l, fn.labels[i + 1] if i + 1 < len(fn.pts) else None, num_arith("-", v, fn.init)))
    return out


def p_iv(s, fn, how):
    o = stair(s, fn.init)
    ivs = pieces(fn)
    if how == "scalar":
        for a, b, v in ivs[::-1]:
            o = s.m(o, "layer", a, b, v)
        return o
    a, b, v = [PyList([x[i] for x in ivs]) for i in range(3)]
    if how == "vector":
        return s.m(o, "layer", a, b, v)
    df = s.ext("pandas", "DataFrame", mkdict(s, [("v", v), ("e", b), ("s", a)]))
    if how == "frame":
        return s.m(o, "layer", "s", "e", "v", frame=df)
    return s.call(s.stairs_cls(), frame=df, start="s", end="e", value="v", initial_value=fn.init, closed=s.closed)


def p_open(s, fn, how):
    """layers without a start"""
    vs = [fn.init] + fn.values
    o = stair(s, vs[-1])
    ds = [num_arith("-", a, b) for a, b in zip(vs, vs[1:])]
    if how == "scalar":
        for l, d in zip(fn.labels, ds):
            o = s.m(o, "layer", None, l, d)
        return o
    return s.m(o, "layer", None, PyList(fn.labels), PyList(ds))


def p_dup(s, fn):
    pts = []
    for l, v in fn.pts:
        pts.append((l, v))
    x = (s.at_wide(10000) if s.wide else s.between(len(pts) - 1)) if pts else None
    pts.append((x, pts[-1][1]))
    return from_vals(s, Fn(fn.init, pts))


def V_(s, fn):
    return s.build(fn, form1(("N" if not total(fn) else "S", tuple(fn.labels))))


def L_(s, fn):
    return s.build(fn, "L" if total(fn) and fn.pts else "V")


def other(s):
    return s.m(stair(s, num(1)), "layer", s.between(0), s.after(1), 2)


def p_masked(s, fn, how):
    t, na = raised(s, fn)
    o = L_(s, t)
    g = L_(s, na)
    if how == "mask":
        return s.m(o, "mask", g)
    if how == "where":
        return s.m(o, "where", s.op("==", g, 0))
    if how == "div":
        return s.op("/", o, s.un("~", g))
    if how == "tuple":
        for i, v in enumerate([fn.init] + fn.values):
            if nan_(v):
                o = s.m(o, "mask", (fn.labels[i - 1] if i else None, fn.labels[i] if i < len(fn.pts) else None))
        return o
    if how == "add":
        return s.op("+", o, V_(s, s.simplify(Fn(NAN if nan_(fn.init) else 0, [(l, NAN if nan_(v) else 0) for l, v in fn.pts]))))
    raise AssertionError(how)


T, U_, ANY = "total", "undefined", "any"
PROV = {
    "S": (T, lambda s, f: s.build(f, "S")), "SB": (T, lambda s, f: s.build(f, "SB")), "L": (T, lambda s, f: s.build(f, "L")), "LB": (T, lambda s, f: s.build(f, "LB")), "V": (ANY, lambda s, f: s.build(f, "V")),
    "VB": (ANY, lambda s, f: s.build(f, "VB")), "M": (ANY, lambda s, f: s.build(f, "M")),
    "iv": (T, lambda s, f: p_iv(s, f, "scalar")), "ivv": (T, lambda s, f: p_iv(s, f, "vector")), "frame": (T, lambda s, f: p_iv(s, f, "frame")), "frame-ctor": (T, lambda s, f: p_iv(s, f, "ctor")),
    "open": (T, lambda s, f: p_open(s, f, "scalar")), "openv": (T, lambda s, f: p_open(s, f, "vector")), "redundant": (ANY, p_dup),
    "copy": (ANY, lambda s, f: s.m(V_(s, f), "copy")), "copyL": (T, lambda s, f: s.m(L_(s, f), "copy")), "+0": (ANY, lambda s, f: s.op("+", L_(s, f), 0)), "0+": (ANY, lambda s, f: s.op("+", 0, V_(s, f))),
    "--": (ANY, lambda s, f: s.un("-", s.un("-", L_(s, f)))), "*1": (ANY, lambda s, f: s.op("*", L_(s, f), 1)), "1*": (ANY, lambda s, f: s.op("*", num(1, fl="np"), V_(s, f))), "/1": (ANY, lambda s, f: s.op("/", L_(s, f), 1)),
    "-(c-f)": (ANY, lambda s, f: s.op("-", 5, s.op("-", 5, L_(s, f)))), "+g-g": (ANY, lambda s, f: s.op("-", s.op("+", L_(s, f), other(s)), other(s))), "*g/g": (ANY, lambda s, f: s.op("/", s.op("*", V_(s, f), other(s)), other(s))),
    "shift": (ANY, lambda s, f: s.m(s.m(L_(s, f), "shift", D_(s)), "shift", neg_d(s))), "clip": (ANY, lambda s, f: s.m(V_(s, f), "clip", None, None)), "mask0": (ANY, lambda s, f: s.m(L_(s, f), "mask", stair(s, 0))),
    "where1": (ANY, lambda s, f: s.m(V_(s, f), "where", stair(s, 1))), "glue": (ANY, lambda s, f: s.m(s.m(L_(s, f), "clip", None, s.P(0)), "fillna", s.m(V_(s, f), "clip", s.P(0), None))),
    "sum": (ANY, lambda s, f: s.top("sum", PyList([V_(s, f)]))), "sum0": (ANY, lambda s, f: s.top("sum", PyList([stair(s, 0), L_(s, f)]))), "max": (ANY, lambda s, f: s.top("max", PyList([L_(s, f), V_(s, f)]))),
    "mean": (ANY, lambda s, f: s.top("mean", PyList([V_(s, f), V_(s, f)]))), "median": (ANY, lambda s, f: s.top("median", PyList([L_(s, f)]))), "array": (ANY, lambda s, f: s.elements(s.attr(s.un("-", s.op("-", 0, s.arr([L_(s, f)]))), "data"), "array")[0]),
    "fillna": (T, lambda s, f: s.m(s.m(L_(s, f), "mask", (s.P(0), s.between(0))), "fillna", V_(s, f))), "isna-mul": (T, lambda s, f: s.op("*", s.m(V_(s, f), "notna"), L_(s, f))),
    "masked": (U_, lambda s, f: p_masked(s, f, "mask")), "masked-tuple": (U_, lambda s, f: p_masked(s, f, "tuple")), "wheref": (U_, lambda s, f: p_masked(s, f, "where")), "div0": (U_, lambda s, f: p_masked(s, f, "div")),
    "nan+": (U_, lambda s, f: p_masked(s, f, "add")),
}


def neg_d(s):
    return s.delta(nsub(num(0), s.A("+d")))


def applies(kind, sh):
    return kind == ANY or (kind == U_) == ("N" in sh[0])


# step-free leaves: how their value comes about
FREE = {
    "ctor": lambda s, v: stair(s, v), "+": lambda s, v: s.op("+", stair(s, 0), v), "layer": lambda s, v: s.m(stair(s, 0), "layer", None, None, v), "cancel": lambda s, v: s.op("+", s.op("-", other(s), other(s)), v),
    "*0": lambda s, v: s.op("+", s.op("*", other(s), 0), v), "rel": lambda s, v: s.op("*", s.op(">", other(s), num(0)), v), "layered": lambda s, v: s.m(s.m(stair(s, v), "layer", s.P(0), s.P(1), 1), "layer", s.P(0), s.P(1), num(-1)),
    "values": lambda s, v: s.call(s.U.getattr(s.stairs_cls(), "from_values"), initial_value=v, values=s.series([s.P(0)], [v]), closed=s.closed), "sum": lambda s, v: s.top("sum", PyList([stair(s, v), stair(s, 0)])),
    "fill": lambda s, v: s.m(stair(s, NAN), "fillna", v), "isna": lambda s, v: s.op("+", s.m(other(s), "isna"), v), "max": lambda s, v: s.top("max", PyList([stair(s, v)])), "inv": lambda s, v: s.op("+", s.un("~", stair(s, 1)), v),
    "bool": lambda s, v: s.op("*", s.m(stair(s, 3), "make_boolean"), v), "eq": lambda s, v: s.op("*", s.op("==", stair(s, v), stair(s, v)), v), "and": lambda s, v: s.op("*", s.op("&", stair(s, 1), stair(s, 2)), v),
}

READS = {
    "sv": lambda s, o, f: s.attr(o, "step_values"), "sc": lambda s, o, f: s.attr(o, "step_changes"), "tf": lambda s, o, f: s.m(o, "to_frame"), "n": lambda s, o, f: s.attr(o, "number_of_steps"),
    "lim": lambda s, o, f: s.m(o, "limit", PyList([s.P(0), s.between(0)]), "left"), "sam": lambda s, o, f: s.m(o, "sample", s.P(0)), "max": lambda s, o, f: s.m(o, "max"), "bool": lambda s, o, f: s.truth(o),
    "mean": lambda s, o, f: s.m(o, "mean") if s.finite_pieces(f) else None, "ecdf": lambda s, o, f: s.attr(o, "ecdf") if s.finite_pieces(f) else None, "pct": lambda s, o, f: s.call(s.attr(o, "percentile"), 50) if s.finite_pieces(f) else None,
    "copy": lambda s, o, f: s.m(o, "copy"), "neg": lambda s, o, f: s.un("-", o), "clip": lambda s, o, f: s.m(o, "clip", s.P(0), None), "sh": lambda s, o, f: s.m(o, "shift", D_(s)),
}


def read(s, o, f, which):
    if which:
        for k in READS if which == "all" else [which]:
            READS[k](s, o, f)


def leaf(s, sh, name, prov):
    f = s.fn(*sh, name)
    if not f.pts:
        o = FREE[prov](s, f.init) if prov in FREE else stair(s, f.init)
    else:
        o = PROV[prov][1](s, f) if prov in PROV else s.build(f, form1(sh))
    return o, f


def op1(s, n, o, f, g=None):
    """apply an operation of any arity -> result, function; g supplies further leaves"""
    if n in UNARY:
        a, sp = UNARY[n]
        return a(s, o), sp(s, f)
    if n in AGG:
        p, q = g()
        return s.top(n, PyList([o, p])), s.lift(AGG[n], f, q)
    p, q = g()
    if n.startswith("r:"):
        n = n[2:]
        return apply2(s, n, p, o), spec2(s, n, q, f)
    if n.startswith("self:"):
        n = n[5:]
        return apply2(s, n, o, o), spec2(s, n, f, f)
    return apply2(s, n, o, p), spec2(s, n, f, q)


def layered(s, o, f, kind):
    """a later layer onto the result (the result is an ordinary step function)"""
    m = num(2)
    s.m(o, "layer", s.P(0), s.after(1), m)
    return s.lift(POINT["+"], f, s.lift(POINT["-"], Fn(0, [(s.P(0), m)]), Fn(0, [(s.after(1), m)])))


def chain(sh, prov, ops, others=(), reads=(), grid=True, final=None):
    """ops applied in turn to a leaf; others = shapes of the further leaves, in order of use"""
    def body(s):
        s.grid = grid
        o, f = leaf(s, sh, "f", prov)
        rest = iter([(x, ("ghk"[i] if i < 3 else f"g{i}_")) for i, x in enumerate(others)])

        def g():
            (x, nm) = next(rest)
            x, pv = x if isinstance(x[0], tuple) else (x, None)
            return leaf(s, x, nm, pv)
        rd = iter(list(reads) + [None] * 9)
        read(s, o, f, next(rd))
        for n in ops:
            o, f = op1(s, n, o, f, g) if n != "layer" else (o, layered(s, o, f, n))
            read(s, o, f, next(rd))
        s.same(o, f, " then ".join(ops) or "leaf", minimal=False)
        for l in f.labels[:2]:
            for side in ("left", "right"):
                got = s.m(o, "limit", l, side)
                if not s.eqval(got, s.at(f, l, side)):
                    raise Refuted("denotation", f"limit {side} of {l!r} is {s.show(got)}, specified {s.show(s.at(f, l, side))}")
    return body


def query(sh, prov, ops, q, finite, others=(), grid=True, two=False):
    """a query of a result = the query of the directly built function"""
    def body(s):
        s.grid = grid
        o, f = leaf(s, sh, "f", prov)
        rest = iter([(x, ("ghk"[i] if i < 3 else f"g{i}_")) for i, x in enumerate(others)])
        g = lambda: leaf(s, *(lambda t: (t[0], t[1], None))(next(rest)))
        for n in ops:
            o, f = op1(s, n, o, f, g)
        f = s.simplify(f)
        if finite and not s.finite_pieces(f):
            raise Skip("nothing defined on a finite interval")
        d = V_(s, f)
        if two:
            p = s.m(stair(s, 1), "layer", s.P(0), s.between(0), 3)
            for a, b in (([o, p], [d, p]), ([p, o], [p, d])):
                want = q(s, b)
                s.same_result(q(s, a), want, "query")
            return
        try:
            want = q(s, [d])
        except PyRaise as e:
            raise Skip(f"not well-formed: {e}")
        s.same_result(q(s, [o]), want, "query")
    return body


SCAL = {
    "py": lambda s, v: v, "pyi": lambda s, v: fl(v, "pyi"), "np": lambda s, v: fl(v, "np"), "npi": lambda s, v: fl(v, "npi"),
}


def fl(v, flav):
    v = to_num(v)
    return Num(v.n, v.d, flav)


def scalar_in(where, flav, v, ff, sh):
    """a number of some flavour wherever a number may be passed"""
    def body(s):
        s.grid = True
        c = SCAL[flav](s, num(v) if v is not None else s.V("c"))
        f = s.fn(*sh, "f")
        o = s.build(f, ff)
        k = Fn(c)
        if where == "init":
            o = s.call(s.stairs_cls(), initial_value=c, closed=s.closed)
            s.m(o, "layer", s.P(0), s.between(0), 1)
            f = Fn(c, [(s.P(0), num_arith("+", c, 1)), (s.between(0), c)])
        elif where == "init-free":
            o, f = stair(s, c), k
        elif where == "init-values":
            o = s.call(s.U.getattr(s.stairs_cls(), "from_values"), initial_value=c, values=s.series([s.P(0), s.P(1)], [num(1), num(2)]), closed=s.closed)
            f = Fn(c, [(s.P(0), 1), (s.P(1), 2)])
        elif where == "layer":
            if not total(f):
                raise Skip("covered by C02")
            s.m(o, "layer", s.P(0), s.between(0), c)
            f = s.lift(POINT["+"], f, Fn(0, [(s.P(0), c), (s.between(0), 0)]))
        elif where == "layer-open":
            s.m(o, "layer", None, s.between(0), c)
            f = s.lift(POINT["+"], f, Fn(c, [(s.between(0), 0)]))
        elif where == "layer-all":
            s.m(o, "layer", None, None, c)
            f = s.lift(POINT["+"], f, k)
        elif where == "fillna":
            o, f = s.m(o, "fillna", c), s.lift(filled, f, k)
        elif where == "mask-free":
            o, f = s.m(o, "mask", stair(s, c)), s.lift(masked, f, k)
        elif where == "where-free":
            o, f = s.m(o, "where", stair(s, c)), s.lift(whered, f, k)
        elif where == "fillna-free":
            o, f = s.m(o, "fillna", stair(s, c)), s.lift(filled, f, k)
        elif where == "free-mask":
            o, f = s.m(stair(s, c), "mask", o), s.lift(masked, k, f)
        elif where == "free-where":
            o, f = s.m(stair(s, c), "where", o), s.lift(whered, k, f)
        elif where.startswith("free:"):
            n = where[5:]
            o, f = op1(s, n, stair(s, c), k, lambda: (o, f))
        elif where.startswith("op:"):
            n = where[3:]
            o, f = s.op(n, o, c), s.lift(POINT[n], f, k)
        elif where.startswith("rop:"):
            n = where[4:]
            o, f = s.op(n, c, o), s.lift(POINT[n], k, f)
        else:
            raise AssertionError(where)
        s.same(o, f, where, minimal=False)
        if v is None:
            return
        r, w = s.op("+", o, other(s)), s.lift(POINT["+"], f, s.den(other(s)))
        s.same(r, w, f"{where} then +", minimal=False)
        if where.startswith(("op:", "rop:", "free:")) and v != 0:
            return
        # as a masking function, a comparison operand, negated, filled
        h = other(s)
        hf = s.den(h)
        for n in ("mask", "where", "fillna", ">", "&", "^"):
            s.same(apply2(s, n, h, o), spec2(s, n, hf, f), f"{where} then {n}", minimal=False)
        s.same(s.un("-", o), s.lift(neg, f), f"{where} then negation", minimal=False)
        s.same(s.un("~", o), s.lift(inv, f), f"{where} then ~", minimal=False)
        s.same(s.m(o, "isna"), s.lift(lambda x: 1 if nan_(x) else 0, f), f"{where} then isna", minimal=False)
    return body


ALL2 = list(UNARY) + BINARY + ["r:" + o for o in BINARY] + ["self:" + o for o in BINARY] + list(AGG)
SHD = [(("SS", (0,)), "V"), (("SNS", (0, 1)), "V")]


def arity(n):
    return 0 if n in UNARY else 1


def obligations(tier):
    P = "C16"
    deep = tier != "quick"
    nm = lambda n: NAMES.get(n, n) if ":" not in n else n.split(":")[0] + NAMES[n.split(":")[1]]
    # provenance x operation, symbolic values
    for sh, G in ((("SSS", (0, 1)), ("SS", (1,))), (("SS", (0,)), ("SNS", (0, 1))), (("SNS", (0, 1)), ("S", ())), (("NSN", (0, 1)), ("SS", (0,)))):
        for pv, (kind, _) in PROV.items():
            if not applies(kind, sh):
                continue
            for n in ALL2:
                if not deep and (len(sh[1]) < 2 or sh[0] == "NSN") and (sum(map(ord, pv + n)) % 3):
                    continue
                a, b = sh, G
                if n.split(":")[-1] in REL + ["&", "|", "^", "/", "max", "min", "median"] and not deep:
                    a, b = concrete(a, "203"), concrete(b, "130")
                yield Ob(f"{P}/prov/{pv}/{nm(n)}/{sid(a)}", chain(a, pv, [n], [b]))
            yield Ob(f"{P}/prov/{pv}/layer/{sid(sh)}", chain(sh, pv, ["layer"]))
            for k, r in enumerate(READS):
                if not deep and (k + len(pv) + len(sh[0])) % 3:
                    continue
                for n in ("neg", "add-c", "mul-c", "+", "r:-", "*", "mask", "fillna", "sum", "layer"):
                    yield Ob(f"{P}/prov-{r}/{pv}/{nm(n)}/{sid(sh)}", chain(concrete(sh, "203"), pv, [n], [concrete(G, "130")], [r]))
            for qn, (finite, q) in QUERY.items():
                if qn in ("query-n",):
                    continue
                yield Ob(f"{P}/prov-query/{pv}/{qn}/{sid(sh)}", query(concrete(sh, "203"), pv, [], q, finite))
            for qn, q in QUERY2.items():
                if "corr" in qn or "cov" in qn and "N" in sh[0]:
                    continue
                yield Ob(f"{P}/prov-query/{pv}/{qn}/{sid(sh)}", query(concrete(sh, "203"), pv, [], q, True, two=True))
    for pv in FREE:
        for v in ("S", "0", "1", "N") if pv not in ("rel", "bool", "eq", "and", "inv") else ("S", "0", "1"):
            if v == "N" and pv in ("layer", "layered"):
                continue
            for n in ALL2 + ["layer"]:
                for G in (("SS", (0,)), ("NSS", (0, 1)), ("S", ())):
                    if not deep and n not in UNARY and (sum(map(ord, pv + n)) + len(G[1])) % 3:
                        continue
                    sh = (v, ())
                    b = concrete(G, "13")
                    yield Ob(f"{P}/free/{pv}/{nm(n)}/{v}/{sid(G)}", chain(sh, pv, [n], [b]))
                    if n in ("layer",) or n in UNARY:
                        break
    # two operations
    shapes2 = [(("20", (0,)), ("13", (1,)), ("3N1", (0, 1))), (("1N2", (0, 1)), ("02", (0,)), ("3", ())), (("2", ()), ("N31", (0, 1)), ("10", (0,))), (("SS", (0,)), ("1", ()), ("2N", (0,)))]
    for i, (sh, G, H) in enumerate(shapes2):
        for n in ALL2:
            for m in ALL2 + ["layer"]:
                if i == 3 and not deep and (n in REL or m in REL or n in ("div-c", "rdiv-c") or m in ("div-c", "rdiv-c")):
                    continue
                sel = sum(map(ord, n + m)) % 3
                if not deep and (i + sel) % 3 and not (n in UNARY and m in UNARY and i == 0):
                    continue
                rd = [None, ["sv", "sc", "max", "lim", "tf", "neg", None][(len(n) * 5 + len(m)) % 7]]
                yield Ob(f"{P}/two/{nm(n)}/{nm(m)}/{sid(sh)}", chain(sh, None, [n, m], [G, H] if arity(n) else [H], rd))
    # queries of results
    for sh, G in ((("20", (0,)), ("13", (1,))), (("1N2", (0, 1)), ("02", (0,))), (("312", (0, 1)), ("2", ()))):
        for n in ALL2:
            for qn, (finite, q) in QUERY.items():
                if not deep and qn in ("describe", "slice-hist", "hist", "std", "rolling_mean", "agg-mean") and len(G[1]):
                    continue
                yield Ob(f"{P}/query/{nm(n)}/{qn}/{sid(sh)}", query(sh, None, [n], q, finite, [G]))
            for qn in ("identical", "arr-sample", "arr-limit", "cov") if deep else ("identical",):
                yield Ob(f"{P}/query/{nm(n)}/{qn}/{sid(sh)}", query(sh, None, [n], QUERY2[qn], False, [G], two=True))
    # the type of a scalar
    places = ["init", "init-free", "init-values", "layer", "layer-open", "layer-all", "fillna", "mask-free", "where-free", "fillna-free", "free-mask", "free-where"] + ["free:" + n for n in BINARY + ["r:" + n for n in BINARY] + list(AGG)] + \
             ["op:" + o for o in ARITH + REL + LOGIC] + ["rop:" + o for o in ARITH + REL + LOGIC]
    for w in places:
        for flav in SCAL:
            for v in (0, 1, -2, None):
                for sh, ffs in ((("20", (0,)), ("V", "L")), (("1N2", (0, 1)), ("V", "M"))):
                    for ff in ffs:
                        if v is None and ff != "V" or not deep and ff != "V" and v != 1 and not w.startswith(("op", "rop", "mask", "fill")):
                            continue
                        yield Ob(f"{P}/scalar/{w}/{flav}/{v}/{sid(sh)}.{ff}", scalar_in(w, flav, v, ff, sh))
    for v in VARIANTS:
        for sh, G in ((("203", (0, 1)), ("13", (1,))), (("1N2", (0, 1)), ("02", (0,)))):
            for pv, (kind, _) in PROV.items():
                if applies(kind, sh):
                    for n in ("neg", "add-c", "gt-c", "+", "mask", "fillna", "max", "clip-in", "shift", "layer"):
                        yield Ob(f"{P}/prov/{vid(v)}/{pv}/{nm(n)}/{sid(sh)}", chain(sh, pv, [n], [G]), *v)
    if deep:
        tri = ["neg", "isna", "fillna-ffill", "clip-in", "shift", "rsub-c", "gt-c", "div-c", "mask-tuple", "+", "r:-", "*", "/", ">=", "&", "mask", "r:where", "fillna", "sum", "max", "layer"]
        for a in tri:
            for b in tri:
                for c in tri:
                    yield Ob(f"{P}/three/{nm(a)}/{nm(b)}/{nm(c)}", chain(("1N2", (0, 1)), None, [a, b, c], [("02", (0,)), ("31", (1,)), ("N1", (0,))]))

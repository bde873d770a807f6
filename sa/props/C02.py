"""Layering builds initial value + sum of the layered intervals"""
from .ops import *

RULE = ("after every call of a layer history the receiver denotes its previous function plus +value from start on and -value from end on (missing start: -infinity, missing end: "
        "none, missing value: 1), undefined points stay undefined, the same object is returned and no path raises")
EXPLAIN = ("Obligations = receiver shape/form x history of layer calls (scalar, vector, frame) x argument container x domain kind x closed side x interposed reads. Bounds: "
           "histories of up to 3 calls with up to 3 triples each; values and label positions are symbolic, so cancelling, abutting, nested, repeated, empty and reversed intervals are "
           "partition members, not samples.")

LABS = {
    "-": lambda s: None, "~": lambda s: NAN, "p": lambda s: s.P(0), "q": lambda s: s.P(1), "r": lambda s: s.P(2), "m": lambda s: s.between(0), "b": lambda s: s.before(1), "a": lambda s: s.after(2),
}
VALS = {"-": lambda s: None, "v": lambda s: s.V("v"), "w": lambda s: s.V("w"), "u": lambda s: s.V("u"), "n": lambda s: num_arith("-", 0, s.V("v")),
        "1": lambda s: 1, "i": lambda s: s.V("v", "pyi"), "x": lambda s: s.V("v", "np"), "0": lambda s: 0}


def step_at(s, l, v):
    return Fn(v) if l is None else Fn(0, [(l, v)])


def plus(s, fn, st, en, v):
    st, en = (None if isnull(x) else x for x in (st, en))
    add = strict(lambda x, y: num_arith("+", x, y))
    fn = s.lift(add, fn, step_at(s, st, v))
    if en is not None:
        fn = s.lift(add, fn, step_at(s, en, num_arith("-", 0, v)))
    return fn


def triple(s, code):
    st, en, v = LABS[code[0]](s), LABS[code[1]](s), VALS[code[2]](s)
    return st, en, v


def hist(fs, ff, calls, reads=(), init=None, kw=False, minimal=False):
    """calls: list of lists of triple codes; a one-element str is a scalar call"""
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        for i, call in enumerate(calls):
            if i in reads:
                s.attr(o, "step_values")
                s.attr(o, "step_changes")
            if isinstance(call, str):
                st, en, v = triple(s, call)
                if kw:
                    k = {n: x for n, x in (("start", st), ("end", en), ("value", v)) if x is not None}
                    r = s.m(o, "layer", **k)
                else:
                    r = s.m(o, "layer", st, en, v)
                f = plus(s, f, st, en, 1 if v is None else v)
            else:
                r, f = vec_call(s, o, f, *call)
            if r is not o:
                raise Refuted("receiver", "layer does not return the receiver")
            s.same(o, f, f"function after layer call {i + 1}", minimal=minimal)
    return body


MISS = {"none": lambda s: None, "nan": lambda s: NAN, "nat": lambda s: s.ext("pandas", "NaT") if False else None}


def vec_call(s, o, f, kind, codes, vmode="vec", lens=None, miss="none"):
    tr = [triple(s, c) for c in codes]
    st = [t[0] if t[0] is not None or miss == "none" else NAN for t in tr]
    en = [t[1] if t[1] is not None or miss == "none" else NAN for t in tr]
    vs = [1 if t[2] is None else t[2] for t in tr]
    if lens:
        st, en = st[:lens[0]], en[:lens[1]]
    for i, (t, v) in enumerate(zip(tr, vs)):
        a = t[0] if not lens or i < lens[0] else None
        b = t[1] if not lens or i < lens[1] else None
        f = plus(s, f, a, b, v)
    if kind == "frame":
        df = s.ext("pandas", "DataFrame", mkdict(s, [("s", PyList(st)), ("e", PyList(en)), ("v", PyList(vs))]), index=PyList([num(7 - i, fl="pyi") for i in range(len(tr))]))
        args = dict(frame=df, start="s", end="e", value="v")
        if all(t[0] is None for t in tr):
            args.pop("start")
        if all(t[1] is None for t in tr):
            args.pop("end")
        if vmode == "none":
            args.pop("value")
        elif vmode == "one":
            args["value"] = vs[0]
        return s.m(o, "layer", **args), f
    a = None if all(x is None for x in st) and vmode != "keep" else s.vector(kind, st)
    b = None if all(x is None for x in en) and vmode != "keep" else s.vector(kind, en)
    if vmode == "none":
        return s.m(o, "layer", a, b), f
    if vmode == "one":
        return s.m(o, "layer", a, b, vs[0]), f
    return s.m(o, "layer", a, b, s.vector(kind, vs)), f


def mkdict(s, items):
    d = PyDict()
    for k, v in items:
        d.d[s.U.hkey(k)] = (k, v)
    return d


RECV = [("S", ()), ("SS", (0,)), ("SSS", (0, 1)), ("SN", (0,)), ("NS", (0,)), ("SNS", (0, 1)), ("NSN", (0, 1)), ("N", ())]
SC = [a + b + "v" for a in "-pqmb" for b in "-pqma"]


def obligations(tier):
    P = "C02"
    # fresh receivers and every receiver shape, one scalar call
    for fs in RECV + [("SSN", (0, 1)), ("NSS", (0, 1))]:
        for ff in forms(fs[0], len(fs[1])):
            for c in SC:
                if ff in ("LB", "S") and not set(c[:2]) <= set("-pq"):
                    continue
                yield Ob(f"{P}/scalar/{sid(fs)}.{ff}/{c}", hist(fs, ff, [c]))
            for c in ("pq-", "p--", "-q1", "qpi", "max", "pq0", "---", "~qv", "p~v", "~~v"):
                yield Ob(f"{P}/scalar/{sid(fs)}.{ff}/{c}", hist(fs, ff, [c]))
            yield Ob(f"{P}/scalar-kw/{sid(fs)}.{ff}/pqv", hist(fs, ff, ["pqv"], kw=True))
            yield Ob(f"{P}/scalar-kw/{sid(fs)}.{ff}/-qv", hist(fs, ff, ["-qv"], kw=True))
    # two scalar calls on fresh / step-free / stepped receivers, with and without reads between
    two = ["pqv", "p-v", "-qv", "qpv", "-pv", "mqv", "--v"]
    second = ["pqw", "pqn", "p-n", "-qn", "qpw", "qrw", "-pw", "bmw", "q-w", "--w"]
    for fs in (("S", ()), ("SS", (0,)), ("SNS", (0, 1)), ("NS", (1,))):
        ff = "L" if "N" not in fs[0] and fs[1] else form1(fs)
        for a in two:
            for b in second:
                for rd in ((), (0, 1)):
                    yield Ob(f"{P}/two/{sid(fs)}/{a},{b}/{'reads' if rd else 'plain'}", hist(fs, ff, [a, b], rd))
    for a in ("pqv", "-qv", "q-v"):
        for b in ("pqn", "qrw", "-pn"):
            for c in ("pqu", "prn", "-qu", "qru"):
                yield Ob(f"{P}/three/{a},{b},{c}", hist(("S", ()), "C", [a, b, c]))
    # vectors
    vecs = [["pqv"], ["pqv", "qrw"], ["pqv", "pqn"], ["-qv", "p-w"], ["prv", "qqw"], ["pqv", "qpw"], ["p-v", "q-w"], ["-pv", "-qw"], ["pqv", "pqw"], ["pav", "mqw"], ["--v", "pqw"]]
    for kind in ("list", "tuple", "ndarray", "series", "series-idx", "frame"):
        for fs in RECV:
            ff = "L" if "N" not in fs[0] and fs[1] else form1(fs)
            for v in vecs:
                for miss in ("none", "nan") if any("-" in x[:2] for x in v) else ("none",):
                    yield Ob(f"{P}/vector/{kind}-{miss}/{sid(fs)}/{','.join(v)}", hist(fs, ff, [(kind, v, "vec", None, miss)]))
            for vm in ("none", "one"):
                v = ["pq1", "qr1"] if vm == "none" else ["pqv", "qrv"]
                yield Ob(f"{P}/vector/{kind}-value-{vm}/{sid(fs)}/{','.join(v)}", hist(fs, ff, [(kind, v, vm)]))
    for kind in ("list", "series", "ndarray"):
        for lens in ((2, 1), (1, 2), (2, 0), (0, 2)):
            yield Ob(f"{P}/vector-short/{kind}/{lens[0]}{lens[1]}", hist(("SS", (0,)), "L", [(kind, ["pqv", "mrw"], "vec", lens)]))
    for ff in ("V", "VB", "L", "LB", "S"):
        for v in vecs:
            yield Ob(f"{P}/vector-form/{ff}/{','.join(v)}", hist(("SSS", (0, 1)), ff, [("list", v)]))
    # mixed scalar / vector histories
    for a, b in ((("list", ["pqv", "qrw"]), "pqn"), ("pqv", ("list", ["pqn", "qrw"])), (("list", ["pqv"]), ("list", ["pqn"])), (("list", ["-qv"]), "qrw"),
                 (("frame", ["pqv", "qrw"]), ("series", ["qrn", "prw"]))):
        for fs in (("S", ()), ("SS", (0,)), ("SNS", (0, 1))):
            for rd in ((), (1,)):
                yield Ob(f"{P}/mixed/{sid(fs)}/{a}|{b}/{len(rd)}", hist(fs, form1(fs), [a, b], rd))
    # constructor shorthand
    for c in SC + ["pq-", "pqi"]:
        for init in ("S", "N"):
            yield Ob(f"{P}/ctor/{init}/{c}", ctor(init, c))
    for kind in ("list", "series-idx", "ndarray", "frame"):
        for v in vecs:
            yield Ob(f"{P}/ctor-vector/{kind}/{','.join(v)}", ctor("S", (kind, v)))
    # infinite sentinels
    for a, b in (("ninf", "q"), ("p", "inf"), ("ninf", "inf")):
        yield Ob(f"{P}/sentinel/{a},{b}", sentinel(a, b))
    for v in VARIANTS:
        for fs in RECV[:6]:
            for c in ("pqv", "-qv", "q-v", "mqv", "pqi", "~qv", "p~v"):
                yield Ob(f"{P}/{vid(v)}/scalar/{sid(fs)}/{c}", hist(fs, form1(fs), [c]), *v)
            for vv in vecs[:4]:
                for kind in ("list", "series-idx", "frame"):
                    yield Ob(f"{P}/{vid(v)}/vector/{kind}/{sid(fs)}/{','.join(vv)}", hist(fs, form1(fs), [(kind, vv)]), *v)
        yield Ob(f"{P}/{vid(v)}/two", hist(("S", ()), "C", ["pqv", "pqn"]), *v)
        yield Ob(f"{P}/{vid(v)}/mixed", hist(("S", ()), "C", ["pqv", ("list", ["pqn", "qrw"])]), *v)


def ctor(init, c):
    def body(s):
        f = s.fn((init), (), "f")
        if isinstance(c, str):
            st, en, v = triple(s, c)
            o = s.call(s.stairs_cls(), start=st, end=en, value=v, initial_value=f.init, closed=s.closed)
            f = plus(s, f, st, en, 1 if v is None else v)
        else:
            class Rec:
                pass
            kind, codes = c
            rec = []
            g, m = f, s.m
            s.m = lambda o, name, *a, **k: rec.append((a, k)) or o
            try:
                _, f = vec_call(s, None, f, kind, codes)
            finally:
                s.m = m
            a, k = rec[0]
            k.update(zip(("start", "end", "value"), a))
            o = s.call(s.stairs_cls(), initial_value=g.init, closed=s.closed, **k)
        s.same(o, f, "constructed function", minimal=False)
    return body


def sentinel(a, b):
    def body(s):
        o = s.call(s.stairs_cls(), initial_value=s.V("f0"), closed=s.closed)
        inf = s.st.d["inf"]
        st = s.un("-", inf) if a == "ninf" else s.P(0)
        en = inf if b == "inf" else s.P(1)
        r = s.m(o, "layer", st, en, s.V("v"))
        f = plus(s, Fn(s.V("f0")), None if a == "ninf" else st, None if b == "inf" else en, s.V("v"))
        s.same(o, f, "function", minimal=False)
    return body

"""ecdf, percentiles, median, mode, hist, describe follow the value distribution"""
from .ops import *
from .C08 import s_sums, s_mean, s_var, total, check_num, SHAPES
from .C10 import taken

RULE = ("with W the total length of the finite defined pieces: ecdf(y) = length{f<=y}/W and its left limit length{f<y}/W; percentile(p)=fractile(p/100) = midpoint of the lower and upper "
        "p-quantile (minimum at 0, maximum at 100); median = percentile(50); quantiles(q) = fractiles i/q; mode = a value of maximal length; hist bins = length per bin, normalised per "
        "stat; describe = these statistics of the windowed function as plain numbers")
EXPLAIN = ("Obligations = query x shape x form x probe. Values, piece lengths, the probed y, the probed p and the bin edges are symbolic, so every order of the values, ties, every position of p "
           "relative to the cumulative lengths (below, at, between, above) and every position of values relative to bin edges is a partition member. Unit bins use constant values.")


def dist(s, f):
    """[(value, length)] sorted, total"""
    out = []
    for v, l in s_sums(s, f):
        i = 0
        while i < len(out) and not num_cmp("<", v, out[i][0]):
            i += 1
        out.insert(i, (v, l))
    return out, total(out)


def cdf(s, f, y, strict=False):
    d, w = dist(s, f)
    t = num(0)
    for v, l in d:
        if num_cmp("<" if strict else "<=", v, y):
            t = nadd(t, l)
    return num_arith("/", t, w)


def quantile(s, f, q):
    """q in [0, 1]"""
    d, w = dist(s, f)
    if zero(q):
        return d[0][0]
    if zero(num_arith("-", q, 1)):
        return d[-1][0]
    c = num(0)
    for i, (v, l) in enumerate(d):
        c = nadd(c, l)
        k = num_cmp("<", q, num_arith("/", c, w))
        if k:
            return v
        if i + 1 < len(d) and zero(num_arith("-", q, num_arith("/", c, w))):
            return num_arith("/", num_arith("+", v, d[i + 1][0]), 2)
    return d[-1][0]


def usable(s, f):
    if not s.finite_pieces(f):
        raise Skip("no finite defined piece")


def elems(s, r, what):
    return [hval(x) for x in s.elements(r, what)]


YS = {"y": lambda s, f: s.V("y"), "v0": lambda s, f: next(v for v, _ in s.finite_pieces(f)), "vl": lambda s, f: s.finite_pieces(f)[-1][0], "yi": lambda s, f: s.V("y", "pyi"), "ynp": lambda s, f: s.V("y", "np")}


def ecdf(fs, ff, y, how, reads=()):
    def body(s):
        f = s.fn(*fs, "f")
        usable(s, f)
        o = s.build(f, ff)
        for r in reads:
            s.m(o, r)
        e = s.attr(o, "ecdf")
        x = YS[y](s, f)
        if how == "call":
            check_num(s, s.call(e, x), cdf(s, f, x), "ecdf(y)")
        elif how == "sample":
            check_num(s, s.m(e, "sample", x), cdf(s, f, x), "ecdf.sample(y)")
        elif how == "left":
            check_num(s, s.m(e, "limit", x, side="left"), cdf(s, f, x, True), "left limit of the ecdf")
        elif how == "right":
            check_num(s, s.m(e, "limit", x, "right"), cdf(s, f, x), "right limit of the ecdf")
        elif how == "vector":
            xs = [x, YS["v0"](s, f), s.V("z")]
            for side in ("left", "right"):
                for k, g in zip(xs, elems(s, s.m(e, "limit", PyList(xs), side), "ecdf.limit")):
                    check_num(s, g, cdf(s, f, k, side == "left"), f"ecdf {side} limit")
        s.same(o, f, "function after the query", minimal=False)
    return body


def pct(fs, ff, which, how, window=None, reads=()):
    def body(s):
        f = s.fn(*fs, "f")
        usable(s, f)
        o = s.build(f, ff)
        for r in reads:
            s.m(o, r) if not r.startswith(".") else s.attr(o, r[1:])
        scale = 100 if which == "percentile" else 1
        p = s.V("q")
        if how == "0":
            p = num(0, fl="pyi")
        elif how == "1":
            p = num(scale, fl="pyi")
        elif how == "half":
            p = num(Fraction(scale, 2), fl="py")
        elif how in ("in", "vector"):
            # strictly inside: q/(q+r) of the scale
            p = num_arith("/", num_arith("*", atom("+q"), scale), nadd(atom("+q"), atom("+r")))
        elif how.startswith("cum"):
            # exactly at a cumulative length
            d, w = dist(s, f)
            if len(d) <= int(how[3:]):
                raise Skip("fewer values")
            c = num(0)
            for v, l in d[:int(how[3:])]:
                c = nadd(c, l)
            p = num_arith("*", num_arith("/", c, w), scale)
        t = s.attr(o, which)
        want = quantile(s, f, num_arith("/", p, scale))
        if how == "vector":
            ps = [num(0), p, num(scale)]
            for k, g in zip(ps, elems(s, s.call(t, PyList(ps)), which)):
                check_num(s, g, quantile(s, f, num_arith("/", k, scale)), f"{which} of a vector")
        else:
            check_num(s, s.call(t, p), want, f"{which}(p)")
            check_num(s, s.m(t, "sample", p), want, f"{which}.sample(p)")
        s.same(o, f, "function after the query", minimal=False)
    return body


def median(fs, ff, how="method"):
    def body(s):
        f = s.fn(*fs, "f")
        usable(s, f)
        o = s.build(f, ff)
        got = s.m(o, "median") if how == "method" else s.m(o, "agg", "median", (s.P(0), s.between(1))) if how == "window" else s.m(o, "agg", "median")
        if how == "window":
            f = s.restrict(f, s.P(0), s.between(1))
            usable(s, f)
        check_num(s, got, quantile(s, f, num(Fraction(1, 2))), "median")
    return body


def mode(fs, ff, how="method"):
    def body(s):
        f = s.fn(*fs, "f")
        usable(s, f)
        o = s.build(f, ff)
        if how == "window":
            got = s.m(o, "agg", "mode", (s.between(0), None))
            f = s.restrict(f, s.between(0), None)
            usable(s, f)
        else:
            got = s.m(o, "mode") if how == "method" else s.m(o, "agg", "mode")
        d, _ = dist(s, f)
        hit = [l for v, l in d if same_num(v, got)]
        if not hit:
            raise Refuted("value", f"mode is {s.show(got)}, not a value of the function")
        for v, l in d:
            if num_cmp(">", l, hit[0]):
                raise Refuted("value", f"mode is {s.show(got)} of length {s.show(hit[0])} although {s.show(v)} has length {s.show(l)}")
    return body


def quantiles(fs, ff, n):
    def body(s):
        f = s.fn(*fs, "f")
        usable(s, f)
        o = s.build(f, ff)
        got = elems(s, s.m(o, "quantiles", n), "quantiles")
        if len(got) != n - 1:
            raise Refuted("shape", f"quantiles({n}) has {len(got)} entries")
        for i, g in enumerate(got):
            check_num(s, g, quantile(s, f, num(Fraction(i + 1, n))), f"quantile {i + 1}/{n}")
    return body


def bins(s, how):
    """-> (argument, [(l, r)])"""
    b = [s.V("b"), nadd(s.V("b"), atom("+w1")), nadd(nadd(s.V("b"), atom("+w1")), atom("+w2"))]
    if how in ("list", "tuple", "ndarray"):
        return s.vector(how, b), [(b[0], b[1]), (b[1], b[2])]
    if how == "one":
        return PyList(b[:2]), [(b[0], b[1])]
    if how.startswith("breaks"):
        return s.ext("pandas", "IntervalIndex.from_breaks", PyList(b), closed=how[7:]), [(b[0], b[1]), (b[1], b[2])]
    if how.startswith("gap"):
        c = nadd(b[2], atom("+w3"))
        return s.ext("pandas", "IntervalIndex.from_arrays", PyList([b[0], b[2]]), PyList([b[1], c]), closed=how[4:]), [(b[0], b[1]), (b[2], c)]
    raise AssertionError(how)


def hist_want(s, f, cells, closed, stat):
    d, w = dist(s, f)
    sums = []
    for l, r in cells:
        t = num(0)
        for v, k in d:
            if (num_cmp("<=", l, v) and num_cmp("<", v, r)) if closed == "left" else (num_cmp("<", l, v) and num_cmp("<=", v, r)):
                t = nadd(t, k)
        sums.append(t)
    if stat == "sum":
        return [s.length(t) for t in sums]
    if stat == "frequency":
        return [s.length(num_arith("/", t, num_arith("-", r, l))) for t, (l, r) in zip(sums, cells)]
    if stat == "probability":
        return [num_arith("/", t, w) for t in sums]
    area = num(0)
    for t, (l, r) in zip(sums, cells):
        area = nadd(area, num_arith("*", t, num_arith("-", r, l)))
    if zero(area):
        raise Skip("no value in any bin")
    return [num_arith("/", t, area) for t in sums]


def hist(fs, ff, how, closed, stat, pos=False):
    def body(s):
        f = s.fn(*fs, "f")
        usable(s, f)
        o = s.build(f, ff)
        arg, cells = bins(s, how)
        cl = how.split("-")[1] if "-" in how else closed or "left"
        want = hist_want(s, f, cells, cl, stat or "sum")
        k = {}
        if closed:
            k["closed"] = closed
        if stat:
            k["stat"] = stat
        r = s.m(o, "hist", arg, closed or "left", stat or "sum") if pos else s.m(o, "hist", bins=arg, **k)
        hist_same(s, r, cells, cl, want)
        s.same(o, f, "function after the query", minimal=False)
    return body


def hist_same(s, r, cells, cl, want):
    got = elems(s, r, "hist")
    if len(got) != len(want):
        raise Refuted("shape", f"hist has {len(got)} bins, specified {len(want)}")
    ix = s.attr(r, "index")
    for name, k in (("left", 0), ("right", 1)):
        for g, c in zip(elems(s, s.attr(ix, name), "bin edges"), cells):
            s.val_eq(g, c[k], f"{name} bin edge")
    if s.attr(ix, "closed") != cl:
        raise Refuted("value", f"bins closed on the {s.attr(ix, 'closed')}, specified {cl}")
    for g, x, c in zip(got, want, cells):
        if isinstance(x, Lab):
            s.val_eq(g, x, f"hist bin {c!r}")
        else:
            check_num(s, g, x, f"hist bin {c!r}")


def unit(vals, npts, closed, stat):
    def body(s):
        f = Fn(0, [(s.P(i), num(v, fl="py")) for i, v in enumerate(vals)] + [(s.P(len(vals)), NAN)])
        o = s.build(f, "V")
        import math
        lo, hi = min(vals), max(vals)
        if closed == "left":
            edges = list(range(math.floor(lo), math.floor(hi) + 2))
        else:
            edges = list(range(math.ceil(lo) - 1, math.ceil(hi) + 1))
        cells = [(num(a), num(b)) for a, b in zip(edges, edges[1:])]
        want = hist_want(s, f, cells, closed, stat)
        hist_same(s, s.m(o, "hist", closed=closed, stat=stat), cells, closed, want)
        if closed == "left" and stat == "sum":
            hist_same(s, s.m(o, "hist"), cells, closed, want)
    return body


def describe(fs, ff, w, pcs):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        k = {}
        g = f
        cl = s.closed
        if w is not None:
            a, b = w[0](s), w[1](s)
            k["where"] = (a, b)
            g = s.restrict(f, a, b)
        usable(s, g)
        if pcs is not None:
            k["percentiles"] = PyList([num(p, fl="pyi") for p in pcs])
        r = s.m(o, "describe", **k)
        if not isinstance(r, Ser):
            raise Refuted("shape", "describe does not return a Series")
        d, _ = dist(s, g)
        rng = taken(s, g, None, None, cl, s.closed)
        want = {"unique": num(len(d)), "mean": s_mean(s, g), "min": vmin(rng), "max": vmax(rng)}
        for p in pcs if pcs is not None else (25, 50, 75):
            want[f"{p}%"] = quantile(s, g, num(Fraction(p, 100)))
        names = [x for x in s.elements(s.attr(r, "index"), "index")]
        if [n for n in names] != ["unique", "mean", "std", "min"] + [n for n in want if n.endswith("%")] + ["max"]:
            raise Refuted("shape", f"describe has entries {names}")
        for n, x in want.items():
            got = s.check_unknown(s.U.getitem(r, n))
            if isinstance(got, (Lab,)) or not is_number(got):
                raise Refuted("value", f"describe reports {got!r} for {n}")
            check_num(s, got, x, f"describe {n}")
        got = s.check_unknown(s.U.getitem(r, "std"))
        if not is_number(got):
            raise Refuted("value", f"describe reports {got!r} for std")
        s.val_eq(num_arith("*", got, got), s_var(s, g), "describe std squared")
        s.same(o, f, "function after describe", minimal=False)
    return body


SH = SHAPES
SH3 = [("SSS", (0, 1)), ("SSSS", (0, 1, 2)), ("NSNSN", (0, 1, 2, 3))]
HISTS = ["list", "tuple", "ndarray", "one", "breaks-left", "breaks-right", "gap-left", "gap-right"]


def obligations(tier):
    P = "C09"
    for fs in SH + [("SSSSS", (0, 1, 2, 3))]:
        big = len(fs[1]) > 3
        for ff in forms(fs[0], len(fs[1])) if not big else ["V"]:
            for how in ("call", "sample", "left", "right"):
                yield Ob(f"{P}/ecdf-{how}/{sid(fs)}.{ff}", ecdf(fs, ff, "y", how))
                yield Ob(f"{P}/ecdf-{how}/{sid(fs)}.{ff}/v0", ecdf(fs, ff, "v0", how))
            for which in ("percentile", "fractile"):
                for how in ("0", "1", "half", "in", "cum1", "cum2"):
                    if big and how in ("in", "cum2") and tier == "quick":
                        continue
                    yield Ob(f"{P}/{which}/{sid(fs)}.{ff}/{how}", pct(fs, ff, which, how))
            yield Ob(f"{P}/median/{sid(fs)}.{ff}", median(fs, ff))
            yield Ob(f"{P}/mode/{sid(fs)}.{ff}", mode(fs, ff))
        yield Ob(f"{P}/median-agg/{sid(fs)}", median(fs, form1(fs), "agg"))
        yield Ob(f"{P}/mode-agg/{sid(fs)}", mode(fs, form1(fs), "agg"))
        if len(fs[1]) <= 3:
            yield Ob(f"{P}/median-window/{sid(fs)}", median(fs, form1(fs), "window"))
            yield Ob(f"{P}/mode-window/{sid(fs)}", mode(fs, form1(fs), "window"))
            yield Ob(f"{P}/ecdf-vector/{sid(fs)}", ecdf(fs, form1(fs), "y", "vector"))
            yield Ob(f"{P}/percentile-vector/{sid(fs)}", pct(fs, form1(fs), "percentile", "vector"))
            yield Ob(f"{P}/fractile-vector/{sid(fs)}", pct(fs, form1(fs), "fractile", "vector"))
    for fs in SH3:
        for n in (1, 2, 3, 4, 5):
            yield Ob(f"{P}/quantiles/{sid(fs)}/{n}", quantiles(fs, form1(fs), n))
    for y in ("yi", "ynp", "vl"):
        yield Ob(f"{P}/ecdf-flavour/{y}", ecdf(("SSSS", (0, 1, 2)), "L", y, "call"))
    for reads in (("mean",), ("median",), ("hist",), (".ecdf",), (".fractile",), (".percentile",), ("var",)):
        if reads[0] != "hist":
            yield Ob(f"{P}/percentile-after/{reads[0]}", pct(("SSSS", (0, 1, 2)), "V", "percentile", "in", reads=reads))
            yield Ob(f"{P}/fractile-after/{reads[0]}", pct(("SSSS", (0, 1, 2)), "L", "fractile", "in", reads=reads))
    for fs in (("SSS", (0, 1)), ("SSSS", (0, 1, 2)), ("NSNS", (0, 1, 2))):
        for ff in forms(fs[0], len(fs[1])):
            for how in HISTS if ff == form1(fs) else ("list",):
                for stat in (None, "sum", "frequency", "probability", "density"):
                    for closed in (None, "left", "right"):
                        if "-" in how and closed or how in ("tuple", "ndarray") and stat not in (None, "density"):
                            continue
                        yield Ob(f"{P}/hist/{sid(fs)}.{ff}/{how}/{closed}/{stat}", hist(fs, ff, how, closed, stat))
    yield Ob(f"{P}/hist-pos", hist(("SSSS", (0, 1, 2)), "V", "list", "right", "probability", pos=True))
    U = [([1, 2], 2), ([Fraction(-3, 2), Fraction(5, 2), 0], 3), ([2, 2], 2), ([Fraction(1, 2)], 1), ([-1, 0, 1], 3), ([-2], 1)]
    for vals, n in U:
        for closed in ("left", "right"):
            for stat in ("sum", "frequency", "probability", "density"):
                yield Ob(f"{P}/hist-unit/{'_'.join(map(str, vals)).replace('/', ':')}/{closed}/{stat}", unit(vals, n, closed, stat))
    W = {"none": None, "01": (lambda s: s.P(0), lambda s: s.P(1)), "m-a": (lambda s: s.between(0), lambda s: s.after(1)), "low": (lambda s: s.between(0), lambda s: None),
         "up": (lambda s: None, lambda s: s.P(2)), "nn": (lambda s: None, lambda s: None)}
    for fs in (("SSS", (0, 1)), ("NSSN", (0, 1, 2)), ("SNSS", (0, 1, 2)), ("SS", (0,))):
        for w in W:
            for pcs in (None, (10,), (0, 50, 100)):
                if pcs and w not in ("none", "m-a"):
                    continue
                yield Ob(f"{P}/describe/{sid(fs)}/{w}/{pcs}", describe(fs, form1(fs), W[w], pcs))
    for v in VARIANTS:
        for fs in (("SSS", (0, 1)), ("SSSS", (0, 1, 2)), ("NSNS", (0, 1, 2))):
            yield Ob(f"{P}/ecdf/{vid(v)}/{sid(fs)}", ecdf(fs, form1(fs), "y", "left"), *v)
            yield Ob(f"{P}/ecdf-right/{vid(v)}/{sid(fs)}", ecdf(fs, form1(fs), "y", "call"), *v)
            yield Ob(f"{P}/percentile/{vid(v)}/{sid(fs)}", pct(fs, form1(fs), "percentile", "in"), *v)
            yield Ob(f"{P}/percentile/{vid(v)}/{sid(fs)}/cum", pct(fs, form1(fs), "percentile", "cum1"), *v)
            yield Ob(f"{P}/fractile/{vid(v)}/{sid(fs)}", pct(fs, form1(fs), "fractile", "half"), *v)
            yield Ob(f"{P}/median/{vid(v)}/{sid(fs)}", median(fs, form1(fs)), *v)
            yield Ob(f"{P}/mode/{vid(v)}/{sid(fs)}", mode(fs, form1(fs)), *v)
            if tier != "quick" or fs[0] != "SSSS":
                yield Ob(f"{P}/describe/{vid(v)}/{sid(fs)}", describe(fs, form1(fs), W["none"], None), *v)
            if tier != "quick" or len(fs[1]) < 3:
                yield Ob(f"{P}/describe-m-a/{vid(v)}/{sid(fs)}", describe(fs, form1(fs), W["m-a"], None), *v)
            for stat in ("sum", "frequency", "probability", "density"):
                yield Ob(f"{P}/hist/{vid(v)}/{sid(fs)}/{stat}", hist(fs, form1(fs), "list", "right", stat), *v)
                yield Ob(f"{P}/hist-gap/{vid(v)}/{sid(fs)}/{stat}", hist(fs, form1(fs), "gap-left", None, stat), *v)
        for stat in ("sum", "density"):
            yield Ob(f"{P}/hist-unit/{vid(v)}/{stat}", unit([Fraction(-3, 2), Fraction(5, 2), 0], 3, "left", stat), *v)

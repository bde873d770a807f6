"""slicing evaluates each statistic on the function restricted to each interval; resample"""
from .ops import *
from .C08 import s_mean, s_integral, check_num
from .C09 import quantile, dist, hist_want
from .C10 import taken

RULE = ("for every interval I of the slices - overlapping, gapped, unordered alike - mean, integral, median, mode, min, max, hist, agg and apply give the statistic of the function restricted "
        "to I, min and max with I's own endpoint closedness and without undefined points; the result is indexed by the slices in their order; resample(stat) equals f outside the span of "
        "tiling slices and the constant statistic on each slice")
EXPLAIN = ("Obligations = statistic x function shape x form x slices (breaks given as list / tuple / array / Series / Index, IntervalIndex with gaps, overlaps, any order, repeated intervals, "
           "PeriodIndex) x slice closedness x domain kind x function closed side. Values, labels and gaps symbolic; slices without any defined finite piece are checked for mean, min and max "
           "(missing) and set aside for the others.")


def iv(s, ab, closed):
    return s.ext("pandas", "IntervalIndex.from_arrays", PyList([a for a, _ in ab]), PyList([b for _, b in ab]), closed=closed)


def pairs_of(bs):
    return list(zip(bs, bs[1:]))


# name -> scene -> [(a, b)]
SLICES = {
    "tile": lambda s: pairs_of([s.P(0), s.between(0), s.P(1)]),
    "tile-out": lambda s: pairs_of([s.before(1), s.between(0), s.after(1)]),
    "one": lambda s: [(s.between(0), s.after(1))],
    "steps": lambda s: pairs_of([s.P(0), s.P(1), s.P(2)]),
    "mid": lambda s: pairs_of([s.between(0), s.P(1), s.between(1)]),
    "gap": lambda s: [(s.before(1), s.P(0)), (s.between(0), s.P(1))],
    "overlap": lambda s: [(s.before(1), s.P(1)), (s.P(0), s.after(1))],
    "unordered": lambda s: [(s.P(1), s.after(1)), (s.before(1), s.between(0))],
    "repeat": lambda s: [(s.P(0), s.between(0)), (s.P(0), s.between(0))],
    "nested": lambda s: [(s.P(0), s.P(1)), (s.P(0), s.between(0))],
    "outside": lambda s: [(s.before(2), s.before(1)), (s.before(1), s.P(0))],
}


def make(s, o, how, ab, closed):
    """the slicer"""
    if how == "index":
        return s.m(o, "slice", iv(s, ab, closed))
    if how == "index-closed":
        return s.m(o, "slice", iv(s, ab, closed), "left")
    if how == "period":
        return s.m(o, "slice", s.periods(ab)) if closed is None else s.m(o, "slice", s.periods(ab), closed=closed)
    bs = [ab[0][0]] + [b for _, b in ab]
    return s.m(o, "slice", s.vector(how, bs), **({} if closed is None else dict(closed=closed)))


def rows(s, r, ab, closed, what):
    """entries, after checking the result is indexed by the slices"""
    got = s.elements(r, what)
    if not isinstance(r, Ser) or len(got) != len(ab):
        raise Refuted("shape", f"{what} has {len(got)} entries for {len(ab)} slices")
    indexed(s, s.attr(r, "index"), ab, closed, what)
    return [hval(x) for x in got]


def indexed(s, ix, ab, closed, what):
    if not isinstance(ix, Idx) or ix.dtype != "interval":
        raise Refuted("shape", f"{what} is not indexed by the slices")
    if s.attr(ix, "closed") != closed:
        raise Refuted("shape", f"{what}: slices closed {s.attr(ix, 'closed')}, given {closed}")
    for side, k in (("left", 0), ("right", 1)):
        for g, w in zip(s.elements(s.attr(ix, side), "slices"), ab):
            s.lab_same(hval(g), w[k], f"{what}: {side} end of the slice")


def stat(s, name, got, f, a, b, closed):
    g = s.restrict(f, a, b)
    if name in ("min", "max"):
        vals = taken(s, f, a, b, closed, s.closed)
        if not vals:
            s.val_eq(got, NAN, f"{name} over a slice without defined points")
        else:
            check_num(s, got, (vmin if name == "min" else vmax)(vals), f"{name} over the slice ({a!r}, {b!r}) closed {closed}")
        return
    if not s.finite_pieces(g):
        if name == "mean":
            s.val_eq(got, NAN, "mean over a slice without defined points")
        return
    if name == "mean":
        check_num(s, got, s_mean(s, g), f"mean over the slice ({a!r}, {b!r})")
    elif name == "integral":
        s.val_eq(got, s.length(s_integral(s, g)), f"integral over the slice ({a!r}, {b!r})")
    elif name == "median":
        check_num(s, got, quantile(s, g, num(Fraction(1, 2))), f"median over the slice ({a!r}, {b!r})")
    elif name == "mode":
        d, _ = dist(s, g)
        hit = [l for v, l in d if same_num(v, got)]
        if not hit or any(num_cmp(">", l, hit[0]) for _, l in d):
            raise Refuted("value", f"mode over the slice ({a!r}, {b!r}) is {s.show(got)}")
    else:
        raise AssertionError(name)


def defined(s, f, ab, name):
    """median, mode, integral ask for a finite defined piece on every slice"""
    if name in ("median", "mode", "hist", "integral") and any(not s.finite_pieces(s.restrict(f, a, b)) for a, b in ab):
        raise Skip("a slice without a defined piece")


def stats(fs, ff, sl, names, how="index", closed="left", reads=(), route="method"):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        if reads and not s.finite_pieces(f):
            raise Skip("no finite defined piece")
        for r in reads:
            s.m(o, r) if not r.startswith(".") else s.attr(o, r[1:])
        ab = SLICES[sl](s)
        z = make(s, o, how, ab, closed)
        cl = closed or "left"
        if route == "method":
            for n in names:
                defined(s, f, ab, n)
                for g, (a, b) in zip(rows(s, s.m(z, n), ab, cl, n), ab):
                    stat(s, n, g, f, a, b, cl)
        elif route == "agg":
            for n in names:
                defined(s, f, ab, n)
            table(s, s.m(z, "agg", PyList(list(names))), names, f, ab, cl)
        elif route == "agg-str":
            defined(s, f, ab, names[0])
            table(s, s.m(z, "agg", names[0]), names, f, ab, cl)
        elif route == "apply":
            m = s.U.getattr(s.stairs_cls(), names[0])
            defined(s, f, ab, names[0])
            for g, (a, b) in zip(rows(s, s.m(z, "apply", m), ab, cl, "apply"), ab):
                if names[0] in ("min", "max"):
                    vals = taken(s, s.restrict(f, a, b), None, None, cl, s.closed)
                    s.val_eq(g, (vmin if names[0] == "min" else vmax)(vals) if vals else NAN, f"apply({names[0]})")
                else:
                    stat(s, names[0], g, f, a, b, cl)
        elif route in ("apply-args", "apply-kw"):
            m = s.U.getattr(s.stairs_cls(), "limit")
            x = s.between(0)
            r = s.m(z, "apply", m, x, "right") if route == "apply-args" else s.m(z, "apply", m, x, side="right")
            for g, (a, b) in zip(rows(s, r, ab, cl, "apply"), ab):
                s.val_eq(g, s.at(s.restrict(f, a, b), x, "right"), "apply(limit)")
        elif route == "apply-fn":
            m = s.U.getattr(s.stairs_cls(), "copy")
            for g, (a, b) in zip(rows(s, s.m(z, "apply", m), ab, cl, "apply"), ab):
                s.same(g, s.restrict(f, a, b), "apply(copy)")
        s.same(o, f, "function after slicing", minimal=False)
    return body


def table(s, df, names, f, ab, cl):
    if not isinstance(df, DF):
        raise Refuted("shape", f"agg does not give a table: {df!r}")
    indexed(s, s.attr(df, "index"), ab, cl, "agg")
    cols = s.elements(s.attr(df, "columns"), "columns")
    if list(cols) != list(names):
        raise Refuted("shape", f"agg has columns {list(cols)}, asked {list(names)}")
    for n in names:
        for g, (a, b) in zip(s.elements(s.check_unknown(s.U.getitem(df, n)), n), ab):
            stat(s, n, hval(g), f, a, b, cl)


def hist(fs, ff, sl, closed, stat_, how="index", pos=False):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        ab = SLICES[sl](s)
        defined(s, f, ab, "hist")
        z = make(s, o, how, ab, "left")
        b = [s.V("b"), nadd(s.V("b"), atom("+w1")), nadd(nadd(s.V("b"), atom("+w1")), atom("+w2"))]
        cells = pairs_of(b)
        k = {}
        if closed:
            k["closed"] = closed
        if stat_:
            k["stat"] = stat_
        df = s.m(z, "hist", PyList(b), closed or "left", stat_ or "sum") if pos else s.m(z, "hist", bins=PyList(b), **k)
        hist_table(s, df, f, ab, cells, closed or "left", stat_ or "sum")
        s.same(o, f, "function after slicing", minimal=False)
    return body


def hist_table(s, df, f, ab, cells, cl, st):
    if not isinstance(df, DF):
        raise Refuted("shape", f"hist does not give a table: {df!r}")
    indexed(s, s.attr(df, "index"), ab, "left", "hist")
    ix = s.attr(df, "columns")
    lefts, rights = (s.elements(s.attr(ix, n), "bins") for n in ("left", "right"))
    cols = list(zip(lefts, rights))
    if len(cols) != len(cells):
        raise Refuted("shape", f"hist has {len(cols)} bins, specified {len(cells)}")
    order = []
    for c in cells:
        hit = [i for i, (l, r) in enumerate(cols) if same_num(l, c[0]) and same_num(r, c[1])]
        if len(hit) != 1:
            raise Refuted("shape", f"hist has bins {cols}, specified {cells}")
        order.append(hit[0])
    cs = list(df.cols)
    for i, (a, b) in enumerate(ab):
        want = hist_want(s, s.restrict(f, a, b), cells, cl, st)
        for k, w in zip(order, want):
            g = hval(df.cols[cs[k]][0][i].v)
            if isinstance(w, Lab):
                s.val_eq(g, w, f"hist of slice {i}")
            else:
                check_num(s, g, w, f"hist of slice {i}")


def unit(vals, sl_pts, closed, stat_):
    """unit bins: constant values"""
    import math

    def body(s):
        f = Fn(0, [(s.P(i), num(v, fl="py")) for i, v in enumerate(vals)] + [(s.P(len(vals)), NAN)])
        o = s.build(f, "V")
        ab = pairs_of([s.P(i) for i in sl_pts])
        cells = []
        for a, b in ab:
            vs = [v for v, _ in s.finite_pieces(s.restrict(f, a, b))]
            vs = [v.const() if isinstance(v, Num) else v for v in vs]
            lo, hi = min(vs), max(vs)
            e = list(range(math.floor(lo), math.floor(hi) + 2)) if closed == "left" else list(range(math.ceil(lo) - 1, math.ceil(hi) + 1))
            cells += [c for c in zip(e, e[1:]) if c not in cells]
        cells = [(num(a), num(b)) for a, b in cells]
        k = {}
        if closed != "left":
            k["closed"] = closed
        if stat_:
            k["stat"] = stat_
        df = s.m(s.m(o, "slice", iv(s, ab, "left")), "hist", **k)
        # within a slice only its own bins are normalised over, the others are empty
        hist_table(s, df, f, ab, cells, closed, stat_ or "sum")
    return body


def resample(fs, ff, sl, name, how, closed):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        ab = SLICES[sl](s)
        defined(s, f, ab, name)
        if name == "integral" and s.kind not in ("num", "int"):
            raise Skip("integral is a Timedelta")
        z = make(s, o, how, ab, closed)
        r = s.m(z, "resample", name)
        cl = closed or "left"
        pts, vals = [], []
        for a, b in ab:
            vals.append(expected(s, name, f, a, b, cl))
        inner = Fn(NAN, [(a, v) for (a, _), v in zip(ab, vals)] + [(ab[-1][1], NAN)])
        lo, hi = ab[0][0], ab[-1][1]
        span = Fn(0, [(lo, 1), (hi, 0)])
        want = s.lift(lambda x, y, i: y if truthy(i) else x, f, inner, span)
        got = s.same(r, want, "resample", minimal=False)
        if not s.simplify(got).pts:
            pass
        elif s.attr(r, "closed") != s.closed:
            raise Refuted("closed", f"resample is {s.attr(r, 'closed')}-closed, the function {s.closed}-closed")
        s.minimal(got, "resample")
        s.same(o, f, "function after resample", minimal=False)
    return body


def expected(s, name, f, a, b, cl):
    g = s.restrict(f, a, b)
    if name in ("min", "max"):
        vals = taken(s, f, a, b, cl, s.closed)
        return (vmin if name == "min" else vmax)(vals) if vals else NAN
    if not s.finite_pieces(g):
        return NAN
    if name == "mean":
        return s_mean(s, g)
    if name == "median":
        return quantile(s, g, num(Fraction(1, 2)))
    if name == "mode":
        d, _ = dist(s, g)
        best = None
        for v, l in d:
            if best is None or num_cmp(">", l, best[1]):
                best = (v, l)
            elif zero(num_arith("-", l, best[1])):
                raise Skip("mode not unique")
        return best[0]
    if name == "integral":
        r = s.length(s_integral(s, g))
        if isinstance(r, Lab):
            raise Skip("integral is a Timedelta")
        return r
    raise AssertionError(name)


ALL = ("mean", "integral", "median", "mode", "min", "max")
SH = [("SS", (0,)), ("SSS", (0, 1)), ("SNS", (0, 1)), ("NSN", (0, 1)), ("NSS", (0, 1)), ("SSN", (0, 1)), ("S", ())]
SH3 = [("SSSS", (0, 1, 2)), ("SNSN", (0, 1, 2))]
TILING = ("tile", "tile-out", "one", "steps", "mid")


def obligations(tier):
    P = "C11"
    for fs in SH + SH3:
        f1 = form1(fs)
        for sl in SLICES:
            for n in ALL:
                if fs[0] == "SSSS" and n in ("median", "mode") and sl not in ("one", "steps", "gap") and tier == "quick":
                    continue
                for cl in ("left", "right", "both", "neither") if n in ("min", "max") else ("left", "right"):
                    yield Ob(f"{P}/{n}/{sid(fs)}/{sl}/{cl}", stats(fs, f1, sl, (n,), closed=cl))
                if len(fs[1]) < 3 or tier != "quick":
                    for cl in ("right", "both", "left", "neither"):
                        if n in ("min", "max"):
                            yield Ob(f"{P}/{n}/num-right/{sid(fs)}/{sl}/{cl}", stats(fs, f1, sl, (n,), closed=cl), "num", "right")
        for sl in TILING:
            for n in ALL if len(fs[1]) < 3 else ("mean", "max"):
                for how in ("list", "index"):
                    yield Ob(f"{P}/resample/{sid(fs)}/{sl}/{n}/{how}", resample(fs, f1, sl, n, how, "left"))
        for ff in forms(fs[0], len(fs[1]))[1:]:
            yield Ob(f"{P}/form/{sid(fs)}.{ff}", stats(fs, ff, "overlap", ("mean", "max", "min")))
            if len(fs[1]) > 2 and tier == "quick":
                continue
            yield Ob(f"{P}/form-resample/{sid(fs)}.{ff}", resample(fs, ff, "tile-out", "mean", "list", None))
    for fs in (("SSS", (0, 1)), ("SNS", (0, 1))):
        for how in ("list", "tuple", "ndarray", "series", "index"):
            for cl in (None, "right", "both"):
                if how == "index" and cl is None:
                    continue
                yield Ob(f"{P}/cuts/{sid(fs)}/{how}/{cl}", stats(fs, form1(fs), "tile-out", ("mean", "max"), how=how, closed=cl))
        yield Ob(f"{P}/cuts-ignore-closed/{sid(fs)}", stats(fs, form1(fs), "tile-out", ("max",), how="index-closed", closed="both"))
        for names in (("mean",), ("max", "min"), ("mean", "median", "mode"), ALL):
            for sl in ("tile-out", "unordered", "gap"):
                yield Ob(f"{P}/agg/{sid(fs)}/{','.join(names)}/{sl}", stats(fs, form1(fs), sl, names, route="agg", closed="both"))
        for n in ALL:
            yield Ob(f"{P}/agg-str/{sid(fs)}/{n}", stats(fs, form1(fs), "overlap", (n,), route="agg-str", closed="right"))
            yield Ob(f"{P}/apply/{sid(fs)}/{n}", stats(fs, form1(fs), "overlap", (n,), route="apply", closed="right"))
        for route in ("apply-args", "apply-kw", "apply-fn"):
            for sl in ("overlap", "repeat", "unordered"):
                yield Ob(f"{P}/{route}/{sid(fs)}/{sl}", stats(fs, form1(fs), sl, (), route=route))
        for reads in (("mean",), ("median",), (".ecdf",), ("min",), (".step_values",)):
            yield Ob(f"{P}/after/{sid(fs)}/{reads[0]}", stats(fs, form1(fs), "tile-out", ("mean", "max"), reads=reads))
    for n in ALL:
        yield Ob(f"{P}/sequence/{n}", stats(("SSS", (0, 1)), "L", "overlap", (n, "mean", "max", n), closed="both"))
    for fs in (("SSS", (0, 1)), ("NSN", (0, 1)), ("SS", (0,))):
        for st in (None, "sum", "frequency", "probability", "density"):
            for cl in (None, "left", "right"):
                yield Ob(f"{P}/hist/{sid(fs)}/one/{cl}/{st}", hist(fs, form1(fs), "one", cl, st))
            if fs[0] != "SS":
                yield Ob(f"{P}/hist/{sid(fs)}/tile/{st}", hist(fs, form1(fs), "tile", None, st))
            for sl in ("unordered", "overlap", "nested", "gap", "repeat"):
                c = (fs[0].replace("S", "1", 1).replace("S", "3", 1).replace("S", "0", 1), fs[1])
                yield Ob(f"{P}/hist/{sid(c)}/{sl}/{st}", hist(c, form1(c), sl, "right" if sl == "gap" else None, st))
        yield Ob(f"{P}/hist-pos/{sid(fs)}", hist(fs, form1(fs), "one", "right", "probability", pos=True))
    U = [([1, 2], (0, 1, 2)), ([2, 0, 1], (0, 2, 3)), ([Fraction(1, 2), 3], (0, 1, 2))]
    for vals, pts in U:
        for cl in ("left", "right"):
            for st in (None, "frequency", "probability", "density"):
                for v in [("num", "left"), ("ts", "left"), ("td", "right")]:
                    yield Ob(f"{P}/hist-unit/{'_'.join(map(str, vals)).replace('/', ':')}/{cl}/{st}/{vid(v)}", unit(vals, pts, cl, st), *v)
    for v in VARIANTS:
        for fs in (("SSS", (0, 1)), ("SNS", (0, 1))):
            for sl in ("tile-out", "overlap", "unordered", "steps"):
                for n in ALL:
                    yield Ob(f"{P}/{n}/{vid(v)}/{sid(fs)}/{sl}", stats(fs, form1(fs), sl, (n,), closed="both" if n in ("min", "max") else "right"), *v)
            for n in ALL if tier != "quick" or fs[0] == "SNS" else ("mean", "max"):
                yield Ob(f"{P}/resample/{vid(v)}/{sid(fs)}/{n}", resample(fs, form1(fs), "tile-out", n, "list", None), *v)
                yield Ob(f"{P}/resample-right/{vid(v)}/{sid(fs)}/{n}", resample(fs, form1(fs), "steps", n, "index", "right"), *v)
            if v[0] in ("ts",):
                for cl in (None, "right", "both", "neither"):
                    for sl in ("tile-out", "gap", "steps"):
                        yield Ob(f"{P}/period/{vid(v)}/{sid(fs)}/{sl}/{cl}", stats(fs, form1(fs), sl, ("mean", "max", "min", "integral"), how="period", closed=cl), *v)
                yield Ob(f"{P}/period-resample/{vid(v)}/{sid(fs)}", resample(fs, form1(fs), "tile-out", "mean", "period", None), *v)

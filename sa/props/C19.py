"""cov and corr are the length-weighted moments over the common defined window"""
from .C13 import concrete
from .ops import *

RULE = ("f.cov(g, where) = mean(fg) - mean(f) mean(g), every mean length-weighted over the pieces of `where` on which f and g are both defined; corr = cov / (std f * std g) over the same pieces, "
        "NaN exactly when a std is zero; both symmetric, cov(f, f) = var(f); lag shifts g by -lag, and the window's upper end by -lag unless clip='post'. |corr| <= 1 is Cauchy-Schwarz on the certified formula")
EXPLAIN = ("Obligations = statistic x pairs of shapes (different supports, undefined stretches, step-free, f with itself) x forms x windows (finite, half open, default, through and between step points, "
           "nested, after clipping) x lag (none, positive, negative, both clips) x domain kind x closed side. Values symbolic; positions symbolic or on an integer grid.")

inf_ = {"inf": lambda s: s.st.d["inf"], "ninf": lambda s: s.un("-", s.st.d["inf"])}
WINS = {
    "all": lambda s: (s.before(1), s.after(2)), "01": lambda s: (s.P(0), s.P(1)), "in": lambda s: (s.between(0), s.after(1)), "head": lambda s: (s.before(1), s.between(0)),
    "tail": lambda s: (s.P(1), s.after(2)), "0a": lambda s: (s.P(0), s.after(2)), "inner": lambda s: (s.between(0), s.between(1)), "12": lambda s: (s.P(1), s.P(2)), "none": lambda s: (None, None),
    "low": lambda s: (None, s.after(2)), "up": lambda s: (s.before(1), None), "infs": lambda s: (inf_["ninf"](s), inf_["inf"](s)), "lowinf": lambda s: (inf_["ninf"](s), s.P(1)),
    "default": lambda s: None,
}


def end(s, b):
    return None if b is None or isinstance(b, Inst) else b


def moved(s, l, d):
    """l - d"""
    x = nsub(s.lx(l), s.lx(d))
    return Lab(l.kind, x, l.tz, l.flav) if isinstance(l, Lab) else s.mklab(x)


def minus(s, d):
    x = nsub(num(0), s.lx(d))
    return Lab(d.kind, x) if isinstance(d, Lab) else s.delta(x)


def pieces(s, f, g, a, b):
    """(f value, g value, length) wherever both are defined inside the window"""
    rows = s.merge(s.restrict(f, a, b), s.restrict(g, a, b))
    out = []
    for i, (l, (v, w)) in enumerate(rows):
        if nan_(v) or nan_(w):
            continue
        if l is None or i + 1 == len(rows):
            raise Skip("unbounded common window")
        out.append((to_num(v), to_num(w), nsub(s.lx(rows[i + 1][0]), s.lx(l))))
    return out


def mean_(xs):
    t, n = num(0), num(0)
    for v, l in xs:
        t, n = nadd(t, nmul(v, l)), nadd(n, l)
    return num_arith("/", t, n)


def cov_(ps):
    return nsub(mean_([(nmul(v, w), l) for v, w, l in ps]), nmul(mean_([(v, l) for v, _, l in ps]), mean_([(w, l) for _, w, l in ps])))


def number(s, got, what):
    got = s.check_unknown(got)
    if isinstance(got, Lab) or not (is_number(got) or is_nan(got)):
        raise Refuted("value", f"{what} is {got!r}, not a number")
    return got


def judge(s, name, got, ps, what):
    if not ps:
        got = number(s, got, what)
        if not isnull(got):
            raise Refuted("value", f"{what} is {s.show(got)} although f and g are nowhere both defined in the window")
        return
    got = number(s, got, what)
    c = cov_(ps)
    if name == "cov":
        s.val_eq(got, c, what)
        return
    vf, vg = cov_([(v, v, l) for v, _, l in ps]), cov_([(w, w, l) for _, w, l in ps])
    if zero(vf) or zero(vg):
        if not isnull(got):
            raise Refuted("value", f"{what} is {s.show(got)} although a standard deviation is zero")
        return
    if isnull(got):
        raise Refuted("value", f"{what} is NaN although both standard deviations are positive")
    # got = c / sqrt(vf vg): same square and same sign
    s.val_eq(num_arith("*", num_arith("*", got, got), nmul(vf, vg)), nmul(c, c), f"{what} squared times the variances")
    for op in ("<", ">"):
        if num_cmp(op, c, 0) and not num_cmp(op, got, 0):
            raise Refuted("value", f"{what} is {s.show(got)}: not the sign of the covariance {s.show(c)}")


def ask(s, name, a, b, ps, **k):
    return s.m(a, name, b, **k)


LAGS = {"0": lambda s: None, "+": lambda s: s.delta(s.A("+d")), "-": lambda s: s.delta(nsub(num(0), s.A("+d"))), "half": lambda s: s.delta(nmul(s.A("+g1"), num(Fraction(1, 2)))),
        "gap": lambda s: s.delta(s.A("+g1")), "zero": lambda s: s.delta(num(0)), "-gap": lambda s: s.delta(nsub(num(0), s.A("+g1"))), "far": lambda s: s.delta(num(100))}


def stat(name, fs, gs, ff, gf, win, lag="0", clip="pre", grid=True, swap=False, before=None, how="tuple"):
    def body(s):
        s.grid = grid
        f, g = s.fn(*fs, "f"), s.fn(*gs, "g")
        a, b = s.build(f, ff), s.build(g, gf)
        if before == "clip":
            a, f = s.m(a, "clip", s.P(0), s.P(1)), s.restrict(f, s.P(0), s.P(1))
        elif before == "mask":
            b, g = s.m(b, "mask", (s.between(0), s.P(1))), outside(s, g, s.between(0), s.P(1))
        elif before == "add":
            b, g = s.op("+", b, a), s.lift(POINT["+"], g, f)
        w = WINS[win](s)
        lo, up = (None, None) if w is None else (end(s, w[0]), end(s, w[1]))
        d = LAGS[lag](s)
        g2 = g
        if d is not None:
            g2 = s.shifted(g, minus(s, d))
            if clip == "pre" and up is not None:
                up = moved(s, up, d)
                if lo is not None and lcmp(s.U, lo, up) >= 0:
                    raise Skip("the reduced window is empty")
        k = {}
        if w is not None:
            k["where"] = w if how == "tuple" else PyList(list(w))
        if d is not None:
            k["lag"] = d
            if clip != "default":
                k["clip"] = clip
        what = f"f.{name}(g, {win}, lag {lag}, {clip})"
        ps = pieces(s, f, g2, lo, up)
        judge(s, name, ask(s, name, a, b, ps, **k), ps, what)
        if swap:
            judge(s, name, ask(s, name, b, a, ps, **k), ps, f"g.{name}(f, {win})")
        s.same(a, f, "f afterwards", minimal=False)
        s.same(b, g, "g afterwards", minimal=False)
    return body


def itself(name, fs, ff, win, grid=True):
    def body(s):
        s.grid = grid
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        w = WINS[win](s)
        ps = pieces(s, f, f, end(s, w[0]), end(s, w[1]))
        got = ask(s, name, o, o, ps, where=w)
        judge(s, name, got, ps, f"f.{name}(f)")
        if not ps:
            return
        if name == "cov":
            s.val_eq(number(s, got, "cov"), s.m(o, "agg", "var", w), "cov(f, f) against var(f)")
        elif not isnull(got):
            s.val_eq(got, num(1), "corr(f, f)")
        judge(s, name, ask(s, name, o, s.m(o, "copy"), ps, where=w), ps, f"f.{name}(copy of f)")
    return body


def matrix(name, shs, win, cont, lag=None):
    def body(s):
        s.grid = True
        fns = [s.fn(*sh, ("fgh"[i] if i < 3 else f"f{i}_")) for i, sh in enumerate(shs)]
        objs = [s.build(f, form1(sh)) for f, sh in zip(fns, shs)]
        w = WINS[win](s)
        k = {} if w is None else {"where": w}
        r = s.top(name, s.coll(cont, objs), **k)
        if not isinstance(r, DF):
            raise Refuted("shape", f"{name} matrix is {r!r}")
        cols = list(r.cols)
        if len(cols) != len(objs):
            raise Refuted("shape", f"{name} matrix has {len(cols)} columns")
        lo, up = (None, None) if w is None else (end(s, w[0]), end(s, w[1]))
        for j, cn in enumerate(cols):
            col = [c.v for c in r.cols[cn][0]]
            if len(col) != len(objs):
                raise Refuted("shape", f"{name} matrix has {len(col)} rows")
            for i, v in enumerate(col):
                ps = pieces(s, fns[i], fns[j], lo, up)
                if name == "corr" and i == j:
                    continue        # the diagonal is a convention of the matrix
                judge(s, name, v, ps, f"entry ({i}, {j}) of the {name} matrix")
    return body


PAIRS = [
    (("SSS", (0, 1)), ("SS", (1,))), (("SSN", (0, 1)), ("NSS", (0, 1))), (("SNS", (0, 1)), ("SS", (0,))), (("NSS", (0, 1)), ("SN", (1,))), (("SS", (0,)), ("S", ())), (("S", ()), ("SNS", (0, 1))),
    (("NSN", (0, 1)), ("SS", (1,))), (("NSN", (0, 2)), ("NSN", (1, 2))), (("S", ()), ("S", ())), (("N", ()), ("SS", (0,))), (("NSN", (0, 1)), ("S", ())), (("NSN", (0, 1)), ("NSN", (1, 2))),
    (("SS", (0,)), ("SS", (0,))), (("NSSN", (0, 1, 2)), ("SS", (1,))), (("NSSN", (0, 1, 2)), ("NSSN", (0, 1, 2))),
]
FINITE = ["all", "01", "in", "head", "tail", "0a", "inner", "12"]
UNB = ["none", "low", "up", "infs", "lowinf", "default"]


def bounded(fs, gs, win):
    """the common defined region can be bounded"""
    a = fs[0][0] == "N" or gs[0][0] == "N"
    b = fs[0][-1] == "N" or gs[0][-1] == "N"
    return {"none": a and b, "infs": a and b, "default": a and b, "low": a, "lowinf": a, "up": b}.get(win, True)


def obligations(tier):
    P = "C19"
    deep = tier != "quick"
    for name in ("cov", "corr"):
        for fs, gs in PAIRS:
            if name == "corr":
                # the order of the values decides the paths of corr: symbolic for the small shapes, generic and tied constants otherwise
                if len(fs[1]) + len(gs[1]) <= (3 if deep else 1) or "N" in fs[0] + gs[0] and len(fs[1]) + len(gs[1]) <= 2:
                    for win in ("all", "in"):
                        yield Ob(f"{P}/corr-values/{win}/{sid(fs)}/{sid(gs)}", stat(name, fs, gs, form1(fs), form1(gs), win))
                    yield Ob(f"{P}/corr-values-lag/in/{sid(fs)}/{sid(gs)}", stat(name, fs, gs, form1(fs), form1(gs), "in", "+", "post"))
                for win in ("all", "in"):
                    for dg in (("1213", "2746"), ("3527", "5757"), ("0101", "1010")):
                        cf, cg = concrete(fs, dg[0]), concrete(gs, dg[1])
                        yield Ob(f"{P}/corr-ties/{win}/{sid(cf)}/{sid(cg)}", stat(name, cf, cg, form1(fs), form1(gs), win, swap=True))
                fs, gs = concrete(fs, "3527"), concrete(gs, "2746")
            few = len(fs[1]) + len(gs[1]) > 3
            for win in FINITE + UNB:
                if not bounded(fs, gs, win):
                    continue
                if few and not deep and win not in ("all", "in", "none"):
                    cf, cg = concrete(fs, "3527"), concrete(gs, "2746")
                    yield Ob(f"{P}/{name}/{win}/{sid(cf)}/{sid(cg)}", stat(name, cf, cg, form1(fs), form1(gs), win, swap=True))
                    continue
                yield Ob(f"{P}/{name}/{win}/{sid(fs)}/{sid(gs)}", stat(name, fs, gs, form1(fs), form1(gs), win, swap=True))
                if win in UNB and win != "default":
                    yield Ob(f"{P}/{name}/{win}-list/{sid(fs)}/{sid(gs)}", stat(name, fs, gs, form1(fs), form1(gs), win, how="list"))
            for ff in forms(fs[0], len(fs[1])):
                for gf in forms(gs[0], len(gs[1])):
                    if (ff, gf) != (form1(fs), form1(gs)) and not few:
                        yield Ob(f"{P}/{name}/all/{sid(fs)}.{ff}/{sid(gs)}.{gf}", stat(name, fs, gs, ff, gf, "all"))
            for before in ("clip", "mask", "add"):
                yield Ob(f"{P}/{name}-{before}/all/{sid(fs)}/{sid(gs)}", stat(name, fs, gs, form1(fs), form1(gs), "all", before=before))
            for lag in LAGS:
                if lag == "0":
                    continue
                if few and not deep and lag not in ("+", "-"):
                    fs, gs = concrete(fs, "3527"), concrete(gs, "2746")
                for clip in ("pre", "post") + (("default",) if lag == "+" else ()):
                    for win in ("all", "0a", "in") + (("default", "low", "up") if lag in ("+", "-") else ()):
                        if bounded(fs, gs, win):
                            yield Ob(f"{P}/{name}-lag/{lag}/{clip}/{win}/{sid(fs)}/{sid(gs)}", stat(name, fs, gs, form1(fs), form1(gs), win, lag, clip))
            if (not few and (name == "cov" or len(fs[1]) + len(gs[1]) <= 2)) or deep:
                yield Ob(f"{P}/{name}-free/all/{sid(fs)}/{sid(gs)}", stat(name, fs, gs, form1(fs), form1(gs), "all", grid=False) if name == "cov" else stat(name, concrete(fs, "352"), concrete(gs, "274"), form1(fs), form1(gs), "all", grid=False))
                for lag in ("+", "-") if name == "cov" else ():
                    cf, cg = concrete(fs, "352"), concrete(gs, "274")
                    yield Ob(f"{P}/{name}-free-lag/{lag}/{sid(fs)}/{sid(gs)}", stat(name, cf, cg, form1(fs), form1(gs), "all", lag, "post", grid=False))
        for v in VARIANTS:
            for fs, gs in PAIRS:
                if (len(fs[1]) + len(gs[1]) > 3 or name == "corr") and not deep:
                    fs, gs = concrete(fs, "3527"), concrete(gs, "2746")
                for win in ("all", "in", "up"):
                    if bounded(fs, gs, win):
                        yield Ob(f"{P}/{name}/{vid(v)}/{win}/{sid(fs)}/{sid(gs)}", stat(name, fs, gs, form1(fs), form1(gs), win), *v)
                for lag in ("+", "-", "zero"):
                    for clip in ("pre", "post"):
                        yield Ob(f"{P}/{name}-lag/{vid(v)}/{lag}/{clip}/{sid(fs)}/{sid(gs)}", stat(name, fs, gs, form1(fs), form1(gs), "all", lag, clip), *v)
        for fs in unary_shapes(2 if not deep else 3):
            for ff in forms(fs[0], len(fs[1])):
                for win in ("all", "01", "in", "head"):
                    cf = fs if ff == form1(fs) and win in ("all", "in") or deep else concrete(fs, "3527")
                    yield Ob(f"{P}/{name}-self/{win}/{sid(cf)}.{ff}", itself(name, cf, ff, win))
        for shs in ((("12", (0,)), ("35", (1,))), (("35", (0,)), ("3N5", (0, 1)), ("2", ())), (("N3N", (0, 1)), ("N2N", (0, 2)))) + (((("SS", (0,)), ("SS", (1,))),) if name == "cov" else ()):
            for cont in ("list", "tuple", "dict", "ndarray", "series", "array"):
                for win in ("all", "in"):
                    yield Ob(f"{P}/{name}-matrix/{cont}/{win}/{len(shs)}", matrix(name, shs, win, cont))

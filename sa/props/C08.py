"""integral, mean, var, std and value_sums are length-weighted over finite pieces"""
from .ops import *

RULE = ("for a function with at least one finite defined piece: integral = sum of value x length over the finite defined pieces, mean = integral / total length, var = length-weighted mean "
        "squared deviation, std**2 = var with std >= 0, value_sums = total length per value (each value once); lengths and integrals are Timedeltas on datetime-like domains")
EXPLAIN = ("Obligations = statistic x shape x construction route/materialised form x domain kind x closed side x calling route (method, agg by name, agg by list, after other queries). "
           "Values, labels are symbolic: coinciding values on different pieces, zero and negative values, any order of the values are partition members.")


def lengths(s, f):
    return s.finite_pieces(f)


def total(ps):
    t = num(0)
    for _, l in ps:
        t = nadd(t, l)
    return t


def s_integral(s, f):
    ps = lengths(s, f)
    t = num(0)
    for v, l in ps:
        t = nadd(t, nmul(to_num(v), l))
    return t


def s_mean(s, f):
    ps = lengths(s, f)
    return num_arith("/", s_integral(s, f), total(ps))


def s_var(s, f):
    ps = lengths(s, f)
    m = s_mean(s, f)
    t = num(0)
    for v, l in ps:
        d = nsub(to_num(v), m)
        t = nadd(t, nmul(nmul(d, d), l))
    return num_arith("/", t, total(ps))


def s_sums(s, f):
    """list of (value, length), values distinct"""
    out = []
    for v, l in lengths(s, f):
        for i, (w, k) in enumerate(out):
            if same_num(w, v):
                out[i] = (w, nadd(k, l))
                break
        else:
            out.append((v, l))
    return out


def plain(v):
    v = hval(v)
    return v


def check_num(s, got, want, what):
    if isinstance(got, Lab) or not is_number(got):
        raise Refuted("value", f"{what} is {got!r}, specified the number {s.show(want)}")
    s.val_eq(got, want, what)


def check(s, name, got, f):
    got = s.check_unknown(got)
    if name == "integral":
        s.val_eq(got, s.length(s_integral(s, f)), "integral")
    elif name == "mean":
        check_num(s, got, s_mean(s, f), "mean")
    elif name == "var":
        check_num(s, got, s_var(s, f), "var")
    elif name == "std":
        if isinstance(got, Lab) or not is_number(got):
            raise Refuted("value", f"std is {got!r}")
        if num_cmp("<", got, 0):
            raise Refuted("value", "std is negative")
        s.val_eq(num_arith("*", got, got), s_var(s, f), "std squared")
    elif name == "value_sums":
        sums_same(s, got, s_sums(s, f))
    else:
        raise AssertionError(name)


def sums_same(s, got, want, na=None):
    if not isinstance(got, Ser):
        raise Refuted("shape", f"value_sums is {got!r}")
    labs, vals = s.elements(s.attr(got, "index"), "index"), s.elements(got, "value_sums")
    rest = list(want)
    nas = []
    for l, v in zip(labs, vals):
        if nan_(l):
            nas.append(v)
            continue
        hit = [i for i, (w, _) in enumerate(rest) if same_num(w, l)]
        if not hit:
            raise Refuted("value", f"value_sums has an entry for {s.show(l)}, specified values {[s.show(w) for w, _ in want]}")
        s.val_eq(v, s.length(rest.pop(hit[0])[1]), f"value_sums at {s.show(l)}")
    if rest:
        raise Refuted("value", f"value_sums has no entry for {[s.show(w) for w, _ in rest]}")
    if na is None and nas:
        raise Refuted("value", "value_sums has an entry for undefined although dropna")
    if na is not None:
        if len(nas) != (1 if na else 0):
            raise Refuted("value", f"value_sums(dropna=False) has {len(nas)} entries for undefined")
        if na:
            s.val_eq(nas[0], s.length(na[0]), "value_sums at undefined")


STATS = ["integral", "mean", "var", "std", "value_sums"]


def stat(name, fs, ff, how="method", reads=()):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        if not s.finite_pieces(f):
            raise Skip("no finite defined piece")
        for r in reads:
            s.m(o, r)
        if how == "method":
            got = s.m(o, name)
        elif how == "agg":
            got = s.m(o, "agg", name)
        elif how == "list":
            r = s.m(o, "agg", PyList([name, "mean"]))
            got = s.check_unknown(s.U.getitem(r, name))
        elif how == "window":
            got = s.m(o, "agg", name, (s.P(0), s.P(1)))
            f = s.restrict(f, s.P(0), s.P(1))
        elif how == "window-in":
            got = s.m(o, "agg", name, PyList([s.between(0), s.after(1)]))
            f = s.restrict(f, s.between(0), s.after(1))
        elif how == "window-low":
            got = s.m(o, "agg", name, (s.between(0), None))
            f = s.restrict(f, s.between(0), None)
        elif how == "window-none":
            got = s.m(o, "agg", name, (None, None))
        if not s.finite_pieces(f):
            raise Skip("no finite defined piece")
        check(s, name, got, f)
        s.same(o, s.fn(*fs, "f"), "function after the query", minimal=False)
    return body


def dropna(fs, ff):
    def body(s):
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        na = [nsub(s.lx(r), s.lx(l)) for (l, v), (r, _) in zip(f.pts, f.pts[1:]) if nan_(v)]
        sums_same(s, s.m(o, "value_sums", dropna=False), s_sums(s, f), [total([(0, x) for x in na])] if na else [])
    return body


SHAPES = [("SSS", (0, 1)), ("SSN", (0, 1)), ("NSS", (0, 1)), ("NSN", (0, 1)), ("SSSS", (0, 1, 2)), ("NSSN", (0, 1, 2)), ("SNSS", (0, 1, 2)), ("SSNS", (0, 1, 2)), ("SSSN", (0, 1, 2))]
BIG = [("SSSSS", (0, 1, 2, 3)), ("NSNSN", (0, 1, 2, 3)), ("SSNSS", (0, 1, 2, 3))]


def obligations(tier):
    P = "C08"
    for n in STATS:
        for fs in SHAPES + BIG:
            for ff in forms(fs[0], len(fs[1])):
                if fs[0] == "SSSSS" and n in ("var", "std") and (tier == "quick" or ff != "V"):
                    continue
                yield Ob(f"{P}/{n}/{sid(fs)}.{ff}", stat(n, fs, ff))
        for fs in SHAPES[:4] + [("NSSN", (0, 1, 2)), ("SS", (0,)), ("S", ())]:
            for how in ("agg", "list", "window", "window-in", "window-low", "window-none"):
                if n == "value_sums":
                    continue
                yield Ob(f"{P}/{n}-{how}/{sid(fs)}", stat(n, fs, form1(fs), how))
        for v in VARIANTS:
            for fs in SHAPES[:2] + [("NSSN", (0, 1, 2)), ("SNSS", (0, 1, 2))]:
                yield Ob(f"{P}/{n}/{vid(v)}/{sid(fs)}", stat(n, fs, form1(fs)), *v)
                if n != "value_sums":
                    yield Ob(f"{P}/{n}-window-in/{vid(v)}/{sid(fs)}", stat(n, fs, form1(fs), "window-in"), *v)
        for r in (("integral",), ("mean",), ("value_sums",), ("var",), ("mean", "integral"), ("isna",), ("median",)):
            yield Ob(f"{P}/{n}-after-{'-'.join(r)}", stat(n, ("SSS", (0, 1)), "L", reads=r))
            yield Ob(f"{P}/{n}-after-{'-'.join(r)}/td", stat(n, ("SSN", (0, 1)), "V", reads=r), "td")
    for fs in SHAPES + BIG:
        yield Ob(f"{P}/value-sums-na/{sid(fs)}", dropna(fs, form1(fs)))
        yield Ob(f"{P}/value-sums-na/{sid(fs)}/ts", dropna(fs, form1(fs)), "ts")

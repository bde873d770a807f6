"""Cached statistics never go stale across layer mutations"""
from .ops import *
from .C13 import QUERY, att, met, WIN, concrete, attempt
from .C02 import mkdict

RULE = ("every answer given after a history of queries and layer calls equals the answer of an object on which the same layer calls were made without any query, and that of a freshly built equal "
        "function; queries leave the function unchanged; the memoised statistics are part of the abstract heap, so a stale entry is a different answer on some partition member")
EXPLAIN = ("Obligations = (query before, layer call(s), query after) over all pairs of queries, receiver shape/form and mutation kinds (scalar with/without bounds, at existing or new step points, "
           "vector, frame, cancelling, no-op, on step-free / partly undefined receivers), and two-mutation histories returning to an earlier state. Symbolic values for same-query histories; distinct "
           "constants and, for query pairs and chains, a fixed grid of labels for the full cross products.")

DIST = {
    "dist-ecdf": (1, lambda s, o: s.call(s.attr(s.attr(o[0], "dist"), "ecdf"), s.A("y"))),
    "ecdf-at": (1, lambda s, o: s.call(s.attr(o[0], "ecdf"), s.A("y"))),
    "percentile-at": (1, lambda s, o: s.call(s.attr(o[0], "percentile"), 30)),
    "fractile-at": (1, lambda s, o: s.call(s.attr(o[0], "fractile"), num(Fraction(3, 4)))),
    "dist-fractile": (1, lambda s, o: s.call(s.attr(s.attr(o[0], "dist"), "fractile"), num(Fraction(3, 4)))),
    "dist-percentile": (1, lambda s, o: s.call(s.attr(s.attr(o[0], "dist"), "percentile"), 30)),
    "hist-prob": (1, lambda s, o: s.m(o[0], "hist", bins=PyList([num(-1), num(1), num(4)]), stat="probability")),
    "slice-mean": (1, lambda s, o: s.m(s.m(o[0], "slice", PyList([s.before(1), s.between(0), s.after(2)])), "mean")),
    "slice-max": (1, lambda s, o: s.m(s.m(o[0], "slice", PyList([s.before(1), s.between(0), s.after(2)])), "max")),
    "agg-list": (1, lambda s, o: s.m(o[0], "agg", PyList(["mean", "median", "max", "var"]))),
    "var-w": (1, lambda s, o: s.m(o[0], "agg", "var", WIN(s))),
}
Q = {k: v[1] for k, v in {**QUERY, **DIST}.items() if k not in ("slice-hist", "rolling_mean")}
CORE = ["integral", "mean", "median", "mode", "var", "std", "min", "max", "value_sums", "value_sums-na", "ecdf-at", "percentile-at", "fractile-at", "hist", "quantiles", "describe", "agg-mean",
        "values_in_range", "agg-list", "dist-ecdf", "dist-fractile", "dist-percentile"]
# one representative per memoised object, plus the internal forms
SEED = ["integral", "mean", "ecdf-at", "percentile-at", "fractile-at", "median", "hist", "var", "describe", "value_sums", "max", "dist-percentile", "step_values", "step_changes", "to_frame", "agg-list"]


def mutate(s, o, kind):
    m = s.V("m")
    s.assume(m, (-1, 1))
    a = lambda *x, **k: s.m(o, "layer", *x, **k)
    if kind == "in":
        a(s.P(0), s.P(1), 1)
    elif kind == "sym":
        a(s.P(0), s.between(0), m)
    elif kind == "new":
        a(s.between(0), s.after(2), 1)
    elif kind == "nostart":
        a(None, s.P(0), m)
    elif kind == "noend":
        a(s.between(0), None, 1)
    elif kind == "both-open":
        a(None, None, 1)
    elif kind == "default":
        a(s.P(0), s.P(1))
    elif kind == "kw":
        a(start=s.P(0), end=s.P(1), value=2)
    elif kind == "vector":
        a(PyList([s.P(0), s.before(1)]), PyList([s.P(1), s.P(0)]), PyList([num(2), num(1)]))
    elif kind == "vector-nostart":
        a(PyList([None, s.P(0)]), PyList([s.P(0), s.between(0)]), PyList([num(1), num(3)]))
    elif kind == "vector-scalar-value":
        a(PyList([s.P(0), s.between(0)]), PyList([s.P(1), s.after(2)]))
    elif kind == "frame":
        df = s.ext("pandas", "DataFrame", mkdict(s, [("s", PyList([s.P(0)])), ("e", PyList([s.P(1)])), ("v", PyList([num(2)]))]))
        a(frame=df, start="s", end="e", value="v")
    elif kind == "there-and-back":
        a(s.P(0), s.P(1), 1)
        a(s.P(0), s.P(1), -1)
    elif kind == "empty":
        a(s.P(0), s.P(0), 1)
    elif kind == "step-by-step":
        for i, l in enumerate((s.P(0), s.P(1))):
            a(l, None, 1 + i)
    else:
        raise AssertionError(kind)


MUTS = ["in", "sym", "new", "nostart", "noend", "both-open", "default", "kw", "vector", "vector-nostart", "vector-scalar-value", "frame", "there-and-back", "empty", "step-by-step"]


def ask(s, q, o):
    try:
        return ("answer", Q[q](s, [o]))
    except PyRaise as e:
        return ("raises", e)


def agree(s, q, got, want, what):
    if want[0] == "raises":
        return False
    if got[0] == "raises":
        raise got[1]
    s.same_result(got[1], want[1], f"{q} {what}", rule="stale")
    return True


def history(fs, ff, before, muts, after, mid=(), grid=False):
    """before: queries, then for each mutation: layer, queries mid; finally the queries after"""
    def body(s):
        s.grid = grid
        f = s.fn(*fs, "f")
        o = s.build(f, ff)
        ref = s.build(f, ff)
        seen = [(q, ask(s, q, o)) for q in before]
        for q, r in seen:
            r2 = ask(s, q, o)
            if r[0] == "answer":
                agree(s, q, r2, r, "asked again")
        for i, k in enumerate(muts):
            mutate(s, o, k)
            mutate(s, ref, k)
            if i + 1 < len(muts):
                for q in mid:
                    ask(s, q, o)
        now = s.den(ref, "reference")
        fresh = s.build(now, "V")
        for q in after:
            got = ask(s, q, o)
            want = ask(s, q, fresh)
            if want[0] == "raises":
                raise Skip("not defined after the history")
            agree(s, q, got, want, "after layering, compared with a freshly built equal function")
            agree(s, q, got, ask(s, q, ref), "after layering, compared with the object not queried before")
            agree(s, q, ask(s, q, o), got, "asked again")
        s.same(o, now, "function after the history", minimal=False, rule="changed")
        if s.attr(o, "closed") != s.closed:
            raise Refuted("changed", "closed side changed")
    return body


RECV = [("SSS", (0, 1)), ("SSSS", (0, 1, 2)), ("SNSN", (0, 1, 2)), ("NSN", (0, 1)), ("SS", (0,)), ("S", ())]


def obligations(tier):
    P = "C14"
    deep = tier != "quick"
    # the same query before and after
    for q in Q:
        for fs in RECV:
            c = concrete(fs, "1305")
            for ff in forms(fs[0], len(fs[1])):
                for k in MUTS:
                    if ff not in (form1(fs), "L") and k not in ("in", "nostart", "vector") and not deep:
                        continue
                    grid = ff != form1(fs) or k not in ("in", "new", "nostart", "vector", "noend") or len(fs[1]) > 2 and q in ("describe", "var-w", "var", "std", "agg-list", "quantiles")
                    yield Ob(f"{P}/same/{q}/{sid(c)}.{ff}/{k}", history(c, ff, [q], [k], [q], grid=grid and not deep))
    sym = ["integral", "mean", "median", "min", "max", "ecdf-at", "fractile-at", "value_sums"]
    for q in sym:
        for fs in RECV[:1] + RECV[3:] if not deep else RECV:
            for k in ("in", "sym", "nostart", "vector"):
                if fs == RECV[0] and q in ("fractile-at", "median") and not deep and k in ("sym", "vector"):
                    continue
                yield Ob(f"{P}/symbolic/{q}/{sid(fs)}/{k}", history(fs, form1(fs), [q], [k], [q]))
    # any query before, any query after
    for a in SEED:
        for b in CORE:
            for k in ("in", "nostart", "vector", "noend") if not deep else MUTS:
                for fs in (("1305", (0, 1, 2)), ("N1N2", (0, 1, 2))) if k in ("in", "vector") or deep else (("130", (0, 1)),):
                    if a != b:
                        yield Ob(f"{P}/pair/{a}/{b}/{sid(fs)}/{k}", history(fs, form1(fs), [a], [k], [b], grid=True))
    # several mutations, returning to an earlier state, with queries between
    for q in CORE:
        for mid in CORE if deep else ([q] if q in SEED else []) + ["mean", "fractile-at"]:
            for ks in (("in", "vector"), ("nostart", "in", "noend"), ("there-and-back", "vector"), ("empty", "in"), ("frame", "there-and-back")):
                for fs in (("1305", (0, 1, 2)), ("N1N2", (0, 1, 2)), ("1", ())):
                    yield Ob(f"{P}/chain/{q}/{mid}/{'+'.join(ks)}/{sid(fs)}", history(fs, form1(fs), [q], ks, [q], mid=[mid], grid=True))
    everything = ["integral", "mean", "ecdf-at", "fractile-at", "percentile-at", "hist", "var", "median", "max", "describe"]
    for k in MUTS:
        for fs in RECV:
            c = concrete(fs, "1305")
            yield Ob(f"{P}/everything/{sid(c)}/{k}", history(c, form1(fs), everything, [k], [q for q in everything if fs[1] or q != "hist"], grid=True))
            yield Ob(f"{P}/everything-reversed/{sid(c)}/{k}", history(c, form1(fs), everything[::-1], [k, "in"], everything[::-1], mid=everything, grid=True))
    for v in VARIANTS:
        for q in CORE:
            for k in ("in", "vector", "nostart", "new"):
                for fs in (("130", (0, 1)), ("N1N2", (0, 1, 2))):
                    yield Ob(f"{P}/same/{vid(v)}/{q}/{sid(fs)}/{k}", history(fs, form1(fs), [q], [k], [q], grid=not deep), *v)

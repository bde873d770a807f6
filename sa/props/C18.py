"""Collection aggregations and array operators are pointwise over the members"""
import itertools
from .C13 import concrete
from .ops import *
from ..scene import dkey

RULE = ("an aggregate takes at every point (and towards -infinity) the aggregate of the members' values, undefined where any member is; sum equals folding +; array operators give a StairsArray whose "
        "entries are the Stairs operators applied pair by pair or against the broadcast scalar / Stairs; sample / limit tables and accessor results equal per-member calls, rows labelled by the collection; "
        "cov / corr matrices are symmetric with the pairwise Stairs results as entries")
EXPLAIN = ("Obligations = aggregate x container (list, tuple, dict, ndarray, object / Stairs Series with unordered and with repeated labels, StairsArray) x route (top level, method, agg(numpy reduction), "
           "accessor) x member shapes (1 to 4 members, equal members, step-free, undefined, shared and distinct step points) x forms x domain kind x closed side; operators x scalar flavours x operand kinds.")

CONT = ["list", "tuple", "dict", "ndarray", "array", "series", "series-object", "series-dup", "series-object-dup"]
NPRED = {"sum": "sum", "mean": "mean", "median": "median", "min": "min", "max": "max"}


def coll(s, kind, objs):
    if kind.endswith("-dup"):
        k = dict(dtype="Stairs") if kind == "series-dup" else {}
        return s.ext("pandas", "Series", PyList(list(objs)), index=PyList(["x", "y", "x", "x"][:len(objs)] if len(objs) != 2 else ["x", "x"]), **k)
    return s.coll(kind, objs)


def keys(s, kind, n):
    """row labels of a table over the collection"""
    if kind == "dict":
        return [dkey(i) for i in range(n)]
    if kind.endswith("-dup"):
        return ["x", "y", "x", "x"][:n] if n != 2 else ["x", "x"]
    if kind.startswith("series"):
        return [num(7 - 3 * i) for i in range(n)]
    return [num(i) for i in range(n)]


def members(s, shs, ffs=None, closed=None):
    fns = [s.fn(*sh, "fghk"[i] if i < 4 else f"k{i}_") for i, sh in enumerate(shs)]
    return fns, [s.build(f, ffs[i] if ffs else form1(shs[i]), closed) for i, f in enumerate(fns)]


def route(s, name, how, c, objs):
    """the same aggregate by another name"""
    if how == "top":
        return s.top(name, c)
    if how == "method":
        return s.m(s.arr(objs), name)
    if how == "array-of-array":
        return s.m(s.call(s.st.d["StairsArray"], s.arr(objs)), name)
    if how == "agg":
        return s.m(s.arr(objs), "agg", s.U.getattr(ExtMod("numpy"), NPRED[name]))
    if how == "top-agg":
        return s.top("agg", c, s.U.getattr(ExtMod("numpy"), NPRED[name]))
    if how == "accessor":
        return s.m(s.attr(c, "sc"), name)
    raise AssertionError(how)


def agg(name, shs, cont="list", ffs=None, how="top", dup=False, before=None):
    def body(s):
        fns, objs = members(s, shs, ffs)
        if dup:
            fns, objs = fns + fns[:1], objs + objs[:1]
        if before == "reads":
            for o, f in zip(objs, fns):
                s.attr(o, "step_changes")
                s.m(o, "max")
        elif before == "clip":
            objs = [s.m(o, "clip", s.between(0), None) for o in objs]
            fns = [s.restrict(f, s.between(0), None) for f in fns]
        elif before == "sub":
            objs = [s.op("-", o, objs[-1]) for o in objs]
            fns = [s.lift(POINT["-"], f, fns[-1]) for f in fns]
        r = route(s, name, how, coll(s, cont, objs), objs)
        want = s.lift(AGG[name], *fns)
        s.same(r, want, f"{name} of a {cont}", minimal=False)
        for l in want.labels[:2]:
            for side in ("left", "right"):
                got = s.m(r, "limit", l, side=side)
                if not s.eqval(got, s.at(want, l, side)):
                    raise Refuted("denotation", f"{name}: limit {side} of {l!r} is {s.show(got)}, specified {s.show(s.at(want, l, side))}")
            got = s.m(r, "sample", l)
            if not s.eqval(got, s.at(want, l, "right" if s.closed == "left" else "left")):
                raise Refuted("denotation", f"{name}: value at {l!r} is {s.show(got)}")
        for o, f in zip(objs, fns):
            s.same(o, f, "a member afterwards", minimal=False)
        if name == "sum":
            t = objs[0]
            for o in objs[1:]:
                t = s.op("+", t, o)
            s.same_result(r, t, "sum against folding +")
    return body


SC = {
    "py": lambda s: s.V("c"), "pyi": lambda s: s.V("c", "pyi"), "np": lambda s: s.V("c", "np"), "npi": lambda s: s.V("c", "npi"), "0": lambda s: num(0), "nan": lambda s: NAN, "2": lambda s: num(2), "bool": lambda s: True,
}


def entries(s, r, what):
    if not (isinstance(r, Inst) and r.cls is s.st.d["StairsArray"]):
        raise Refuted("type", f"{what} is {r!r}, expected a StairsArray")
    return s.elements(s.attr(r, "data"), what)


def arrop(op, shs, mode, sc=None, refl=False, other="array", ffs=None, named=False):
    """mode: scalar / stairs / pair"""
    def body(s):
        if mode == "pair":
            half = len(shs) // 2
            fns, objs = members(s, shs, ffs)
            A, B = objs[:half], objs[half:]
            arr, x, xs = s.arr(A), coll(s, other, B), B
        elif mode == "stairs":
            fns, objs = members(s, shs, ffs)
            A = objs[:-1]
            arr, x, xs = s.arr(A), objs[-1], [objs[-1]] * len(A)
        else:
            fns, objs = members(s, shs, ffs)
            A = objs
            x = SC[sc](s)
            arr, xs = s.arr(A), [x] * len(A)
        if named:
            n = RMETHOD[op] if refl else METHOD[op]
            r = s.m(arr, n, x)
        else:
            r = s.op(op, x, arr) if refl else s.op(op, arr, x)
        what = f"StairsArray {'reflected ' if refl else ''}{NAMES[op]} {mode}"
        got = entries(s, r, what)
        if len(got) != len(A):
            raise Refuted("shape", f"{what} has {len(got)} entries")
        for i, (g, o, y) in enumerate(zip(got, A, xs)):
            n = s.op(op, y, o) if refl else s.op(op, o, y)
            s.same_result(g, n, f"entry {i} of {what}")
        for i, o in enumerate(objs):
            s.same(o, fns[i], "an operand afterwards", minimal=False)
    return body


def neg_arr(shs, how):
    def body(s):
        fns, objs = members(s, shs)
        arr = s.arr(objs)
        r = s.un("-", arr) if how == "op" else s.m(arr, "negate")
        for i, (g, o) in enumerate(zip(entries(s, r, "negation"), objs)):
            s.same_result(g, s.un("-", o), f"entry {i} of the negated array")
    return body


AT = {
    "on": lambda s: PyList([s.P(0), s.P(1)]), "mixed": lambda s: PyList([s.P(1), s.before(1), s.between(0), s.P(0)]), "one": lambda s: s.P(0), "one-list": lambda s: PyList([s.between(0)]),
    "tuple": lambda s: (s.P(0), s.after(1)), "index": lambda s: s.index([s.P(0), s.P(1)]),
}


def frame(s, r, rows, cols, what):
    if not isinstance(r, DF):
        raise Refuted("shape", f"{what} is {r!r}, expected a table")
    for got, want, ax in ((s.elements(s.attr(r, "index"), what), rows, "row"), (s.elements(s.attr(r, "columns"), what), cols, "column")):
        if len(got) != len(want):
            raise Refuted("shape", f"{what} has {len(got)} {ax}s, expected {len(want)}")
        for g, w in zip(got, want):
            if isinstance(w, str):
                if g != w:
                    raise Refuted("label", f"{what}: {ax} {g!r}, expected {w!r}")
            else:
                s.lab_same(g, w, f"{ax} label of {what}")
    cs = [r.cols[k] for k in r.cols] if len(r.cols) == len(cols) else None
    if cs is None:
        raise Undecided("repeated column labels")
    return [[hval(c[0][i].v) for c in cs] for i in range(len(rows))]


def table(kind, cont, shs, at, side=None, how="top"):
    def body(s):
        fns, objs = members(s, shs)
        c = coll(s, cont, objs)
        x = AT[at](s)
        k = {} if side is None else {"side": side}
        if how == "top":
            r = s.top(kind, c, x, **k)
        elif how == "method":
            r = s.m(s.arr(objs), kind, x, **k)
        else:
            r = s.m(s.attr(c, "sc"), kind, x, **k)
        xs = [x] if at == "one" else s.elements(x, "points")
        v = frame(s, r, keys(s, cont if how != "method" else "list", len(objs)), xs, f"{kind} table")
        for i, (f, o) in enumerate(zip(fns, objs)):
            for j, p in enumerate(xs):
                sd = ("right" if s.closed == "left" else "left") if kind == "sample" else (side or "right")
                w = s.at(f, p, sd)
                if not s.eqval(v[i][j], w):
                    raise Refuted("value", f"entry ({i}, {p!r}) of the {kind} table is {s.show(v[i][j])}, specified {s.show(w)}")
                one_ = s.m(o, "sample", p) if kind == "sample" else s.m(o, "limit", p, side or "right")
                if not s.eqval(v[i][j], one_):
                    raise Refuted("value", f"entry ({i}, {p!r}) of the {kind} table is {s.show(v[i][j])}, the member gives {s.show(one_)}")
    return body


def matrix(name, cont, shs, how, where=True, labels=True):
    def body(s):
        s.grid = True
        fns, objs = members(s, shs)
        c = coll(s, cont, objs)
        w = (s.before(1), s.after(2))
        k = {"where": w} if where else {}
        n = len(objs)
        if how == "method":
            r = s.m(s.arr(objs), name, **k)
            if not isinstance(r, Arr2) or len(r.rows) != n:
                raise Refuted("shape", f"{name} of an array is {r!r}")
            v = [[hval(x.v) for x in row] for row in r.rows]
        else:
            r = s.top(name, c, **k) if how == "top" else s.m(s.attr(c, "sc"), name, **k)
            ks = keys(s, cont, n)
            v = frame(s, r, ks, ks, f"{name} matrix")
        for i in range(n):
            for j in range(n):
                want = s.m(objs[i], name, objs[j], **k)
                if isnull(want) != isnull(v[i][j]) or not isnull(want) and not s.eqval(v[i][j], want):
                    raise Refuted("value", f"entry ({i}, {j}) of the {name} matrix is {s.show(v[i][j])}, the pairwise result is {s.show(want)}")
                if not (isnull(v[i][j]) and isnull(v[j][i])) and not s.eqval(v[i][j], v[j][i]):
                    raise Refuted("value", f"the {name} matrix is not symmetric at ({i}, {j})")
    return body


TRI = [(("SS", (0,)), ("SS", (1,)), ("2", ())), (("SS", (0,)), ("35", (0,)), ("1N4", (0, 1))), (("SSS", (0, 1)), ("46", (1,)), ("S", ())), (("S", ()), ("N", ()), ("12", (0,))), (("S", ()), ("3", ()), ("2", ())),
       (("SS", (0,)), ("N2N", (0, 1)), ("01", (1,)))]
QUAD = [(("S1", (0,)), ("03", (1,)), ("2", ()), ("120", (0, 1)))]


def obligations(tier):
    P = "C18"
    deep = tier != "quick"
    for name in AGG:
        for fs, gs in binary_shapes((0, 1)):
            yield Ob(f"{P}/{name}/{sid(fs)}/{sid(gs)}", agg(name, [fs, gs]))
        for fs, gs in REP2:
            if name in ("median", "max", "min") and not deep:
                fs, gs = concrete(fs, "135"), concrete(gs, "243")
            for ff in forms(fs[0], len(fs[1])):
                for gf in forms(gs[0], len(gs[1])):
                    if (ff, gf) != (form1(fs), form1(gs)):
                        yield Ob(f"{P}/{name}/{sid(fs)}.{ff}/{sid(gs)}.{gf}", agg(name, [fs, gs], ffs=(ff, gf)))
            for cont in CONT:
                for c in ("left", "right"):
                    yield Ob(f"{P}/{name}-{cont}/{c}/{sid(fs)}/{sid(gs)}", agg(name, [fs, gs], cont), "num", c)
            for how, cont in (("method", "list"), ("array-of-array", "list")) + ((("agg", "list"), ("top-agg", "dict"), ("top-agg", "series-object")) if name in NPRED else (("accessor", "series"), ("accessor", "series-dup"))):
                yield Ob(f"{P}/{name}-{how}/{cont}/{sid(fs)}/{sid(gs)}", agg(name, [fs, gs], cont, how=how))
            for before in ("reads", "clip", "sub"):
                yield Ob(f"{P}/{name}-{before}/{sid(fs)}/{sid(gs)}", agg(name, [fs, gs], before=before))
            yield Ob(f"{P}/{name}-dup/{sid(fs)}/{sid(gs)}", agg(name, [fs, gs], dup=True) if name != "median" or deep or len(fs[1] + gs[1]) < 3 else agg(name, [fs, concrete(gs, "352")], dup=True))
            for v in VARIANTS:
                yield Ob(f"{P}/{name}/{vid(v)}/{sid(fs)}/{sid(gs)}", agg(name, [fs, gs]), *v)
                yield Ob(f"{P}/{name}/{vid(v)}/{sid(gs)}/{sid(fs)}", agg(name, [gs, fs], "dict"), *v)
        for fs in unary_shapes(2):
            for cont in ("list", "array", "dict", "series", "ndarray"):
                yield Ob(f"{P}/{name}-one/{cont}/{sid(fs)}", agg(name, [fs], cont))
            yield Ob(f"{P}/{name}-twice/{sid(fs)}", agg(name, [fs], dup=True))
        for tr in TRI + QUAD:
            for perm in (itertools.permutations(tr) if len(tr) == 3 else [tr, tr[::-1]]):
                t = "/".join(sid(x) for x in perm)
                yield Ob(f"{P}/{name}/{t}", agg(name, list(perm)))
            for cont in ("series-dup", "dict", "series", "array"):
                yield Ob(f"{P}/{name}-{cont}/{'/'.join(sid(x) for x in tr)}", agg(name, list(tr), cont))
            for v in (("num", "right"), ("ts", "left"), ("tz", "right")):
                yield Ob(f"{P}/{name}/{vid(v)}/{'/'.join(sid(x) for x in tr)}", agg(name, list(tr)), *v)
    A2 = [(("SSS", (0, 1)), ("SS", (1,))), (("SNS", (0, 1)), ("S", ())), (("N", ()), ("NS", (0,)))]
    for op in ARITH + REL:
        for shs in A2:
            t = "/".join(sid(x) for x in shs)
            full = shs
            if op in REL + ["/"] and not deep:
                shs = tuple(concrete(x, d) for x, d in zip(shs, ("204", "13")))
            for sc in SC:
                if sc == "bool":
                    continue
                for refl in (False, True):
                    yield Ob(f"{P}/array-{NAMES[op]}/{'r' if refl else ''}{sc}/{t}", arrop(op, shs, "scalar", sc, refl))
                    if (op in RMETHOD or not refl) and sc in ("py", "npi", "np"):
                        yield Ob(f"{P}/array-{NAMES[op]}-named/{'r' if refl else ''}{sc}/{t}", arrop(op, shs, "scalar", sc, refl, named=True))
            if full != shs:
                for sc in ("py", "np"):
                    for refl in (False, True):
                        yield Ob(f"{P}/array-{NAMES[op]}/symbolic/{'r' if refl else ''}{sc}/{t}", arrop(op, full, "scalar", sc, refl))
            for third in (("SS", (0,)), ("S", ()), ("NS", (1,))) if deep or op not in REL + ["/"] else (("20", (0,)), ("1", ()), ("N2", (1,))):
                yield Ob(f"{P}/array-{NAMES[op]}/stairs/{t}/{sid(third)}", arrop(op, shs + (third,), "stairs"))
                yield Ob(f"{P}/array-{NAMES[op]}-named/stairs/{t}/{sid(third)}", arrop(op, shs + (third,), "stairs", named=True))
                if op in RMETHOD:
                    yield Ob(f"{P}/array-{NAMES[op]}-named/rstairs/{t}/{sid(third)}", arrop(op, shs + (third,), "stairs", named=True, refl=True))
            for other in ("array", "list", "tuple", "ndarray"):
                for o2 in ((("SS", (0,)), ("SS", (1,))), (("S", ()), ("SN", (0,)))) if deep or op not in REL + ["/"] else ((("20", (0,)), ("35", (1,))), (("1", ()), ("4N", (0,)))):
                    yield Ob(f"{P}/array-{NAMES[op]}/pair-{other}/{t}/{'/'.join(sid(x) for x in o2)}", arrop(op, shs + o2, "pair", other=other))
                    if other == "array":
                        yield Ob(f"{P}/array-{NAMES[op]}-named/pair/{t}/{'/'.join(sid(x) for x in o2)}", arrop(op, shs + o2, "pair", other=other, named=True))
                        if op in RMETHOD:
                            yield Ob(f"{P}/array-{NAMES[op]}-named/rpair/{t}/{'/'.join(sid(x) for x in o2)}", arrop(op, shs + o2, "pair", other=other, named=True, refl=True))
            for v in VARIANTS:
                yield Ob(f"{P}/array-{NAMES[op]}/{vid(v)}/py/{t}", arrop(op, shs, "scalar", "py"), *v)
                yield Ob(f"{P}/array-{NAMES[op]}/{vid(v)}/rpy/{t}", arrop(op, shs, "scalar", "py", True), *v)
                yield Ob(f"{P}/array-{NAMES[op]}/{vid(v)}/pair/{t}", arrop(op, shs + ((("SS", (0,)), ("SS", (1,))) if full == shs else (("20", (0,)), ("35", (1,)))), "pair"), *v)
                yield Ob(f"{P}/array-{NAMES[op]}/{vid(v)}/stairs/{t}", arrop(op, shs + ((("SS", (0,)),) if full == shs else (("20", (0,)),)), "stairs"), *v)
    for shs in A2:
        t = "/".join(sid(x) for x in shs)
        for how in ("op", "method"):
            for v in [("num", "left")] + VARIANTS:
                yield Ob(f"{P}/array-neg/{how}/{vid(v)}/{t}", neg_arr(shs, how), *v)
        for cont in CONT:
            for at in AT:
                for kind in ("sample", "limit"):
                    for side in (None,) if kind == "sample" else (None, "left", "right"):
                        for how in ("top",) + (("accessor",) if cont in ("series", "series-dup") else ()) + (("method",) if cont == "list" else ()):
                            yield Ob(f"{P}/{kind}-{how}/{cont}/{at}/{side}/{t}", table(kind, cont, shs, at, side, how))
                            if cont in ("list", "series"):
                                for v in VARIANTS:
                                    yield Ob(f"{P}/{kind}-{how}/{cont}/{vid(v)}/{at}/{side}/{t}", table(kind, cont, shs, at, side, how), *v)
    for name in ("cov", "corr"):
        for shs in ((("12", (0,)), ("35", (1,))), (("35", (0,)), ("3N5", (0, 1)), ("2", ())), (("N3N", (0, 1)), ("N25N", (0, 1, 2))), (("4", ()), ("12", (1,)))):
            t = "/".join(sid(x) for x in shs)
            for cont in CONT:
                for how in ("top",) + (("accessor",) if cont in ("series", "series-dup") else ()) + (("method",) if cont == "list" else ()):
                    yield Ob(f"{P}/{name}-{how}/{cont}/{t}", matrix(name, cont, shs, how))
                    if cont in ("list", "series"):
                        for v in (("num", "right"), ("ts", "left"), ("td", "right"), ("tz", "left")):
                            yield Ob(f"{P}/{name}-{how}/{cont}/{vid(v)}/{t}", matrix(name, cont, shs, how), *v)
        nn = (("N3N", (0, 1)), ("N25N", (0, 1, 2)))
        for how, cont in (("top", "dict"), ("method", "list"), ("accessor", "series")):
            yield Ob(f"{P}/{name}-{how}/default/{cont}", matrix(name, cont, nn, how, where=False))
    yield Ob(f"{P}/cov-top/symbolic", matrix("cov", "list", (("SS", (0,)), ("SS", (1,))), "top"))

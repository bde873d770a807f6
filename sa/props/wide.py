"""operands of many pieces, layers, queries, slices or members: fixed digit values on an evenly spaced grid with a
symbolic origin, so that no behaviour that depends on how many there are stays out of reach"""
import random
from .ops import *
from .C13 import concrete


def digits(n, seed, na=True, alphabet="0123457abcht"):
    """a pattern of n + 1 pieces, adjacent ones different"""
    rnd = random.Random(seed * 7919 + n)
    out = []
    while len(out) <= n:
        c = rnd.choice(alphabet + ("NN" if na else ""))
        if not out or out[-1] != c:
            out.append(c)
    return "".join(out)


def wshape(n, seed, step=1, off=0, na=True, alphabet="0123457abcht"):
    return digits(n, seed, na, alphabet), tuple(range(off, off + n * step, step))


def wid(n, seed):
    return f"{n}.{seed}"


def wide(body, grid=False):
    """the scenario on a wide scene"""
    def f(s):
        s.wide = True
        if grid:
            s.grid = True
        body(s)
    return f


SIZES = [5, 9, 18, 34, 70, 140]
LARGE = 300
KINDS3 = [("num", "left"), ("ts", "left"), ("num", "right"), ("td", "left"), ("tz", "right"), ("int", "left")]


def sizes(tier):
    return SIZES if tier == "quick" else SIZES + [LARGE, 600]


def pair(n, seed, na=True):
    """operands that share some step points and not others"""
    return wshape(n, seed, 2, 0, na), wshape(max(2, n * 2 // 3), seed + 50, 3, 1, na)


def binary(pid, syms, tier):
    """wide operands of binary operators"""
    from . import C01, C06
    for sym in syms:
        for n in sizes(tier):
            for seed in (1, 2, 3) if n < 50 else (1,):
                for na in (True, False):
                    for i, (ff, gf) in enumerate((("V", "V"), ("M", "M")) if na else (("L", "L"), ("V", "V"), ("L", "V"), ("V", "L"))):
                        f, g = pair(n, seed, na)
                        v = KINDS3[(seed + i + n) % len(KINDS3)]
                        yield Ob(f"{pid}/wide/{NAMES[sym]}/{wid(n, seed)}.{ff}.{gf}/{vid(v)}", wide(C06.fun(sym, f, g, ff, gf)), *v)
                f, g = wshape(n, seed, 2), wshape(2, seed, 5, 1)
                yield Ob(f"{pid}/wide/{NAMES[sym]}/{wid(n, seed)}/few", wide(C06.fun(sym, f, g, "V", "V")))
                yield Ob(f"{pid}/wide/{NAMES[sym]}/few/{wid(n, seed)}", wide(C06.fun(sym, g, f, "V", "V")))
        for n in (9, 70):
            for na in (True, False):
                for side in ("right", "left"):
                    for sc in ("zero", "one", "nan"):
                        if sym in ("mask", "where") or sym == "fillna" and side == "left":
                            continue
                        if sym == "fillna" and sc == "nan":
                            continue
                        if sym == "fillna":
                            continue
                        f = wshape(n, 4, 1, 0, na)
                        yield Ob(f"{pid}/wide/{NAMES[sym]}-scalar/{side}-{sc}/{n}{'' if na else 'd'}", wide(C01.scalar(sym, f, "V" if na else "L", sc, side)))


def unary(pid, names, tier, minimal=False):
    from . import C01, C12
    for nm in names:
        for n in sizes(tier):
            for seed in (1, 2) if n < 50 else (1,):
                for i, (ff, na) in enumerate((("V", True), ("L", False), ("V", False))):
                    v = KINDS3[(seed + i + n) % len(KINDS3)]
                    f = wshape(n, seed, 1, 0, na)
                    yield Ob(f"{pid}/wide/{nm}/{wid(n, seed)}.{ff}{'' if na else 'd'}", wide(C12.minimal1(nm, f, ff) if minimal else C01.unary(nm, f, ff)), *v)


def c06(tier):
    from . import C06
    yield from binary("C06", ["mask", "where"], tier)
    yield from unary("C06", ["isna", "notna"], tier)
    for kind in ("clip", "mask", "where"):
        for n in sizes(tier):
            for i, (lo, up) in enumerate(((0, 1), (2, n - 2), (n // 2, None), (None, n // 2), (n - 2, n - 1))):
                for half in (0, 1):
                    for ff, na in (("V", True), ("L", False)):
                        f = wshape(n, i, 1, 0, na)

                        def body(s, f=f, ff=ff, lo=lo, up=up, half=half, kind=kind):
                            fn = s.fn(*f, "f")
                            o = s.build(fn, ff)
                            a, b = (None if x is None else s.at_wide(2 * x + half) for x in (lo, up))
                            r = s.m(o, "clip", a, b) if kind == "clip" else s.m(o, kind, (a, b))
                            s.same(r, outside(s, fn, a, b) if kind == "mask" else s.restrict(fn, a, b), f"{kind} between {lo} and {up}", minimal=False)
                            s.same(o, fn, "receiver", minimal=False)
                        yield Ob(f"C06/wide/{kind}-interval/{lo},{up}.{half}/{n}.{ff}", wide(body))


def layering(n, seed, how, recv, route="layer"):
    """n triples at unordered, repeated and coinciding positions"""
    def body(s):
        rnd = random.Random(seed * 31 + n)
        span = max(3, n if seed % 2 else n // 2)
        st, en, vs = [], [], []
        for _ in range(n):
            st.append(None if rnd.random() < 0.1 else rnd.randrange(span))
            en.append(None if rnd.random() < 0.1 else rnd.randrange(span))
            vs.append(rnd.choice([-2, -1, 1, 1, 2, 3]))
        f = s.fn(*recv, "f")
        lab = lambda x: None if x is None else s.at_wide(x)
        S_, E_, V_ = PyList([lab(x) for x in st]), PyList([lab(x) for x in en]), PyList([num(v, fl="pyi") for v in vs])
        if route == "ctor":
            o = s.call(s.stairs_cls(), start=S_, end=E_, value=V_, initial_value=f.init, closed=s.closed)
            f = Fn(f.init)
        else:
            o = s.build(f, "V" if "N" in recv[0] else "L" if recv[1] else "C")
        if route == "ctor":
            pass
        elif how == "scalar":
            for a, b, v in zip(st, en, vs):
                if s.m(o, "layer", lab(a), lab(b), v) is not o:
                    raise Refuted("receiver", "layer does not return the receiver")
        elif how == "halves":
            k = n // 2
            s.m(o, "layer", PyList(list(S_.v)[:k]), PyList(list(E_.v)[:k]), PyList(list(V_.v)[:k]))
            s.attr(o, "step_values")
            s.m(o, "layer", PyList(list(S_.v)[k:]), PyList(list(E_.v)[k:]), PyList(list(V_.v)[k:]))
        elif how == "ones":
            vs = [1] * n
            s.m(o, "layer", S_, E_)
        else:
            s.m(o, "layer", s.vector(how, list(S_.v)), s.vector(how, list(E_.v)), s.vector(how, list(V_.v)))
        at0, ev = 0, {}
        for a, b, v in zip(st, en, vs):
            if a is None:
                at0 += v
            else:
                ev[a] = ev.get(a, 0) + v
            if b is not None:
                ev[b] = ev.get(b, 0) - v
        t, pts = at0, []
        for x in sorted(ev):
            t += ev[x]
            pts.append((s.at_wide(x), num(t)))
        add = strict(lambda x, y: num_arith("+", x, y))
        s.same(o, s.lift(add, f, Fn(num(at0), pts)), f"{n} layers ({how})", minimal=False)
    return body


def c02(tier):
    recvs = [("3", ()), ("25", (1,)), ("1N4", (0, 3)), ("N3N", (0, 4))]
    for n in sizes(tier):
        for seed in (1, 2):
            for how in ("list", "ndarray", "series", "scalar", "halves", "ones"):
                if how == "scalar" and n > 40 and tier == "quick":
                    continue
                for i, r in enumerate(recvs if n < 40 else recvs[:1]):
                    v = KINDS3[(seed + i + n) % len(KINDS3)]
                    yield Ob(f"C02/wide/{how}/{wid(n, seed)}/{sid(r)}", wide(layering(n, seed, how, r)), *v)
            yield Ob(f"C02/wide/ctor/{wid(n, seed)}", wide(layering(n, seed, "list", ("3", ()), "ctor")))
            w = wshape(n, seed, 1, 0)
            yield Ob(f"C02/wide/receiver/{wid(n, seed)}", wide(layering(min(n, 18), seed, "list", w)))
            w = wshape(n, seed, 1, 0, False)
            yield Ob(f"C02/wide/receiver-defined/{wid(n, seed)}", wide(layering(min(n, 18), seed, "list", w)))
            yield Ob(f"C02/wide/receiver-scalar/{wid(n, seed)}", wide(layering(6, seed, "scalar", w)))


def points(n, f, ff, how, cont, index, order):
    from .C03 import call, side_of

    def body(s):
        fn = s.fn(*f, "f")
        o = s.build(fn, ff)
        rnd = random.Random(n)
        m = 2 * len(f[1]) + 3
        ks = [rnd.randrange(-3, m) for _ in range(n)]
        ks = sorted(ks) if order == "sorted" else sorted(ks, reverse=True) if order == "reversed" else ks
        q = [s.at_wide(k) for k in ks]
        r = call(s, o, how, s.vector(cont, q), **({"include_index": True} if index else {}))
        vals = s.elements(r, how)
        if len(vals) != n:
            raise Refuted("shape", f"{how} of {n} points gives {len(vals)} values")
        side = side_of(s, how)
        for k, x, v in zip(ks, q, vals):
            i = (k // 2 if k % 2 == 0 and side == "left" else k // 2 + 1) if k >= 0 else 0
            w = fn.init if i <= 0 else fn.pts[min(i, len(fn.pts)) - 1][1]
            s.val_eq(v, w, f"{how} at {x!r} (one of {n} points)")
        if index:
            if not isinstance(r, Ser):
                raise Refuted("shape", f"{how} with include_index does not give a Series")
            for x, l in zip(q, s.elements(s.attr(r, "index"), "index")):
                s.lab_same(l, x, f"index entry of {how}")
    return body


def c03(tier):
    from . import C03
    for n in sizes(tier):
        for how in ("limit-left", "limit-right", "sample", "call"):
            for order in ("unsorted", "sorted", "reversed"):
                for i, cont in enumerate(("list", "ndarray", "series")):
                    if n > 40 and cont != "list":
                        continue
                    v = KINDS3[(i + n) % len(KINDS3)]
                    yield Ob(f"C03/wide/{how}-{cont}/{order}/{n}", wide(points(n, ("1N2", (0, 1)), "V", how, cont, False, order)), *v)
                    yield Ob(f"C03/wide/{how}-{cont}-index/{order}/{n}", wide(points(n, wshape(min(n, 20), 1), "V", how, cont, True, order)), *v)
            for ff, na in (("V", True), ("L", False), ("V", False)):
                f = wshape(n, 5, 1, 0, na)
                yield Ob(f"C03/wide/{how}/steps/{n}.{ff}{'' if na else 'd'}", wide(points(12, f, ff, how, "list", False, "unsorted")))
                yield Ob(f"C03/wide/{how}/steps-index/{n}.{ff}{'' if na else 'd'}", wide(points(12, f, ff, how, "list", True, "unsorted")))
        for i, o in enumerate(C03.ORDERS[:2]):
            for ff, na in (("V", True), ("L", False), ("V", False)):
                yield Ob(f"C03/wide/views/{i}/{n}.{ff}{'' if na else 'd'}", wide(C03.views(wshape(n, 2, 1, 0, na), ff, o)))


def c07(tier):
    yield from unary("C07", ["fillna-scalar", "fillna-0", "fillna-ffill", "fillna-pad", "fillna-bfill", "fillna-backfill"], tier)
    yield from binary("C07", ["fillna"], tier)


def c08(tier):
    from . import C08
    for nm in C08.STATS:
        for n in sizes(tier):
            for seed in (1, 2):
                for i, (ff, na) in enumerate((("V", True), ("L", False))):
                    for alpha in ("01234567", "09"):
                        v = KINDS3[(seed + i + n) % len(KINDS3)]
                        f = wshape(n, seed, 1, 0, na, alpha)
                        yield Ob(f"C08/wide/{nm}/{wid(n, seed)}.{ff}/{alpha[-1]}", wide(C08.stat(nm, f, ff)), *v)
                if nm != "value_sums":
                    f = wshape(n, seed)
                    yield Ob(f"C08/wide/{nm}-window/{wid(n, seed)}", wide(C08.stat(nm, f, "V", "window-low")))
    for n in sizes(tier):
        yield Ob(f"C08/wide/value-sums-na/{n}", wide(C08.dropna(wshape(n, 3), "V")))


def manyvalues(n):
    """a function of n distinct values"""
    def body(s):
        rnd = random.Random(n)
        vals = list(range(-n // 2, n - n // 2))
        rnd.shuffle(vals)
        return Fn(0, [(s.P(i), num(v)) for i, v in enumerate(vals)] + [(s.P(n), 0)])
    return body


def c09(tier):
    from . import C09
    for n in sizes(tier):
        for seed in (1, 2) if n < 50 else (1,):
            f = wshape(n, seed)
            for how in ("call", "left", "right"):
                yield Ob(f"C09/wide/ecdf-{how}/{wid(n, seed)}", wide(C09.ecdf(f, "V", "v0", how)))
            for which in ("percentile", "fractile"):
                for how in ("0", "1", "half", "cum1", "cum3"):
                    yield Ob(f"C09/wide/{which}/{how}/{wid(n, seed)}", wide(C09.pct(f, "V", which, how)))
            yield Ob(f"C09/wide/median/{wid(n, seed)}", wide(C09.median(f, "V")))
            yield Ob(f"C09/wide/mode/{wid(n, seed)}", wide(C09.mode(f, "V")))
            for q in (4, 10, 37):
                yield Ob(f"C09/wide/quantiles/{q}/{wid(n, seed)}", wide(C09.quantiles(f, "V", q)))
            for st in ("sum", "frequency", "probability", "density"):
                for closed in ("left", "right"):
                    yield Ob(f"C09/wide/hist/{st}-{closed}/{wid(n, seed)}", wide(many_bins(manyvalues(n) if seed == 2 else None, f, n, st, closed)))
            if n < 50:
                yield Ob(f"C09/wide/describe/{wid(n, seed)}", wide(C09.describe(f, "V", None, None)))
        for y in (-1, 0, 3):
            yield Ob(f"C09/wide/ecdf-values/{y}/{n}", wide(ecdf_of(manyvalues(n), y)))


def ecdf_of(mk, y):
    from .C09 import cdf

    def body(s):
        fn = mk(s)
        o = s.build(fn, "V")
        e = s.attr(o, "ecdf")
        for k in (y, y + 0.5):
            k = num(Fraction(k))
            for side in ("left", "right"):
                s.val_eq(s.m(e, "limit", k, side), cdf(s, fn, k, side == "left"), f"ecdf {side} limit")
        for p in (10, 50, 75):
            from .C09 import quantile
            s.val_eq(s.call(s.attr(o, "percentile"), p), quantile(s, fn, num(Fraction(p, 100))), f"percentile({p})")
    return body


def many_bins(mk, f, n, st, closed):
    from . import C09

    def body(s):
        fn = mk(s) if mk else s.fn(*f, "f")
        C09.usable(s, fn)
        o = s.build(fn, "V")
        lo, k = (-(n // 2) - 1, n + 3) if mk else (-1, 10)
        edges = [num(lo + i) for i in range(k)]
        cells = list(zip(edges, edges[1:]))
        want = C09.hist_want(s, fn, cells, closed, st)
        C09.hist_same(s, s.m(o, "hist", bins=PyList(edges), closed=closed, stat=st), cells, closed, want)
    return body


def c10(tier):
    from . import C10
    for n in sizes(tier):
        for seed in (1, 2):
            for ff, na in (("V", True), ("L", False)):
                f = wshape(n, seed, 1, 0, na)
                for q in ("values", "min", "max", "agg-min", "agg-max"):
                    if q in ("min", "max"):
                        yield Ob(f"C10/wide/{q}/{wid(n, seed)}.{ff}", wide(C10.query(q, f, ff, "none", None)))
                        continue
                    for w in ("nn", "02", "m-a", "0n", "n1"):
                        for closed in C10.CLOSED:
                            if n > 40 and closed not in (None, "both", "neither"):
                                continue
                            yield Ob(f"C10/wide/{q}/{w}/{closed}/{wid(n, seed)}.{ff}", wide(C10.query(q, f, ff, w, closed)))


def slices(n, kind):
    """n slices over 2n positions"""
    rnd = random.Random(n)
    if kind == "tile":
        return [(k, k + 3) for k in range(-1, 3 * n - 1, 3)]
    if kind == "gap":
        return [(k, k + 2) for k in range(-1, 3 * n - 1, 3)]
    if kind == "overlap":
        return [(k, k + 5) for k in range(0, 2 * n, 2)]
    out = [(k, k + 1 + k % 4) for k in range(0, 2 * n, 2)]
    rnd.shuffle(out)
    return out


def sliced(f, ff, n, kind, names, closed, how, route):
    from . import C11

    def body(s):
        fn = s.fn(*f, "f")
        o = s.build(fn, ff)
        ab = [(s.at_wide(a), s.at_wide(b)) for a, b in slices(n, kind)]
        z = C11.make(s, o, how, ab, closed)
        for nm in names:
            C11.defined(s, fn, ab, nm)
        if route == "method":
            for nm in names:
                for g, (a, b) in zip(C11.rows(s, s.m(z, nm), ab, closed, nm), ab):
                    C11.stat(s, nm, g, fn, a, b, closed)
        else:
            C11.table(s, s.m(z, "agg", PyList(list(names))), names, fn, ab, closed)
        s.same(o, fn, "function after slicing", minimal=False)
    return body


def c11(tier):
    from . import C11
    for n in [x for x in sizes(tier) if x <= 80]:
        for kind in ("tile", "gap", "overlap", "unordered"):
            for closed in ("left", "right"):
                for ff, na in (("V", True), ("L", False)):
                    f = wshape(n, 1, 1, 0, na)
                    for nm in ("mean", "integral", "median", "mode", "min", "max"):
                        if na and nm in ("integral", "median", "mode") and kind != "overlap":
                            continue
                        yield Ob(f"C11/wide/{nm}/{kind}-{closed}/{n}.{ff}", wide(sliced(f, ff, n, kind, [nm], closed, "index", "method")), "num", "left" if n % 2 else "right")
                    yield Ob(f"C11/wide/agg/{kind}-{closed}/{n}.{ff}", wide(sliced(f, ff, n, kind, ["max", "mean", "min"], closed, "index", "agg")))
            if kind == "tile":
                for v in KINDS3[1:4]:
                    yield Ob(f"C11/wide/breaks/{vid(v)}/{n}", wide(sliced(wshape(n, 2, 1, 0, False), "V", n, kind, ["mean", "max"], "left", "list", "method")), *v)


def c12(tier):
    yield from unary("C12", [x for x in UNARY if x not in ("clip-in", "diff", "shift", "clip-before") and not x.endswith("-c") and x != "fillna-scalar"], tier, True)
    from . import C12
    for op in BINARY:
        for n in sizes(tier):
            for na, ff in ((True, "V"), (False, "L"), (True, "M")):
                # few distinct values: many neighbouring results coincide
                f, g = wshape(n, 3, 2, 0, na, "01"), wshape(n, 4, 3, 1, na, "01")
                yield Ob(f"C12/wide/min-{NAMES[op]}/{n}.{ff}", wide(C12.minimal2(op, f, g, ff, ff)))
    for a in AGG:
        for n in sizes(tier)[:4]:
            shs = tuple(wshape(n, i, 1 + i % 2, i % 3, i % 2 == 0, "01") for i in range(3))
            yield Ob(f"C12/wide/min-agg-{a}/{n}", wide(C12.minimal_agg(a, shs)))
    for n in sizes(tier):
        for na in (True, False):
            f = wshape(n, 5, 1, 0, na)
            for ff, gf in (("V", "V"), ("M", "V"), ("V", "M")) if na else (("L", "V"), ("V", "L"), ("L", "L")):
                yield Ob(f"C12/wide/identical/same/{n}.{ff}.{gf}", wide(C12.identical(f, f, ff, gf)))
                for k in (0, n // 2, n):
                    c = [x for x in "01234567" if x not in f[0][max(0, k - 1):k + 2]][0]
                    g = f[0][:k] + c + f[0][k + 1:], f[1]
                    yield Ob(f"C12/wide/identical/one-off/{k}/{n}.{ff}.{gf}", wide(C12.identical(f, g, ff, gf)))
                g = f[0], f[1][:-1] + (f[1][-1] + 1,)
                yield Ob(f"C12/wide/identical/moved/{n}.{ff}.{gf}", wide(C12.identical(f, g, ff, gf)))
        for nm in ("add-comm", "mul-comm", "and-comm", "or-comm", "xor-comm", "de-morgan-and", "de-morgan-or", "mask-where", "where-mask", "sub-add-neg", "lt-gt", "le-not-gt", "ne-not-eq", "agg-sum", "agg-max"):
            if n <= 80:
                f, g = pair(n, 6)
                yield Ob(f"C12/wide/law-{nm}/{n}", wide(C12.law(nm, (f, g), ("V", "V"))))
        for nm in ("sub-self", "double-not", "double-neg", "notna", "add-zero", "mul-one", "div-one"):
            yield Ob(f"C12/wide/law-{nm}/{n}", wide(C12.law(nm, (wshape(n, 7),), ("V",))))


def c18(tier):
    from . import C18
    for name in AGG:
        for m in (6, 12, 20, 33) if tier == "quick" else (6, 12, 20, 33, 70):
            for seed in (1, 2):
                for i, cont in enumerate(("list", "dict", "array", "series")):
                    shs = [wshape(1 + (k * 3 + seed) % 4, k + seed, 1 + k % 3, k % 5, seed == 2 and k % 7 == 3, "0123456789") for k in range(m)]
                    v = KINDS3[(seed + i + m) % len(KINDS3)]
                    yield Ob(f"C18/wide/{name}-{cont}/{m}.{seed}", wide(C18.agg(name, shs, cont)), *v)
        for n in (18, 70):
            shs = [wshape(n, k, 1 + k, k, k == 1) for k in range(3)]
            yield Ob(f"C18/wide/{name}-long/{n}", wide(C18.agg(name, shs)))
    for op in ARITH + REL:
        for m in (6, 12, 33):
            shs = tuple(wshape(k % 3 + 1, k, 1 + k % 2, k % 4, k % 5 == 2) for k in range(m))
            for refl in (False, True):
                yield Ob(f"C18/wide/array-{NAMES[op]}/{'r' if refl else ''}2/{m}", wide(C18.arrop(op, shs, "scalar", "2", refl)))
            yield Ob(f"C18/wide/array-{NAMES[op]}/stairs/{m}", wide(C18.arrop(op, shs + (("20", (1,)),), "stairs")))
            yield Ob(f"C18/wide/array-{NAMES[op]}/pair/{m}", wide(C18.arrop(op, shs + shs[::-1], "pair")))
    for m in (6, 12, 33):
        shs = tuple(wshape(k % 3 + 1, k, 1 + k % 2, k % 4, k % 5 == 2) for k in range(m))
        for cont in ("list", "dict", "series", "array"):
            for kind in ("sample", "limit"):
                for side in (None, "left") if kind == "limit" else (None,):
                    yield Ob(f"C18/wide/{kind}/{cont}/{side}/{m}", wide(C18.table(kind, cont, shs, "mixed", side)))
    for name in ("cov", "corr"):
        for m in (5, 9):
            shs = tuple(wshape(k % 3 + 1, k + 1, 1 + k % 2, k % 4, False) for k in range(m))
            yield Ob(f"C18/wide/{name}/{m}", wide(C18.matrix(name, "list", shs, "top")))


def c13(tier):
    from . import C13
    for n in (9, 40, 140):
        for na, ff in ((True, "V"), (False, "L")):
            f = wshape(n, 1, 1, 0, na)
            for nm in UNARY:
                if n > 40 and (nm.endswith("-c") or nm == "fillna-scalar"):
                    continue
                for t in "ra":
                    yield Ob(f"C13/wide/{nm}/{n}.{ff}/{t}", wide(C13.program(C13.un(nm), [f], [ff], t, "vector" if t == "r" else "scalar"), True))
            if n <= 40:
                for op in BINARY:
                    g = wshape(n, 2, 2, 1, na)
                    for t in "rab":
                        yield Ob(f"C13/wide/{NAMES[op]}/{n}.{ff}/{t}", wide(C13.program(C13.bi(op), [f, g], [ff, ff], t, "scalar")))


def c14(tier):
    from . import C14
    for n in (9, 40) if tier == "quick" else (9, 40, 140):
        for na, ff in ((True, "V"), (False, "L")):
            f = wshape(n, 1, 1, 0, na)
            for q in C14.CORE:
                for k in ("in", "nostart", "vector"):
                    yield Ob(f"C14/wide/{q}/{k}/{n}.{ff}", wide(C14.history(f, ff, [q], [k], [q], grid=True), True))


def c19(tier):
    from . import C19
    for name in ("cov", "corr"):
        for n in [x for x in sizes(tier) if x <= 80]:
            for seed in (1, 2):
                for na, ff in ((True, "V"), (False, "L")):
                    f, g = pair(n, seed, na)
                    for win in ("all", "01", "in"):
                        yield Ob(f"C19/wide/{name}/{win}/{wid(n, seed)}.{ff}", wide(C19.stat(name, f, g, ff, ff, win)))
                    w = far(n)
                    C19.WINS.setdefault(f"far{n}", w)
                    for lag, clip in (("0", "pre"), ("+", "pre"), ("-", "post"), ("-", "pre")):
                        yield Ob(f"C19/wide/{name}/far/{lag}-{clip}/{wid(n, seed)}.{ff}", wide(C19.stat(name, f, g, ff, ff, f"far{n}", lag, clip)))


def far(n):
    return lambda s: (s.before(1), s.at_wide(5 * n))


def c20(tier):
    from . import C20
    for op in ("shift", "diff"):
        for n in sizes(tier):
            for na, ff in ((True, "V"), (False, "L")):
                for d in ("gap", "-gap", "half"):
                    v = KINDS3[n % len(KINDS3)]
                    if d in C20.DEL:
                        yield Ob(f"C20/wide/{op}/{d}/{n}.{ff}", wide(C20.shift(wshape(n, 1, 1, 0, na), ff, d, True, op=op), True), *v)
    for n in [x for x in sizes(tier) if x <= 40]:
        for na, ff in ((True, "V"), (False, "L")):
            for win in ("sym", "gap", "asym", "wide"):
                for wh in ("default", "near", "low", "01"):
                    yield Ob(f"C20/wide/rolling/{win}/{wh}/{n}.{ff}", wide(C20.rolling(wshape(n, 1, 1, 0, na), ff, win, wh), True))


def c15(tier):
    from . import C15
    for n in (9, 40) if tier == "quick" else (9, 40, 140):
        for c in ("left", "right"):
            for na, ff in ((True, "V"), (False, "L")):
                f, g = pair(n, 3, na)
                for nm in UNARY:
                    yield Ob(f"C15/wide/{nm}/{c}/{n}.{ff}", wide(C15.unary(nm, (f, ff)), True), "num", c)
                for nm, q in {**C15.QUIET, **C15.UN_EXTRA}.items():
                    if n > 9 and nm in ("rolling_mean", "diff-shift"):
                        continue
                    yield Ob(f"C15/wide/quiet-{nm}/{c}/{n}.{ff}", wide(C15.quiet(q, (f, ff), nm), True), "num", c)
                for op in BINARY:
                    call = lambda s, a, b, op=op: apply2(s, op, a, b)
                    for cb in ("left", "right"):
                        for sb in ((g, ff), "ctor", "cancel"):
                            yield Ob(f"C15/wide/{NAMES[op]}/{c}-{cb}/{n}.{ff}/{sb if isinstance(sb, str) else 'g'}", wide(C15.binary(call, (f, ff), sb, c, cb, NAMES[op])))
                            if isinstance(sb, str):
                                yield Ob(f"C15/wide/{NAMES[op]}/{c}-{cb}/{sb}/{n}.{ff}", wide(C15.binary(call, sb, (f, ff), c, cb, NAMES[op])))
    for name in AGG:
        for m in (5, 9):
            for k in range(m + 1):
                for stepless in ((), (0,), (1, m - 1), tuple(range(m - 1)), tuple(range(1, m))):
                    if tier == "quick" and (len(stepless) > 2 and (m > 5 or k % 4) and name in ("min", "max") or len(stepless) > 1 and name == "median"):
                        continue
                    sides = ["right" if i == k else "left" for i in range(m)]
                    specs = ["ctor" if i in stepless else (wshape(i % 3 + 1, i, 1, i % 4, False), "L") for i in range(m)]
                    yield Ob(f"C15/wide/{name}/{m}/{k}/{'.'.join(map(str, stepless))}", wide(C15.collection(name, specs, sides, "list")))
                    if not k or k == m:
                        yield Ob(f"C15/wide/{name}/{m}/{k}-other/{'.'.join(map(str, stepless))}", wide(C15.collection(name, specs, ["left" if x == "right" else "right" for x in sides], "list")))


def c16(tier):
    from . import C16
    full = C16.ALL2
    for n in (9, 40):
        for na in (True, False):
            f, g = pair(n, 3, na)
            for pv, (kind, _) in C16.PROV.items():
                if not C16.applies(kind, f):
                    continue
                for k, op in enumerate(full):
                    if tier == "quick" and (k + len(pv) + n) % 3:
                        continue
                    yield Ob(f"C16/wide/{pv}/{op}/{n}{'' if na else 'd'}", wide(C16.chain(f, pv, [op], [g]), True))
            for i, a in enumerate(full):
                for j, b in enumerate(full + ["layer"]):
                    if n > 9 or (i * 7 + j) % (3 if tier == "quick" else 1):
                        continue
                    rd = [None, ["sv", "sc", "max", "lim", "tf", "neg", None][(i * 5 + j) % 7]]
                    yield Ob(f"C16/wide/two/{a}/{b}/{n}{'' if na else 'd'}", wide(C16.chain(f, None, [a, b], [g, wshape(3, 4, 2, 2, na)] if C16.arity(a) else [wshape(3, 4, 2, 2, na)], rd), True))
            for k, op in enumerate(full):
                for l, (qn, (finite, q)) in enumerate(C16.QUERY.items()):
                    if n > 9 or (k + l) % (3 if tier == "quick" else 1) or qn == "query-n":
                        continue
                    yield Ob(f"C16/wide/query/{op}/{qn}/{n}{'' if na else 'd'}", wide(C16.query(f, None, [op], q, finite, [g]), True))
    tri = ["neg", "isna", "fillna-ffill", "clip-in", "shift", "rsub-c", "gt-c", "div-c", "mask-tuple", "+", "r:-", "*", "/", ">=", "&", "mask", "r:where", "fillna", "sum", "max", "layer"]
    rnd = random.Random(11)
    for t in range(150 if tier == "quick" else 1500):
        ops = [rnd.choice(tri) for _ in range(rnd.choice((4, 5, 6)))]
        na = t % 2 == 0
        f, rest = wshape(4, t, 1, 0, na), [wshape(rnd.choice((0, 1, 2, 3)), t * 7 + i, rnd.choice((1, 2)), rnd.choice((0, 1, 2)), na) for i in range(6)]
        rd = [rnd.choice(["sv", "sc", "max", "lim", "tf", "neg", None, None]) for _ in ops]
        yield Ob(f"C16/wide/chain/{t}/{'-'.join(ops)}", wide(C16.chain(f, None, ops, rest, rd), True))


def c17(tier):
    from . import C17
    from .C16 import op1
    for n in (9, 40):
        for k in C17.KINDS + C17.FLAVS:
            if n > 9 and k[1]:
                continue
            for na in (True, False):
                f, g = pair(n, 3, na)
                kid = k[0] + ("" if not k[1] else "." + k[1])
                t = f"{n}{'' if na else 'd'}"
                for nm in list(UNARY):
                    yield Ob(f"C17/wide/{nm}/{kid}/{t}", wide(C17.twin([f], lambda s, o, f, n=nm: op1(s, n, o[0], f[0])[0], ("val",), *k), True))
                for nm in BINARY + list(AGG):
                    yield Ob(f"C17/wide/{NAMES.get(nm, nm)}/{kid}/{t}", wide(C17.twin([f, g], lambda s, o, f, n=nm: op1(s, n, o[0], f[0], lambda: (o[1], f[1]))[0], ("val",), *k), True))
                for nm, call in C17.LAYERS.items():
                    yield Ob(f"C17/wide/layer-{nm}/{kid}/{t}", wide(C17.twin([f], call, ("val",), *k), True))
                for nm, (q, dims) in C17.QS.items():
                    yield Ob(f"C17/wide/{nm}/{kid}/{t}", wide(C17.twin([f], q, dims, *k, grid=True, skip=True), True))
                for nm, (q, dims) in C17.QS2.items():
                    yield Ob(f"C17/wide/{nm}/{kid}/{t}", wide(C17.twin([f, g], q, dims, *k, grid=True, skip=True), True))


def of(pid, tier):
    if pid in ("C01", "C04", "C05"):
        yield from binary(pid, {"C01": ARITH, "C04": REL, "C05": LOGIC}[pid], tier)
        yield from unary(pid, {"C01": ["neg"], "C04": [], "C05": ["invert", "make_boolean"]}[pid], tier)
    elif pid.lower() in globals():
        yield from globals()[pid.lower()](tier)

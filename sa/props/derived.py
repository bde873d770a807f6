"""statistics of results of operations, of functions layered after that, and of operands after their results were layered onto: every
query has been put to the operands before, so that nothing remembered on an operand may reach a result, or the reverse"""
from .ops import *
from .C14 import mutate
from .C16 import op1
from .wide import wide

NUMS = lambda *x: PyList([num(v) for v in x])
CUTS = lambda s: PyList([s.before(1), s.between(0), s.after(3)])
WIN = lambda s: (s.before(1), s.after(2))
G = {
    "C08": {n: (lambda s, o, n=n: s.m(o, n)) for n in ("integral", "mean", "var", "std", "value_sums")},
    "C09": {
        "ecdf": lambda s, o: s.call(s.attr(o, "ecdf"), NUMS(-1, 0, 1, 2, 5)), "percentile": lambda s, o: s.call(s.attr(o, "percentile"), NUMS(0, 20, 50, 100)),
        "fractile": lambda s, o: s.call(s.attr(o, "fractile"), PyList([num(0), num(Fraction(2, 5)), num(1)])), "median": lambda s, o: s.m(o, "median"), "mode": lambda s, o: s.m(o, "mode"),
        "quantiles": lambda s, o: s.m(o, "quantiles", 4), "hist": lambda s, o: s.m(o, "hist", bins=NUMS(-9, -1, 0, 1, 3, 9)), "hist-prob": lambda s, o: s.m(o, "hist", bins=NUMS(-2, 1, 2, 9), stat="probability"),
        "describe": lambda s, o: s.m(o, "describe"),
    },
    "C10": {
        "min": lambda s, o: s.m(o, "min"), "max": lambda s, o: s.m(o, "max"), "values_in_range": lambda s, o: s.m(o, "values_in_range"), "agg-min": lambda s, o: s.m(o, "agg", "min", WIN(s), "both"),
        "agg-max": lambda s, o: s.m(o, "agg", "max", WIN(s)), "values-window": lambda s, o: s.m(o, "values_in_range", (s.P(1), s.P(2)), "neither"),
    },
    "C11": {n: (lambda s, o, n=n: s.m(s.m(o, "slice", CUTS(s)), n)) for n in ("mean", "max", "min", "_max")},
    "C20": {"rolling_mean": lambda s, o: s.m(o, "rolling_mean", window=(s.delta(num(-1)), s.delta(num(1))))},
    "C03": {
        "step_values": lambda s, o: s.attr(o, "step_values"), "step_changes": lambda s, o: s.attr(o, "step_changes"), "step_points": lambda s, o: s.attr(o, "step_points"), "to_frame": lambda s, o: s.m(o, "to_frame"),
        "limit": lambda s, o: s.m(o, "limit", PyList([s.P(1), s.before(1), s.between(0)]), "left"), "sample": lambda s, o: s.m(o, "sample", PyList([s.P(1), s.before(1), s.between(0)])),
        "number_of_steps": lambda s, o: s.attr(o, "number_of_steps"), "bool": lambda s, o: s.truth(o),
    },
}
G["C11"].pop("_max")
EVERY = {k: v for d in G.values() for k, v in d.items() if k not in ("rolling_mean",)}
READS = ["integral", "mean", "var", "value_sums", "ecdf", "percentile", "fractile", "hist", "mode", "max", "values_in_range", "step_values", "step_changes", "limit", "agg-min"]
G["C14"] = {k: EVERY[k] for k in ("integral", "mean", "var", "value_sums", "ecdf", "percentile", "fractile", "mode", "hist", "max", "min")}
G["C16"] = EVERY


def ask(s, q, o):
    try:
        return "answer", EVERY[q](s, o) if q in EVERY else G["C20"][q](s, o)
    except PyRaise as e:
        return "raises", e


def compare(s, qs, o, f, what):
    d = s.build(s.simplify(f), "V")
    for q in qs:
        want = ask(s, q, d)
        if want[0] == "raises":
            continue
        got = ask(s, q, o)
        if got[0] == "raises":
            raise got[1]
        s.same_result(got[1], want[1], f"{q} {what}", rule="stale")


def derived(sh, other, ff, op, qs, then=None):
    def body(s):
        f, g = s.fn(*sh, "f"), s.fn(*other, "g")
        o, p = s.build(f, ff), s.build(g, ff)
        for q in READS:
            ask(s, q, o)
            ask(s, q, p)
        r, h = op1(s, op, o, f, lambda: (p, g))
        compare(s, qs, r, h, f"of the result of {op}")
        if then and "layer" in then:
            d = s.build(s.simplify(h), "V")
            for k in ("in",) if "vector" not in then else ("vector",):
                mutate(s, r, k)
                mutate(s, d, k)
                compare(s, qs, r, s.den(d, "reference"), f"of the result of {op}, layered onto ({k})")
            compare(s, qs, o, f, f"of the operand of {op} after layering onto the result")
        if then and "operand" in then:
            d = s.build(f, "V")
            mutate(s, o, "in")
            mutate(s, d, "in")
            compare(s, qs, o, s.den(d, "reference"), f"of the operand of {op}, layered onto")
            if "layer" not in then:
                compare(s, qs, r, h, f"of the result of {op} after layering onto the operand")
        if then and "again" in then:
            r2, h2 = op1(s, op, o, f, lambda: (p, g))
            compare(s, qs, r2, h2, f"of {op} applied once more")
    return body


SH = [(("1ab0", (0, 1, 2)), ("02a", (1, 3))), (("1Nb2", (0, 1, 2)), ("03", (1,)))]


def of(pid, tier):
    if pid not in G or not G[pid]:
        return
    ops = list(UNARY) + BINARY + list(AGG)
    for i, (a, b) in enumerate(SH):
        for ff in ("L", "V") if i == 0 else ("V",):
            for op in ops:
                thens = {"C14": (("layer", "operand") if tier != "quick" else ("operand-layer",)) if i else ("layer-vector",) if ff == "V" else ("operand",)}.get(pid, (None,))
                for then in thens:
                    for q in [list(G[pid])] if pid != "C16" else [["integral", "ecdf", "max", "mean", "median"]]:
                        yield Ob(f"{pid}/derived/{NAMES.get(op, op)}/{then}/{i}.{ff}", wide(derived(a, b, ff, op, q, then), True))
    if pid in ("C08", "C09", "C10", "C14"):
        for v in (("ts", "right"), ("td", "left"), ("tz", "right"), ("int", "left"))[:1 if tier == "quick" and pid in ("C14", "C09") else 4]:
            for op in ops:
                yield Ob(f"{pid}/derived/{NAMES.get(op, op)}/{vid(v)}", wide(derived(*SH[1], "V", op, list(G[pid]), "layer" if pid == "C14" else None), True), *v)

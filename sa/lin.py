"""Linear inequalities: the polyhedral part of the abstract state (projection by
Fourier-Motzkin elimination).  A constraint is (coeffs, const, strict) with coeffs a
tuple of (variable, integer) and means sum + const > 0 (or >= 0)."""
from fractions import Fraction
from math import gcd

CAP = 160


def mk(co, k, strict):
    """from {var: Fraction}, Fraction"""
    den = k.denominator
    for c in co.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = abs(int(k * den))
    t = []
    for v in sorted(co):
        c = co[v]
        if c:
            x = int(c * den)
            g = gcd(g, abs(x))
            t.append((v, x))
    g = g or 1
    return tuple((v, x // g) for v, x in t), int(k * den) // g, strict


def combine(p, cp, q, cq, var):
    """cq*p + cp*q with the (opposite) coefficients of var cancelled; cp, cq > 0"""
    co = {}
    for v, x in p[0]:
        if v != var:
            co[v] = x * cq
    for v, x in q[0]:
        if v != var:
            co[v] = co.get(v, 0) + x * cp
    k = p[1] * cq + q[1] * cp
    g = abs(k)
    t = []
    for v in sorted(co):
        if co[v]:
            g = gcd(g, abs(co[v]))
            t.append((v, co[v]))
    g = g or 1
    return tuple((v, x // g) for v, x in t), k // g, p[2] or q[2]


class Empty(Exception):
    pass


class TooBig(Exception):
    pass


def tidy(cons):
    """drop constants and dominated constraints"""
    best = {}
    for co, k, st in cons:
        if not co:
            if k < 0 or (st and k == 0):
                raise Empty()
            continue
        # compare up to positive scale
        g = 0
        for _, x in co:
            g = gcd(g, abs(x))
        key = tuple((v, x // g) for v, x in co)
        val = (Fraction(k, g), not st)
        if key not in best or val < best[key]:
            best[key] = val
    out = []
    for key, (k, nst) in best.items():
        d = k.denominator
        out.append((tuple((v, x * d) for v, x in key), k.numerator, not nst))
    return out


def eliminate(cons, keep=()):
    """project onto `keep`; -> (remaining constraints, [(var, lower, upper)] in elimination order)"""
    steps = []
    cons = tidy(cons)
    while True:
        cnt = {}
        for co, _, _ in cons:
            for v, x in co:
                e = cnt.setdefault(v, [0, 0])
                e[x < 0] += 1
        todo = [(a * b - a - b, v) for v, (a, b) in cnt.items() if v not in keep]
        if not todo:
            return cons, steps
        _, var = min(todo)
        lo, hi, rest = [], [], []
        for c in cons:
            x = dict(c[0]).get(var)
            (rest if not x else lo if x > 0 else hi).append((c, x) if x else c)
        if len(lo) * len(hi) + len(rest) > CAP:
            raise TooBig()
        steps.append((var, [c for c, _ in lo], [c for c, _ in hi]))
        for p, cp in lo:
            for q, cq in hi:
                rest.append(combine(p, cp, q, -cq, var))
        cons = tidy(rest)


def bounds(cons, t):
    """signs variable t can take -> frozenset"""
    cons, _ = eliminate(cons, (t,))
    out = set()
    for s in (-1, 0, 1):
        ok = True
        lo = hi = None     # (value, strict)
        for co, k, st in cons:
            x = co[0][1]
            b = Fraction(-k, x)
            if x > 0:
                if lo is None or (b, st) > lo:
                    lo = (b, st)
            else:
                if hi is None or (b, not st) < hi:
                    hi = (b, not st)
        if lo and hi and (lo[0] > hi[0] or lo[0] == hi[0] and (lo[1] or not hi[1])):
            raise Empty()
        if s < 0:
            ok = lo is None or lo[0] < 0
        elif s > 0:
            ok = hi is None or hi[0] > 0
        else:
            ok = (lo is None or lo[0] < 0 or lo[0] == 0 and not lo[1]) and (hi is None or hi[0] > 0 or hi[0] == 0 and hi[1])
        if ok:
            out.add(s)
    return frozenset(out)


def sample(steps, rnd):
    """a point of the polyhedron described by the elimination steps"""
    env = {}
    for var, lo, hi in reversed(steps):
        def val(c):
            x = dict(c[0])
            r = Fraction(c[1])
            for v, k in c[0]:
                if v != var:
                    r += k * env.setdefault(v, Fraction(rnd.randint(-4, 4)))
            return -r / x[var]
        l = max((val(c) for c in lo), default=None)
        h = min((val(c) for c in hi), default=None)
        if l is None and h is None:
            x = Fraction(rnd.randint(-6, 6), rnd.choice((1, 1, 2)))
        elif l is None:
            x = h - Fraction(rnd.randint(1, 6), rnd.choice((1, 1, 2)))
        elif h is None:
            x = l + Fraction(rnd.randint(1, 6), rnd.choice((1, 1, 2)))
        elif l == h:
            x = l
        else:
            w = h - l
            k = rnd.randint(1, 7)
            x = l + w * Fraction(k, 8) if w.denominator > 1 or w < 2 or rnd.random() < .3 else l + rnd.randint(1, int(w) - (w == int(w))) if w > 1 else l + w / 2
        env[var] = x
    return env

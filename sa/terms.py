"""Exact arithmetic on abstract scalars.

An abstract number is a rational function (quotient of two multivariate
polynomials with rational coefficients) over *atoms*.  An atom is a name for an
unknown finite real: a value of an operand, a gap between two consecutive
points, a parameter.  Atoms whose name starts with '+' are known positive.
Atoms ending in '@<hole>' are generic members of a summarised run of entries.
"""
from fractions import Fraction

ONE = Fraction(1)


class Poly:
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for mono, c in sorted(self.t.items(), key=lambda kv: (len(kv[0]), kv[0])):
            m = "*".join(a if e == 1 else f"{a}^{e}" for a, e in mono)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(m)
            elif c == -1:
                out.append("-" + m)
            else:
                out.append(f"{c}*{m}")
        return " + ".join(out).replace("+ -", "- ")


def pconst(c):
    c = Fraction(c)
    return Poly({(): c} if c else {})


def patom(a):
    return Poly({((a, 1),): ONE})


P0 = pconst(0)
P1 = pconst(1)


def padd(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    r = dict(p.t)
    for m, c in q.t.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return Poly(r)


def pneg(p):
    return Poly({m: -c for m, c in p.t.items()})


def psub(p, q):
    return padd(p, pneg(q))


def pscale(p, c):
    if not c:
        return P0
    return Poly({m: v * c for m, v in p.t.items()})


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if not p.t or not q.t:
        return P0
    if len(p.t) == 1 and () in p.t:
        return pscale(q, p.t[()])
    if len(q.t) == 1 and () in q.t:
        return pscale(p, q.t[()])
    r = {}
    for m, c in p.t.items():
        for n, d in q.t.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return Poly(r)


def pis_const(p):
    return not p.t or (len(p.t) == 1 and () in p.t)


def pconst_val(p):
    return p.t.get((), Fraction(0))


def patoms(p):
    s = set()
    for m in p.t:
        for a, _ in m:
            s.add(a)
    return s


def psubst(p, mp):
    """Substitute atoms by polynomials."""
    if not mp or not p.t:
        return p
    hit = False
    for m in p.t:
        for a, _ in m:
            if a in mp:
                hit = True
                break
        if hit:
            break
    if not hit:
        return p
    r = P0
    for m, c in p.t.items():
        term = pconst(c)
        keep = []
        for a, e in m:
            if a in mp:
                for _ in range(e):
                    term = pmul(term, mp[a])
            else:
                keep.append((a, e))
        if keep:
            term = pmul(term, Poly({tuple(keep): ONE}))
        r = padd(r, term)
    return r


def prename(p, f):
    r = {}
    for m, c in p.t.items():
        k = tuple(sorted((f(a), e) for a, e in m))
        # merging of equal atoms after renaming
        d = {}
        for a, e in k:
            d[a] = d.get(a, 0) + e
        k = tuple(sorted(d.items()))
        v = r.get(k, 0) + c
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return Poly(r)


def peval(p, env):
    tot = Fraction(0)
    for m, c in p.t.items():
        v = c
        for a, e in m:
            v *= env[a] ** e
        tot += v
    return tot


def mono_gcd(polys):
    """greatest common monomial of all terms of all polys"""
    g = None
    for p in polys:
        for m in p.t:
            d = dict(m)
            if g is None:
                g = d
            else:
                g = {a: min(e, d[a]) for a, e in g.items() if a in d}
            if not g:
                return ()
    return tuple(sorted(g.items())) if g else ()


def mdiv(m, g):
    d = dict(m)
    for a, e in g:
        d[a] -= e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items()))


def pdivexact(p, q):
    """p / q if q divides p exactly (multivariate long division, lex), else None."""
    if not q.t:
        return None
    if pis_const(q):
        return pscale(p, 1 / pconst_val(q))
    if len(p.t) > 60 or len(q.t) > 20:
        return None
    lead = max(q.t, key=_mkey)
    lc = q.t[lead]
    rem = p
    quo = {}
    n = 0
    while rem.t:
        n += 1
        if n > 80:
            return None
        m = max(rem.t, key=_mkey)
        d = dict(m)
        for a, e in lead:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if not d[a]:
                del d[a]
        k = tuple(sorted(d.items()))
        c = rem.t[m] / lc
        quo[k] = quo.get(k, 0) + c
        rem = psub(rem, pmul(Poly({k: c}), q))
    return Poly({k: c for k, c in quo.items() if c})


_ORD = {}


def _mkey(m):
    # a monomial order (lex on atom names): compare exponent vectors
    return _LexKey(m)


class _LexKey:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        return _lexcmp(self.m, o.m) < 0

    def __gt__(self, o):
        return _lexcmp(self.m, o.m) > 0

    def __eq__(self, o):
        return self.m == o.m


def _lexcmp(m, n):
    i = j = 0
    while i < len(m) and j < len(n):
        a, e = m[i]
        b, f = n[j]
        if a == b:
            if e != f:
                return 1 if e > f else -1
            i += 1
            j += 1
        elif a < b:
            return 1
        else:
            return -1
    if i < len(m):
        return 1
    if j < len(n):
        return -1
    return 0


class Num:
    """finite abstract real: n/d (d is never the zero polynomial)"""

    __slots__ = ("n", "d", "fl")

    def __init__(self, n, d=P1, fl="float"):
        self.n = n
        self.d = d
        self.fl = fl

    def __repr__(self):
        if pis_const(self.d) and pconst_val(self.d) == 1:
            return repr(self.n)
        return f"({self.n})/({self.d})"

    def is_const(self):
        return pis_const(self.n) and pis_const(self.d)

    def const(self):
        return pconst_val(self.n) / pconst_val(self.d)

    def atoms(self):
        return patoms(self.n) | patoms(self.d)

    __hash__ = None


def mknum(n, d=P1, fl="float"):
    if not n.t:
        return Num(P0, P1, fl)
    if pis_const(d):
        c = pconst_val(d)
        return Num(n if c == 1 else pscale(n, 1 / c), P1, fl)
    g = mono_gcd((n, d))
    if g:
        n = Poly({mdiv(m, g): c for m, c in n.t.items()})
        d = Poly({mdiv(m, g): c for m, c in d.t.items()})
        if pis_const(d):
            return mknum(n, d, fl)
    q = pdivexact(n, d)
    if q is not None:
        return Num(q, P1, fl)
    q = pdivexact(d, n)
    if q is not None and not pis_const(n):
        n, d = P1, q
    # normalise the leading coefficient of d
    lead = max(d.t, key=_mkey)
    c = d.t[lead]
    if c != 1:
        n, d = pscale(n, 1 / c), pscale(d, 1 / c)
    return Num(n, d, fl)


def atom(a, fl="float"):
    return Num(patom(a), P1, fl)


def num(c, fl="float"):
    return Num(pconst(c), P1, fl)


def nadd(a, b):
    if a.d.t == b.d.t:
        return mknum(padd(a.n, b.n), a.d)
    return mknum(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d))


def nneg(a):
    return Num(pneg(a.n), a.d, a.fl)


def nsub(a, b):
    return nadd(a, nneg(b))


def nmul(a, b):
    return mknum(pmul(a.n, b.n), pmul(a.d, b.d))


def ndiv(a, b):
    return mknum(pmul(a.n, b.d), pmul(a.d, b.n))


def nsubst(a, mp):
    n = psubst(a.n, mp)
    d = psubst(a.d, mp)
    if n is a.n and d is a.d:
        return a
    if not d.t:
        raise ZeroDivisionError
    return mknum(n, d, a.fl)


def nrename(a, f):
    return Num(prename(a.n, f), prename(a.d, f), a.fl)

"""The abstract state shared by one pass of the analysis: sign facts about
polynomials, linear equalities (as a substitution), trace partitioning.

A branch whose condition is not decided by the abstract state splits the state
(trace partitioning): `decide` hands out one partition member per pass and
`explore` enumerates all of them."""
import random
from fractions import Fraction

from . import lin as linear
from .terms import (
    Num, P0, Poly, atom, mono_gcd, mdiv, num, padd, patoms, pconst, pconst_val,
    pdivexact, peval, pis_const, pmul, pneg, pscale, psub, psubst, nsubst,
)


class Undecided(Exception):
    """The abstract state lost the information needed to go on (top)."""

    def __init__(self, reason):
        super().__init__(reason)
        self.reason = reason


class Infeasible(Exception):
    """This partition member is empty."""


class HoleDecision(Exception):
    """A decision was asked about a generic member of a summarised run."""


_FACTORS = {}
_RATIOS = [Fraction(x) for x in (1, -1, 2, -2, 3, -3)] + [Fraction(1, 2), Fraction(-1, 2), Fraction(1, 3), Fraction(-1, 3)]


def pair_factor(p, at):
    """(q, p / q) with q = a - c*b"""
    small = len(p.t) <= 12
    for i, a in enumerate(at):
        for b in at[i + 1:]:
            for c in _RATIOS if small else _RATIOS[:2]:
                if not psubst(p, {a: Poly({((b, 1),): c})}).t:
                    q = Poly({((a, 1),): Fraction(1), ((b, 1),): -c})
                    r = pdivexact(p, q)
                    if r is not None and not pis_const(r):
                        return q, r
    return None


class Ctx:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []
        self.facts = {}      # canonical poly key -> (poly, allowed signs)
        self.subst = {}      # atom -> Poly
        self.hole_bounds = {}  # hole atom -> (lo Num, hi Num)
        self.bools = {}      # named facts
        self.decided = []    # human readable partition
        self.steps = 0
        self.max_steps = 400000
        self.site = None     # provided by the interpreter
        self.lines = []
        self.telescope = {}
        self.nzero = 0       # nonlinear equalities recorded
        self._ech = None
        self._impl = {}

    # ---- partitioning
    def decide(self, desc, options):
        if len(options) == 1:
            return options[0]
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((len(options), c))
        self.decided.append((desc, options[c]))
        return options[c]

    def fact(self, name, options=(False, True)):
        if name not in self.bools:
            self.bools[name] = self.decide(name, list(options))
        return self.bools[name]

    # ---- normal forms
    def norm(self, x):
        if self.subst and isinstance(x, Num):
            try:
                return nsubst(x, self.subst)
            except ZeroDivisionError:
                raise Infeasible()
        return x

    def add_subst(self, a, p):
        p = psubst(p, self.subst)
        one = {a: p}
        self.subst = {k: psubst(v, one) for k, v in self.subst.items()}
        self.subst[a] = p
        # re-key sign facts
        old = self.facts
        self.facts = {}
        for key, (poly, allowed) in old.items():
            q = psubst(poly, one)
            if pis_const(q):
                c = pconst_val(q)
                s = (c > 0) - (c < 0)
                if s not in allowed:
                    raise Infeasible()
                continue
            k, flip, cp = self.canon(q)
            al = frozenset(-s for s in allowed) if flip else allowed
            if k in self.facts:
                al = al & self.facts[k][1]
                if not al:
                    raise Infeasible()
            self.facts[k] = (cp, al)
        for cp, al in list(self.facts.values()):
            if len(cp.t) == 1 and self.facts.get(cp.key(), (0, 0))[1] == al:
                sg = 1 if next(iter(cp.t.values())) > 0 else -1
                for b, e in next(iter(cp.t)):
                    x = self.atom_sign(b) if (b, e) != (b, 1) or len(next(iter(cp.t))) > 1 else None
                    if x is None:
                        sg = None
                        break
                    sg *= x ** e
                if sg is not None and sg not in al:
                    raise Infeasible()
        for cp, al in list(self.facts.values()):
            if al == frozenset((0,)) and cp.key() in self.facts:
                cp = psubst(cp, self.subst)
                if pis_const(cp):
                    if pconst_val(cp):
                        raise Infeasible()
                    continue
                if self.linear_in(cp):
                    self.solve_zero(cp)
        # positive atoms
        if a.startswith("+"):
            s = self.quick_sign(p)
            if s is not None and s <= 0:
                raise Infeasible()
            if s is None and not pis_const(p):
                self.restrict(p, frozenset((1,)))

    def canon(self, p):
        """canonical scale: no positive common factor, leading coefficient 1 -> (key, flipped, poly)"""
        g = mono_gcd((p,))
        if g:
            g = tuple(x for x in g if x[0].startswith("+"))
            if g and not (len(p.t) == 1 and len(next(iter(p.t))) == len(g)):
                p = Poly({mdiv(m, g): c for m, c in p.t.items()})
        lead = min(p.t)
        c = p.t[lead]
        q = pscale(p, 1 / c)
        return q.key(), c < 0, q

    def atom_sign(self, a):
        if a.startswith("+"):
            return 1
        q = Poly({((a, 1),): Fraction(1)})
        f = self.facts.get(q.key())
        if f and len(f[1]) == 1:
            return next(iter(f[1]))
        return None

    def quick_sign(self, p):
        """sign if the abstract state decides it, else None"""
        if not p.t:
            return 0
        if pis_const(p):
            c = pconst_val(p)
            return (c > 0) - (c < 0)
        sg = None
        ok = True
        for m, c in p.t.items():
            s = 1 if c > 0 else -1
            for a, e in m:
                if e % 2 == 0:
                    x = self.atom_sign(a)
                    if x is None:
                        ok = False
                        break
                    x = x * x
                else:
                    x = self.atom_sign(a)
                    if x is None:
                        ok = False
                        break
                s *= x
            if not ok:
                break
            if s == 0:
                continue
            if sg is None:
                sg = s
            elif sg != s:
                ok = False
                break
        if ok:
            return sg if sg is not None else 0
        k, flip, q = self.canon(p)
        f = self.facts.get(k)
        if f and len(f[1]) == 1:
            s = next(iter(f[1]))
            return -s if flip else s
        # bounds of generic members of a run
        for m in p.t:
            for a, e in m:
                if a in self.hole_bounds and e == 1:
                    lo, hi = self.hole_bounds[a]
                    pl = psubst(p, {a: lo.n})
                    ph = psubst(p, {a: hi.n})
                    sl, sh = self.quick_sign(psubst(pl, self.subst)), self.quick_sign(psubst(ph, self.subst))
                    if sl is not None and sh is not None:
                        if sl == sh or sh == 0:
                            return sl
                        if sl == 0:
                            return sh
                    return None
        return None

    def known_sign(self, p):
        """sign if some part of the state decides it (never splits)"""
        s = self.quick_sign(p)
        if s is not None:
            return s
        g = mono_gcd((p,))
        if g:
            sg = 1
            for a, e in g:
                x = self.atom_sign(a)
                if x is None:
                    return None
                sg *= x ** e
            r = self.known_sign(Poly({mdiv(m, g): c for m, c in p.t.items()}))
            return None if r is None else sg * r
        f = self.split_factor(p)
        if f is not None:
            x, y = self.known_sign(f[0]), self.known_sign(f[1])
            return x * y if x is not None and y is not None else None
        r = self.implied(p)
        return next(iter(r)) if r is not None and len(r) == 1 else None

    def squares(self, p):
        """signs of a quadratic form in the values whose coefficients (polynomials in positive atoms) are those of
        a weighted sum of squares and squared differences"""
        co = {}
        for m, c in p.t.items():
            if any(a.startswith("+S[") or "@" in a for a, _ in m):
                return None
            v = tuple(x for x in m if not x[0].startswith("+"))
            d = sum(e for _, e in v)
            if d > 2:
                return None
            k = v if d == 2 else (v + (("", 1),) if d == 1 else (("", 2),))
            co.setdefault(k, {})[tuple(x for x in m if x[0].startswith("+"))] = c
        co = {k: Poly(t) for k, t in co.items()}
        names = sorted({a for k in co for a, _ in k})
        if len(names) < 2 or len(names) > 5:
            return None
        rows = {a: co.get(((a, 2),), P0) for a in names}
        out = None
        strict = False
        for k, c in co.items():
            if len(k) == 2:
                (a, _), (b, _) = k
                h = pscale(c, Fraction(1, 2))
                rows[a] = padd(rows[a], h)
                rows[b] = padd(rows[b], h)
                s = self.known_sign(c)
                if s is None or s and out not in (None, -s):
                    return None
                if s:
                    out = -s
                    d = self.quick_sign(Poly({((x, 1),) if x else (): Fraction(y) for x, y in ((a, 1), (b, -1))}))
                    f = self.facts.get(self.canon(Poly({((x, 1),) if x else (): Fraction(y) for x, y in ((a, 1), (b, -1))}))[0])
                    strict = strict or bool(d) or bool(f and 0 not in f[1])
        for a, r in rows.items():
            if r.t:
                s = self.known_sign(r)
                if s is None or s and out not in (None, s):
                    return None
                if s:
                    out = s
                    strict = strict or not a or bool(self.atom_sign(a))
        if out is None:
            return frozenset((0,))
        return frozenset((out,)) if strict else frozenset((0, out))

    def possible(self, p):
        r = self.squares(p) if any(e == 2 for m in p.t for _, e in m) else None
        return r if r is not None else self.weak(p)

    def weak(self, p):
        """signs a sum of terms of one (weak) sign can take"""
        sg = None
        for m, c in p.t.items():
            s = 1 if c > 0 else -1
            for a, e in m:
                if e % 2:
                    x = self.atom_sign(a)
                    if x is None or x == 0:
                        return frozenset((-1, 0, 1))
                    s *= x
            if sg is None:
                sg = s
            elif sg != s:
                return frozenset((-1, 0, 1))
        return frozenset((0, sg)) if sg else frozenset((-1, 0, 1))

    def echelon(self):
        """the recorded nonlinear equalities as a linear system over monomials"""
        key = len(self.facts), len(self.subst), self.nzero
        if self._ech is None or self._ech[0] != key:
            rows = []
            for q, al in self.facts.values():
                if al == frozenset((0,)) and not pis_const(q):
                    q = self._elim(q, rows)
                    if q.t:
                        lead = min(q.t)
                        rows.append((lead, pscale(q, 1 / q.t[lead])))
            self._ech = (key, rows)
        return self._ech[1]

    def _elim(self, p, rows):
        for lead, r in rows:
            c = p.t.get(lead)
            if c:
                p = psub(p, pscale(r, c))
        return p

    def reduce(self, p):
        """p modulo the linear span of the nonlinear equalities"""
        if not self.nzero or len(p.t) > 40:
            return p
        return self._elim(p, self.echelon())

    def implied(self, q):
        """signs of q left open by the recorded inequalities (monomials as variables); None: all"""
        if len(q.t) > 8:
            return None
        if () in q.t and len(q.t) == 1:
            return None
        key = (q.key(), self.nfacts())
        r = self._impl.get(key)
        if r is None:
            r = self._implied(q)
            self._impl[key] = r
        return r if len(r) < 3 else None

    def nfacts(self):
        return len(self.facts), len(self.subst), sum(len(al) for _, al in self.facts.values())

    def lin(self, p, strict, extra=None):
        co = {m: c for m, c in p.t.items() if m}
        return linear.mk(co, p.t.get((), Fraction(0)), strict)

    def _implied(self, q):
        every = frozenset((-1, 0, 1))
        vs = {m for m in q.t if m}
        pool = []
        for f, al in self.facts.values():
            if len(f.t) > 8 or len(al) > 2 or al == frozenset((-1, 1)):
                continue
            pool.append((f, al, {m for m in f.t if m}))
        grew = True
        used = []
        while grew and pool:
            grew = False
            rest = []
            for f in pool:
                if f[2] & vs:
                    vs |= f[2]
                    used.append(f)
                    grew = True
                else:
                    rest.append(f)
            pool = rest
        cons = []
        for f, al, _ in used:
            if 1 in al:
                cons.append(self.lin(f, 0 not in al))
            if -1 in al:
                cons.append(self.lin(pneg(f), 0 not in al))
            if al == frozenset((0,)):
                cons += [self.lin(f, False), self.lin(pneg(f), False)]
        for m in vs:
            sg, strict = 1, True
            for a, e in m:
                if e % 2:
                    x = self.atom_sign(a)
                    if x is None:
                        x = self.weak_sign(a)
                        strict = False
                        if x is None:
                            sg = None
                            break
                    sg *= x
                elif self.atom_sign(a) in (None, 0):
                    strict = False
            if sg:
                cons.append((((m, sg),), 0, strict))
        # replace one variable of q by t = q
        lead = next(m for m in q.t if m)
        c = q.t[lead]
        T = (("~t", 1),)
        out = []
        for co, k, st in cons:
            d = dict(co)
            x = d.pop(lead, None)
            if x is None:
                out.append((co, k, st))
                continue
            d = {v: Fraction(y) for v, y in d.items()}
            k = Fraction(k)
            d[T] = Fraction(x) / c
            for m, y in q.t.items():
                if m == lead:
                    continue
                if m:
                    d[m] = d.get(m, Fraction(0)) - Fraction(x) * y / c
                else:
                    k -= Fraction(x) * y / c
            out.append(linear.mk(d, k, st))
        try:
            return linear.bounds(out, T)
        except linear.TooBig:
            return every
        except linear.Empty:
            raise Infeasible()

    def weak_sign(self, a):
        f = self.facts.get(Poly({((a, 1),): Fraction(1)}).key())
        if f and len(f[1]) == 2 and 0 in f[1]:
            return next(x for x in f[1] if x)
        return None

    def restrict(self, p, allowed):
        """record that sign(p) is in allowed"""
        k, flip, q = self.canon(p)
        al = frozenset(-s for s in allowed) if flip else frozenset(allowed)
        if k in self.facts:
            al = al & self.facts[k][1]
        if not al:
            raise Infeasible()
        self.facts[k] = (q, al)
        if al == frozenset((0,)):
            self.solve_zero(q)

    def linear_in(self, q):
        best = None
        for m, c in q.t.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if sum(1 for mm in q.t for (b, _) in mm if b == a) == 1:
                    if best is None or (best.startswith("+"), best) > (a.startswith("+"), a):
                        best = a
        return best

    def solve_zero(self, q):
        # use the equality as a rewrite when it is linear in some atom
        del_key = q.key()
        best = self.linear_in(q)
        if best is None:
            self.nzero += 1
            rows = self.echelon()
            for q2, al in list(self.facts.values()):
                if 0 not in al and not self._elim(q2, rows).t:
                    raise Infeasible()
        if best is not None:
            self.facts.pop(del_key, None)
            c = q.t[((best, 1),)]
            rest = Poly({m: v for m, v in q.t.items() if m != ((best, 1),)})
            self.add_subst(best, pscale(rest, -1 / c))

    def _generic(self, p):
        for m in p.t:
            for a, _ in m:
                if "@" in a and not a.endswith(".last") and not a.startswith("+S["):
                    return True
        return False

    def sign_poly(self, p, opts=(-1, 0, 1)):
        p = psubst(p, self.subst)
        s = self.quick_sign(p)
        if s is not None:
            return s
        # factor out the common monomial
        g = mono_gcd((p,))
        if g and not (len(p.t) == 1 and sum(e for _, e in g) == 1):
            sg = 1
            for a, e in g:
                x = self.sign_poly(Poly({((a, 1),): Fraction(1)}))
                if x == 0:
                    return 0
                if e % 2:
                    sg *= x
            r = Poly({mdiv(m, g): c for m, c in p.t.items()})
            return sg * self.sign_poly(r)
        f = self.split_factor(p)
        if f is not None:
            x = self.sign_poly(f[0])
            return x * self.sign_poly(f[1]) if x else 0
        r = self.reduce(p)
        if r is not p:
            s = self.quick_sign(r)
            if s is not None:
                return s
            if len(r.t) < len(p.t):
                p = r
        if self._generic(p):
            raise HoleDecision(repr(p))
        k, flip, q = self.canon(p)
        cur = self.facts.get(k, (q, frozenset((-1, 0, 1))))[1] & self.possible(q)
        s = self.implied(q) if len(cur) > 1 else None
        if s is not None:
            cur = cur & s
        if not cur:
            raise Infeasible()
        choice = self.decide(f"sign({q!r})", sorted(cur))
        self.restrict(q, frozenset((choice,)))
        return -choice if flip else choice

    def zero_poly(self, p):
        """is p == 0 (two-way split)"""
        p = psubst(p, self.subst)
        s = self.quick_sign(p)
        if s is not None:
            return s == 0
        g = mono_gcd((p,))
        if g and not (len(p.t) == 1 and sum(e for _, e in g) == 1):
            for a, e in g:
                if self.zero_poly(Poly({((a, 1),): Fraction(1)})):
                    return True
            return self.zero_poly(Poly({mdiv(m, g): c for m, c in p.t.items()}))
        f = self.split_factor(p)
        if f is not None:
            return self.zero_poly(f[0]) or self.zero_poly(f[1])
        r = self.reduce(p)
        if r is not p:
            s = self.quick_sign(r)
            if s is not None:
                return s == 0
            if len(r.t) < len(p.t):
                p = r
        if self._generic(p):
            raise HoleDecision(repr(p))
        k, flip, q = self.canon(p)
        cur = self.facts.get(k, (q, frozenset((-1, 0, 1))))[1]
        if 0 in cur:
            cur = cur & self.possible(q)
            if not cur:
                raise Infeasible()
        if 0 not in cur:
            return False
        s = self.implied(q)
        if s is not None:
            cur = cur & s
            if 0 not in cur:
                return False
            if cur == frozenset((0,)):
                self.restrict(q, cur)
                return True
        z = self.decide(f"{q!r} == 0", [False, True])
        self.restrict(q, frozenset((0,)) if z else cur - frozenset((0,)))
        return z

    def sign(self, x):
        return self.sign_poly(x.n) * (1 if pis_const(x.d) and pconst_val(x.d) > 0 else self.sign_poly(x.d))

    def is_zero(self, x):
        return self.zero_poly(x.n)

    def split_factor(self, p):
        """(q, p / q) for a proper factor q of p among recorded facts and sums / differences of two atoms"""
        if len(p.t) < 2 or len(p.t) > 60:
            return None
        deg = max(sum(e for _, e in m) for m in p.t)
        if deg < 2:
            return None
        at = patoms(p)
        for q, al in list(self.facts.values()):
            if len(q.t) < 2 or len(q.t) > len(p.t) + 2 or not patoms(q) <= at:
                continue
            r = pdivexact(p, q)
            if r is not None and not pis_const(r):
                return q, r
        k = p.key()
        if k not in _FACTORS:
            if len(_FACTORS) > 50000:
                _FACTORS.clear()
            _FACTORS[k] = pair_factor(p, sorted(at)) if len(at) <= 8 else None
        return _FACTORS[k]

    def polyhedron(self, free):
        """the linear facts, projected step by step (None: no use)"""
        cons = []
        for a in free:
            if a.startswith("+"):
                cons.append((((((a, 1),), 1),), 0, True))
        for a, p in self.subst.items():
            if a.startswith("+"):
                p = psubst(p, self.subst)
                if all(not m or len(m) == 1 and m[0][1] == 1 for m in p.t) and not pis_const(p):
                    cons.append(self.lin(p, True))
        for f, al in self.facts.values():
            f = psubst(f, self.subst)
            if pis_const(f) or len(al) == 3 or al == frozenset((-1, 1)) or any(m and (len(m) != 1 or m[0][1] != 1) for m in f.t):
                continue
            if al == frozenset((0,)):
                cons += [self.lin(f, False), self.lin(pneg(f), False)]
            elif 1 in al:
                cons.append(self.lin(f, 0 not in al))
            else:
                cons.append(self.lin(pneg(f), 0 not in al))
        try:
            return linear.eliminate(cons)[1]
        except (linear.Empty, linear.TooBig):
            return None

    # ---- a concrete member of the partition (to discard empty ones)
    def witness(self, extra_atoms=(), tries=6000, seed=1, pred=None):
        rnd = random.Random(seed)
        atoms = set(extra_atoms)
        for q, _ in self.facts.values():
            atoms |= patoms(q)
        for p in self.subst.values():
            atoms |= patoms(p)
        free = sorted(a for a in atoms if a not in self.subst)
        # nonlinear equalities: solve each for an atom it is linear in
        eqs = [psubst(q, self.subst) for q, al in self.facts.values() if al == frozenset((0,))]
        eqs = [q for q in eqs if not pis_const(q)]
        steps = self.polyhedron(free)
        for n in range(tries):
            span = 3 if n < tries // 3 else 8
            env = {}
            if steps is not None and (n % 4 or n < 40):
                env = {m[0][0]: v for m, v in linear.sample(steps, rnd).items()}
            for a in free:
                if a in env:
                    continue
                if a.startswith("+"):
                    env[a] = Fraction(rnd.randint(1, span))
                else:
                    v = rnd.randint(-span, span)
                    env[a] = Fraction(v, rnd.choice((1, 1, 2)))
            if eqs:
                solved = set()
                for q in rnd.sample(eqs, len(eqs)):
                    lin = sorted({a for m in q.t for a, e in m if a in env} - {a for m in q.t for a, e in m if e > 1} - solved)
                    rnd.shuffle(lin)
                    if not lin:
                        continue
                    a = lin[0]
                    try:
                        c = peval(Poly({tuple(x for x in m if x[0] != a): v for m, v in q.t.items() if any(b == a for b, _ in m)}), env)
                        r = peval(Poly({m: v for m, v in q.t.items() if not any(b == a for b, _ in m)}), env)
                    except KeyError:
                        continue
                    if c:
                        env[a] = -r / c
                        solved |= {b for m in q.t for b, _ in m}
                if any(a.startswith("+") and v <= 0 for a, v in env.items()):
                    continue
            ok = True
            for q, al in self.facts.values():
                try:
                    v = peval(psubst(q, self.subst), env)
                except KeyError:
                    for m in psubst(q, self.subst).t:
                        for a, _ in m:
                            env.setdefault(a, Fraction(rnd.randint(1, span)))
                    v = peval(psubst(q, self.subst), env)
                if ((v > 0) - (v < 0)) not in al:
                    ok = False
                    break
            if not ok:
                continue
            for a, p in self.subst.items():
                pp = psubst(p, self.subst)
                for m in pp.t:
                    for b, _ in m:
                        env.setdefault(b, Fraction(1))
                env[a] = peval(pp, env)
                if a.startswith("+") and env[a] <= 0:
                    ok = False
            if ok and (pred is None or pred(env)):
                return env
        return None


CTX = None


def cur():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


class Budget(Exception):
    pass


def explore(fn, max_paths=4000):
    """Yield (ctx, outcome) for every member of the partition reached by fn."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        c = Ctx(prefix)
        set_ctx(c)
        n += 1
        try:
            out = ("ok", fn(c))
        except Infeasible:
            out = ("infeasible", None)
        except Undecided as u:
            out = ("undecided", u.reason)
        except HoleDecision as h:
            out = ("undecided", "decision on a summarised run: " + str(h))
        for i in range(len(prefix), len(c.trace)):
            k, chosen = c.trace[i]
            base = [x for _, x in c.trace[:i]]
            for alt in range(chosen + 1, k):
                stack.append(base + [alt])
        yield c, out
        if n >= max_paths and stack:
            yield c, ("budget", f"{len(stack)} partition members left")
            return

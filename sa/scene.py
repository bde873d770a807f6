"""Scenes: symbolic operands, observation of results through the public interface, and the
denotational specification the results are compared with."""
from fractions import Fraction

from . import ctx as C
from . import interp, models
from .ctx import Undecided, HoleDecision, Infeasible
from .terms import Num, atom, nadd, nmul, nsub, num, patoms, peval
from .values import *
from .values import Exc
from .vec import *
from .pdm import lcmp


class Refuted(Exception):
    def __init__(self, rule, msg, **info):
        super().__init__(msg)
        self.rule, self.msg, self.info = rule, msg, info


class Skip(Exception):
    """the scenario does not apply on this path"""


class Fn:
    """a step function: value towards -infinity and (label, value from there on) entries"""

    def __init__(self, init, pts=()):
        self.init = init
        self.pts = list(pts)

    def __repr__(self):
        return f"{self.init!r}" + "".join(f" |{l!r}: {v!r}" for l, v in self.pts)

    @property
    def labels(self):
        return [l for l, _ in self.pts]

    @property
    def values(self):
        return [v for _, v in self.pts]

    def has_run(self):
        return any(isinstance(l, H) for l, _ in self.pts)


def nan_(v):
    return is_nan(hval(v)) or hval(v) is None


def dkey(i):
    """keys of a dict of members, not in sorted order"""
    return "abcdefgh"[::-1][i] if i < 8 else f"k{(i * 7) % 101:03d}"


# constants of a pattern besides the digits
FIXED = {"a": -1, "b": -2, "c": -5, "h": num(Fraction(1, 2)), "t": num(Fraction(-7, 4))}


class Scene:
    def __init__(self, U, cx, kind="num", closed="left"):
        self.U, self.cx, self.kind, self.closed = U, cx, kind, closed
        self.st = U.modules["staircase"]
        self.log = []
        self.labs = {}
        self.grid = False
        self.wide = False       # evenly spaced labels (from a symbolic origin) instead of symbolic gaps
        self.nlab = 0
        self.check_operands = False
        self.operand_problem = None

    # ------------------------------------------------------------ labels and values
    def mklab(self, x):
        if self.kind == "num":
            return Num(to_num(x).n, to_num(x).d, "py")
        if self.kind == "int":
            return Num(to_num(x).n, to_num(x).d, "pyi")
        if self.kind == "td":
            return Lab("td", to_num(x))
        return Lab("ts", to_num(x), "Asia/Tokyo" if self.kind == "tz" else None)

    GRID = {"p": 3, "+g1": 2, "+g2": 4, "+g3": 2, "+gb": 1, "+ga": 5, "+d": 3, "y": 2, "b": 0, "+w": 3}

    def A(self, name):
        """a coordinate symbol, or its value on a fixed grid"""
        if self.grid and name in self.GRID:
            return num(self.GRID[name])
        return atom(name)

    def P(self, i):
        """i-th label of a strictly increasing symbolic sequence (i >= 0, or halves between)"""
        if self.wide:
            return self.at_wide(2 * i)
        if (self.kind, i) not in self.labs:
            x = self.A("p")
            for k in range(1, i + 1):
                x = nadd(x, self.A(f"+g{k}"))
            self.labs[self.kind, i] = self.mklab(x)
        return self.labs[self.kind, i]

    def at_wide(self, k):
        if (self.kind, "w", k) not in self.labs:
            self.labs[self.kind, "w", k] = self.mklab(nadd(self.A("p"), num(k)))
        return self.labs[self.kind, "w", k]

    def between(self, i):
        """a label strictly between P(i) and P(i+1)"""
        if self.wide:
            return self.at_wide(2 * i + 1)
        x = nadd(self.A("p"), num(0))
        for k in range(1, i + 1):
            x = nadd(x, self.A(f"+g{k}"))
        return self.mklab(nadd(x, nmul(self.A(f"+g{i + 1}"), num(Fraction(1, 2)))))

    def before(self, k=1):
        if self.wide:
            return self.at_wide(-k)
        return self.mklab(nsub(self.A("p"), nmul(num(k), self.A("+gb"))))

    def after(self, i):
        """strictly after P(i)"""
        if self.wide:
            return self.at_wide(2 * i + 1)
        x = self.A("p")
        for k in range(1, i + 1):
            x = nadd(x, self.A(f"+g{k}"))
        return self.mklab(nadd(x, self.A("+ga")))

    def delta(self, x):
        """a displacement of the domain"""
        if self.kind in ("num", "int"):
            return Num(to_num(x).n, to_num(x).d, "pyi" if self.kind == "int" else "py")
        return Lab("td", to_num(x))

    def V(self, name, fl="py"):
        return atom(name, fl)

    def distinct(self, a, b):
        """assume a != b (adjacent pieces of a minimal function differ)"""
        if is_nan(a) and is_nan(b):
            raise Infeasible()
        if is_nan(a) or is_nan(b):
            return
        d = nsub(self.cx.norm(to_num(a)), self.cx.norm(to_num(b)))
        from .terms import pis_const
        if pis_const(d.n):
            if not d.n.t:
                raise Infeasible()
            return
        self.cx.restrict(d.n, frozenset((-1, 1)))

    def assume(self, x, signs):
        """assume sign(x) in signs"""
        x = self.cx.norm(to_num(x))
        s = self.cx.quick_sign(x.n)
        if s is not None:
            if s not in signs:
                raise Infeasible()
            return
        self.cx.restrict(x.n, frozenset(signs))

    def fn(self, pattern, pts, pre, values=None, minimal=True):
        """symbolic function: pattern of 'S' (symbol) / 'N' (undefined) / constants, at the given labels"""
        vals = []
        for i, ch in enumerate(pattern):
            if ch == "N":
                vals.append(NAN)
            elif ch == "S":
                vals.append(self.V(f"{pre}{i}"))
            else:
                vals.append(ch if not isinstance(ch, str) else FIXED[ch] if ch in FIXED else int(ch))
        if minimal:
            for a, b in zip(vals, vals[1:]):
                self.distinct(a, b)
        return Fn(vals[0], list(zip([self.P(p) if isinstance(p, int) else p for p in pts], vals[1:])))

    # ------------------------------------------------------------ calls into the analysed code
    def call(self, f, *a, **k):
        return self.check_unknown(self.U.call(f, list(a), k))

    def check_unknown(self, r):
        if isinstance(r, Unknown):
            raise Undecided(r.reason)
        return r

    def m(self, o, name, *a, **k):
        """o.name(*a, **k)"""
        return self.call(self.U.getattr(o, name), *a, **k)

    def attr(self, o, name):
        return self.check_unknown(self.U.getattr(o, name))

    def top(self, name, *a, **k):
        """staircase.name(*a, **k)"""
        return self.call(self.st.d[name], *a, **k)

    def op(self, sym, a, b):
        if sym in SWAP:
            return self.check_unknown(self.U.compare(sym, a, b))
        return self.check_unknown(self.U.binop(sym, a, b))

    def un(self, op, a):
        return self.check_unknown(self.U.unop({"-": "USub", "~": "Invert", "+": "UAdd"}[op], a))

    def ext(self, mod, name, *a, **k):
        """an external constructor, e.g. ext("pandas", "Series", ...)"""
        f = self.U.getattr(ExtMod(mod), name.split(".")[0])
        for part in name.split(".")[1:]:
            f = self.U.getattr(f, part)
        return self.check_unknown(self.U.call(f, list(a), k))

    def vector(self, kind, vals):
        """the values in one of the containers a caller may pass"""
        if kind == "list":
            return PyList(list(vals))
        if kind == "tuple":
            return tuple(vals)
        if kind == "ndarray":
            return self.ext("numpy", "array", PyList(list(vals)))
        if kind == "series":
            return self.ext("pandas", "Series", PyList(list(vals)))
        if kind == "series-idx":
            n = len(vals)
            return self.ext("pandas", "Series", PyList(list(vals)), index=PyList([num(10 - 3 * i, fl="pyi") for i in range(n)]))
        if kind == "index":
            return self.ext("pandas", "Index", PyList(list(vals)))
        if kind == "object":
            return self.ext("numpy", "array", PyList(list(vals)), dtype=self.U.builtins["object"] if hasattr(self.U, "builtins") else "object")
        raise AssertionError(kind)

    def periods(self, ab):
        """a PeriodIndex whose i-th period is [a, b)"""
        return Idx([Per(a, b, "left") for a, b in ab], "period")

    def stairs_cls(self):
        return self.st.d["Stairs"]

    def is_stairs(self, o):
        return isinstance(o, Inst) and self.stairs_cls() in o.cls.mro

    def xtile(self, o):
        """a distribution function (its step points are values, not points of the domain)"""
        return isinstance(o, Inst) and o.cls.name != "Stairs"

    def arr(self, objs):
        """StairsArray of the objects"""
        return self.call(self.st.d["StairsArray"], PyList(list(objs)))

    def coll(self, kind, objs):
        """the step functions in one of the containers a collection may be"""
        if kind == "list":
            return PyList(list(objs))
        if kind == "tuple":
            return tuple(objs)
        if kind == "dict":
            d = PyDict()
            for i, o in enumerate(objs):
                k = dkey(i)
                d.d[self.U.hkey(k)] = (k, o)
            return d
        if kind == "ndarray":
            return self.ext("numpy", "array", PyList(list(objs)))
        if kind == "array":
            return self.arr(objs)
        if kind == "series":
            return self.ext("pandas", "Series", PyList(list(objs)), index=PyList([num(7 - 3 * i, fl="pyi") for i in range(len(objs))]), dtype="Stairs")
        if kind == "series-object":
            return self.ext("pandas", "Series", PyList(list(objs)), index=PyList([num(7 - 3 * i, fl="pyi") for i in range(len(objs))]))
        raise AssertionError(kind)

    # ------------------------------------------------------------ building operands
    def index(self, labels):
        vals = list(labels)
        return models.mk_index(self.U, PyList(vals))

    def series(self, labels, vals):
        return models.mk_series(self.U, PyList([v for v in vals]), self.index(labels))

    def build(self, fn, form="V", closed=None):
        closed = closed or self.closed
        st = self.stairs_cls()
        if not fn.pts:
            o = self.call(st, initial_value=fn.init, closed=closed)
        elif form[0] == "V":
            o = self.call(self.U.getattr(st, "from_values"), initial_value=fn.init, values=self.series(fn.labels, fn.values), closed=closed)
        elif form[0] == "L":
            ds = self.deltas(fn)
            o = self.call(st, start=PyList(list(fn.labels)), value=PyList(ds), initial_value=fn.init, closed=closed)
        elif form[0] == "S":
            o = self.call(st, initial_value=fn.init, closed=closed)
            for l, d in zip(fn.labels, self.deltas(fn)):
                o = self.m(o, "layer", l, None, d)
        elif form[0] == "M":
            # value form of (fn minus 1 on [l0, inf)), then the missing part layered on
            l0 = fn.labels[0]
            vals = [v if nan_(v) else num_arith("-", v, 1) for v in fn.values]
            o = self.call(self.U.getattr(st, "from_values"), initial_value=fn.init, values=self.series(fn.labels, vals), closed=closed)
            o = self.m(o, "layer", l0)
        else:
            raise AssertionError(form)
        if form.endswith("B") and fn.pts:
            self.attr(o, "step_changes" if form[0] == "V" else "step_values")
        if not self.is_stairs(o):
            raise Undecided("operand construction did not give a Stairs")
        o.tag = o.tag or form
        if self.check_operands:
            try:
                self.same(o, fn, "operand", minimal=False)
                if self.attr(o, "closed") != closed:
                    raise Refuted("operand", "closed side of the operand")
            except Refuted as r:
                self.operand_problem = r
                raise Skip(f"operand not built as intended ({r.msg})")
        return o

    def deltas(self, fn):
        vs = [fn.init] + fn.values
        if any(nan_(v) for v in vs):
            raise AssertionError("layered operand with undefined pieces")
        return [num_arith("-", b, a) for a, b in zip(vs, vs[1:])]

    # ------------------------------------------------------------ observation
    def den(self, o, what="result"):
        """the function an object denotes, read off its piece table"""
        if not self.is_stairs(o):
            raise Refuted("type", f"{what} is not a step function: {o!r}")
        df = self.m(o, "to_frame")
        if not isinstance(df, DF):
            raise Undecided("to_frame did not return a frame")
        cols = {k: v for k, v in ((models.cn_out(k), df.cols[k]) for k in df.cols)}
        if not {"start", "end", "value"} <= set(cols):
            raise Refuted("views", f"{what}: piece table has columns {list(cols)}")
        starts = [c.v for c in cols["start"][0]]
        ends = [c.v for c in cols["end"][0]]
        vals = [c.v for c in cols["value"][0]]
        return self.table(starts, ends, vals, what)

    def is_inf_lab(self, v, name):
        return isinstance(v, Inst) and v.cls.name == name or is_inf(v) and (v > 0) == (name == "Inf")

    def table(self, starts, ends, vals, what):
        n = len(starts)
        if n == 0 or not self.is_inf_lab(starts[0], "NegInf") or not self.is_inf_lab(ends[-1], "Inf"):
            raise Refuted("views", f"{what}: pieces do not cover the line: {starts!r} {ends!r}")
        for i in range(n - 1):
            if isinstance(ends[i], Inst) or isinstance(starts[i + 1], Inst):
                raise Refuted("views", f"{what}: infinite bound inside the piece table")
            if isnull(starts[i + 1]) or isnull(ends[i]):
                raise Refuted("views", f"{what}: missing label in the piece table")
            if lcmp(self.U, ends[i], starts[i + 1]) != 0:
                raise Refuted("views", f"{what}: piece {i} ends at {ends[i]!r} but the next starts at {starts[i + 1]!r}")
        for i in range(1, n - 1):
            if lcmp(self.U, starts[i], starts[i + 1]) >= 0:
                raise Refuted("views", f"{what}: step points not strictly increasing: {starts[i]!r}, {starts[i + 1]!r}")
        for v in vals:
            self.goodval(v, what)
        return Fn(vals[0], [(starts[i], vals[i]) for i in range(1, n)])

    def truth(self, v):
        """a boolean answer"""
        v = self.check_unknown(v)
        r = self.U.truth(v)
        if isinstance(r, Unknown):
            raise Undecided(r.reason)
        return bool(r)

    def elements(self, r, what):
        """entries of a vector result"""
        self.check_unknown(r)
        if not isinstance(r, (Ser, Arr, Idx, PyList, tuple)):
            raise Refuted("shape", f"{what} does not give a vector: {r!r}")
        out = [self.check_unknown(x) for x in self.U.iterate(r)]
        return out

    def goodval(self, v, what):
        v = hval(v)
        if isinstance(v, Unknown):
            raise Undecided(v.reason)
        if isinstance(v, TopH):
            raise Undecided("value on a run not tracked")
        if v is None or isinstance(v, Lab) or not is_number(v):
            raise Refuted("value-type", f"{what} takes the non-numeric value {v!r}")
        if is_inf(v):
            raise Refuted("infinite", f"{what} takes an infinite value")

    # ------------------------------------------------------------ specification helpers
    def merge(self, *fns):
        """common refinement: list of (label, [values...]) with the initial values first"""
        heads = [f.init for f in fns]
        rows = [(None, list(heads))]
        pos = [0] * len(fns)
        cur = list(heads)
        while True:
            best = None
            for i, f in enumerate(fns):
                if pos[i] < len(f.pts):
                    l = f.pts[pos[i]][0]
                    if best is None or lcmp(self.U, l, best) < 0:
                        best = l
            if best is None:
                return rows
            for i, f in enumerate(fns):
                if pos[i] < len(f.pts):
                    l = f.pts[pos[i]][0]
                    if l is best or lcmp(self.U, l, best) == 0:
                        cur[i] = f.pts[pos[i]][1]
                        pos[i] += 1
                    elif isinstance(cur[i], H):
                        cur[i] = rename_last(cur[i].val, cur[i].hid)
                elif isinstance(cur[i], H) and not (isinstance(best, H) and best.hid == cur[i].hid):
                    cur[i] = rename_last(cur[i].val, cur[i].hid)
            rows.append((best, list(cur)))

    def lift(self, op, *fns):
        rows = self.merge(*fns)
        return self.mk(op, rows)

    def mk(self, op, rows):
        out = []
        for l, vs in rows:
            if l is not None and isinstance(l, H):
                vs = [v if isinstance(v, H) else v for v in vs]
                r = hmap(op, *vs) if any(isinstance(v, H) for v in vs) else op(*vs)
                if isinstance(hval(r), TopH):
                    raise Undecided("specification on a run")
                out.append((l, r if isinstance(r, H) else H(l.hid, r)))
            else:
                out.append((l, op(*vs)))
        return Fn(out[0][1], out[1:])

    def pointwise(self, op):
        """lift a strict binary operation on numbers to the common domain"""
        def f(*vs):
            if any(nan_(v) for v in vs):
                return NAN
            return op(*vs)
        return f

    def simplify(self, fn):
        """drop entries that are no change (decides equalities)"""
        out = []
        prev = fn.init
        for l, v in fn.pts:
            if isinstance(l, H):
                out.append((l, v))
                prev = rename_last(hval(v), l.hid)
                continue
            if same_num(hval(prev), v):
                continue
            out.append((l, v))
            prev = v
        return Fn(fn.init, out)

    # ------------------------------------------------------------ comparison
    def eqval(self, a, b):
        """decided equality of function values (NaN = undefined)"""
        a, b = hval(a), hval(b)
        if a is None or b is None:
            return a is b
        return same_num(a, b)

    def same(self, o, want, what="result", minimal=True, rule=None, changes=True):
        """o denotes want; and (minimal) has no redundant step"""
        got = o if isinstance(o, Fn) else self.den(o, what)
        for l, (g, w) in self.merge(got, want):
            if not self.eqval(g, w):
                where = "towards -infinity" if l is None else f"from {l!r} on"
                raise Refuted(rule or "denotation", f"{what} is {self.show(g)} {where}, specified {self.show(w)}", got=repr(got), want=repr(want))
        if minimal:
            self.minimal(got, what)
        if changes and not isinstance(o, Fn):
            self.coherent(o, got, what)
        return got

    def coherent(self, o, got, what="result"):
        """the increments of an everywhere defined function reproduce it"""
        if not got.pts or got.has_run() or any(nan_(v) for v in [got.init] + got.values):
            return
        sc = self.attr(o, "step_changes")
        if not isinstance(sc, Ser) or len(sc.cells) != len(got.pts):
            raise Refuted("views", f"{what}: step_changes has other entries than the piece table", got=repr(got))
        prev = got.init
        for (l, v), d in zip(got.pts, self.elements(sc, "step_changes")):
            want = num_arith("-", v, prev)
            if not is_number(d) or not self.eqval(d, want):
                raise Refuted("views", f"{what} changes by {self.show(want)} at {l!r} but step_changes reports {self.show(d)}", got=repr(got))
            prev = v

    def minimal(self, got, what="result", rule=None):
        prev = got.init
        for l, v in got.pts:
            if isinstance(l, H):
                prev = rename_last(hval(v), l.hid)
                continue
            if self.eqval(hval(prev), v):
                raise Refuted(rule or "minimal", f"{what} has the redundant step point {l!r} (value {self.show(v)} on both sides)", got=repr(got))
            prev = v

    def show(self, v):
        v = hval(v)
        if is_nan(v):
            return "undefined"
        return repr(self.cx.norm(v) if isinstance(v, Num) else v)

    def val_eq(self, got, want, what, rule="value"):
        """scalar answers (numbers, labels, NaN)"""
        if isinstance(got, Unknown):
            raise Undecided(got.reason)
        if isinstance(got, (TopH,)):
            raise Undecided("value on a run")
        if isnull(want):
            if not isnull(got):
                raise Refuted(rule, f"{what} is {got!r}, specified missing")
            return
        if isnull(got):
            raise Refuted(rule, f"{what} is missing ({got!r}), specified {want!r}")
        if isinstance(want, Lab) or isinstance(got, Lab):
            if not (isinstance(want, Lab) and isinstance(got, Lab)) or want.kind != got.kind:
                raise Refuted(rule, f"{what} is {got!r}, specified {want!r}")
            if (want.tz is None) != (got.tz is None) and want.kind == "ts" and got.flav == "pd":
                raise Refuted(rule, f"{what} lost or gained a time zone: {got!r}, specified {want!r}")
            if lcmp(self.U, Lab(got.kind, got.x), Lab(want.kind, want.x)) != 0:
                raise Refuted(rule, f"{what} is {got!r}, specified {want!r}")
            return
        if not is_number(got):
            raise Refuted(rule, f"{what} is {got!r}, specified {want!r}")
        if is_number(want):
            if not same_num(got, want):
                raise Refuted(rule, f"{what} is {self.show(got)}, specified {self.show(want)}")
            return
        raise AssertionError(want)

    def same_result(self, got, want, what, rule="value"):
        """two answers of the library are the same answer"""
        for x in (got, want):
            self.check_unknown(x)
        if self.is_stairs(want):
            if not self.is_stairs(got):
                raise Refuted(rule, f"{what} is {got!r}, expected a step function")
            self.same(got, self.den(want, what), what, minimal=False, rule=rule, changes=False)
            a, b = self.attr(got, "closed"), self.attr(want, "closed")
            if a != b:
                raise Refuted(rule, f"{what} is {a}-closed, expected {b}-closed")
            return
        if isinstance(want, DF):
            if not isinstance(got, DF):
                raise Refuted(rule, f"{what} is {got!r}, expected a table")
            gc, wc = list(got.cols), list(want.cols)
            if len(gc) != len(wc):
                raise Refuted(rule, f"{what} has columns {gc}, expected {wc}")
            for a, b in zip(gc, wc):
                self.same_vec([c.v for c in got.cols[a][0]], [c.v for c in want.cols[b][0]], f"{what}, column {b}", rule)
            self.same_vec(self.elements(self.attr(got, "index"), what), self.elements(self.attr(want, "index"), what), f"index of {what}", rule)
            return
        if isinstance(want, Ser):
            if not isinstance(got, Ser):
                raise Refuted(rule, f"{what} is {got!r}, expected a series")
            self.same_vec(self.elements(self.attr(got, "index"), what), self.elements(self.attr(want, "index"), what), f"index of {what}", rule)
            self.same_vec(self.elements(got, what), self.elements(want, what), what, rule)
            return
        if isinstance(want, (Arr, Idx, PyList, tuple)):
            if not isinstance(got, (Arr, Idx, PyList, tuple)):
                raise Refuted(rule, f"{what} is {got!r}, expected a vector")
            self.same_vec(self.elements(got, what), self.elements(want, what), what, rule)
            return
        if isinstance(want, Arr2):
            if not isinstance(got, Arr2):
                raise Refuted(rule, f"{what} is {got!r}, expected a matrix")
            a, b = self.elements(got, what), self.elements(want, what)
            if len(a) != len(b):
                raise Refuted(rule, f"{what} has {len(a)} rows, expected {len(b)}")
            for x, y in zip(a, b):
                self.same_result(x, y, what, rule)
            return
        if isinstance(want, bool) or isinstance(want, str):
            if got != want:
                raise Refuted(rule, f"{what} is {got!r}, expected {want!r}")
            return
        if isinstance(want, Inst) or isinstance(got, Inst):     # infinite bounds
            if not (isinstance(want, Inst) and isinstance(got, Inst) and want.cls is got.cls):
                raise Refuted(rule, f"{what} is {got!r}, expected {want!r}")
            return
        if isinstance(want, Iv):
            if not isinstance(got, Iv) or got.closed != want.closed:
                raise Refuted(rule, f"{what} is {got!r}, expected {want!r}")
            self.val_eq(got.left, want.left, what, rule)
            self.val_eq(got.right, want.right, what, rule)
            return
        self.val_eq(hval(got), hval(want), what, rule)

    def same_vec(self, a, b, what, rule):
        if len(a) != len(b):
            raise Refuted(rule, f"{what} has {len(a)} entries, expected {len(b)}")
        for x, y in zip(a, b):
            self.same_result(x, y, what, rule)

    def lab_same(self, a, b, what, rule="label"):
        if isinstance(a, Lab) and isinstance(b, Lab) and "np" in (a.flav, b.flav):
            a, b = Lab(a.kind, a.x), Lab(b.kind, b.x)       # numpy instants carry no zone
        if isnull(a) or isnull(b) or isinstance(a, Inst) or isinstance(b, Inst) or lcmp(self.U, a, b) != 0:
            raise Refuted(rule, f"{what} is {a!r}, specified {b!r}")

    # ------------------------------------------------------------ a point of the domain
    def at(self, fn, x, side):
        """one-sided limit of fn at x"""
        v = fn.init
        for l, w in fn.pts:
            c = lcmp(self.U, l, x)
            if c < 0 or (c == 0 and side == "right"):
                v = w
            else:
                break
        return v

    def restrict(self, fn, a, b):
        """fn on [a, b), undefined elsewhere; None for an absent bound"""
        pts = []
        init = fn.init if a is None else NAN
        if a is not None:
            pts.append((a, self.at(fn, a, "right")))
        for l, v in fn.pts:
            if a is not None and lcmp(self.U, l, a) <= 0:
                continue
            if b is not None and lcmp(self.U, l, b) >= 0:
                continue
            pts.append((l, v))
        if b is not None:
            pts.append((b, NAN))
        return Fn(init, pts)

    def lx(self, l):
        """label coordinate"""
        return l.x if isinstance(l, Lab) else to_num(l)

    def length(self, d):
        """domain length as the library would express it"""
        d = to_num(d)
        return Lab("td", d) if self.kind not in ("num", "int") else Num(d.n, d.d, "np")

    def finite_pieces(self, fn):
        """(value, length) of the defined finite pieces"""
        out = []
        for (l, v), (r, _) in zip(fn.pts, fn.pts[1:]):
            if not nan_(v):
                out.append((v, nsub(self.lx(r), self.lx(l))))
        return out

    def shifted(self, fn, d):
        x = self.lx(d)

        def mv(l):
            if isinstance(l, Lab):
                return Lab(l.kind, nadd(l.x, x), l.tz, l.flav)
            return Num(nadd(to_num(l), x).n, nadd(to_num(l), x).d, l.fl if isinstance(l, Num) else "py")
        return Fn(fn.init, [(mv(l), v) for l, v in fn.pts])


def num_op(sym):
    return lambda a, b: num_arith(sym, a, b, True)


def rel(sym):
    return lambda a, b: 1 if num_cmp(sym, a, b) else 0


def truthy(v):
    return not zero(v)

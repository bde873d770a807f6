"""A flow-sensitive, interprocedural abstract interpreter for the Python of /repo/staircase.

It walks the syntax trees of the current working tree; repository code is never
imported or executed."""
import ast
import builtins
import os

from . import ctx as C
from .ctx import Undecided, HoleDecision
from .extattrs import ATTRS
from .values import *
from .values import _fl
from .vec import Arr, cells

REPO = os.environ.get("SA_REPO", "/repo")


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Frame:
    __slots__ = ("vars", "parent", "mod", "func", "globals_", "nonlocals", "self_", "line", "yields")

    def __init__(self, parent, mod, func=None):
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.func = func
        self.globals_ = None
        self.nonlocals = None
        self.self_ = None
        self.line = 0
        self.yields = None


class ClassFrame(Frame):
    pass


_AST_CACHE = {}


def parse(path):
    if path not in _AST_CACHE:
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        _AST_CACHE[path] = ast.parse(src, path)
    return _AST_CACHE[path]


BINOPS = {
    ast.Add: ("+", "__add__", "__radd__"), ast.Sub: ("-", "__sub__", "__rsub__"),
    ast.Mult: ("*", "__mul__", "__rmul__"), ast.Div: ("/", "__truediv__", "__rtruediv__"),
    ast.FloorDiv: ("//", "__floordiv__", "__rfloordiv__"), ast.Mod: ("%", "__mod__", "__rmod__"),
    ast.Pow: ("**", "__pow__", "__rpow__"), ast.BitAnd: ("&", "__and__", "__rand__"),
    ast.BitOr: ("|", "__or__", "__ror__"), ast.BitXor: ("^", "__xor__", "__rxor__"),
    ast.MatMult: ("@", "__matmul__", "__rmatmul__"),
    ast.LShift: ("<<", "__lshift__", "__rlshift__"), ast.RShift: (">>", "__rshift__", "__rrshift__"),
}
OPNAMES = {sym: (d, r) for sym, d, r in BINOPS.values()}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
CMPD = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}

NOTIMPL = ExtFunc("NotImplemented", None)
ELLIPSIS = ExtFunc("Ellipsis", None)


def _bound(st):
    for n in ast.walk(st):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            yield n.name
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            yield n.id
        elif isinstance(n, ast.alias):
            yield (n.asname or n.name).split(".")[0]


ORDERINGS = ("<", "<=", ">", ">=")
OBJECT_ORDER = ("__lt__", "__le__", "__gt__", "__ge__")      # object's own decline every comparison


class Universe:
    """All modules of the package, loaded abstractly."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.dirty = False
        self.loading = True
        self.stubs = {}
        self.covered = {}      # (file, qualname) -> set(lines)
        self.calls = 0
        self.depth = 0
        self.frames = []
        self.warnings = []
        self.accessors = {}
        self.ext_dtypes = {}

    # ------------------------------------------------------------ modules
    def find(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        parts = name.split(".")
        if len(parts) > 1:
            parent = self.load(".".join(parts[:-1]))
            if name in self.modules:
                return self.modules[name]
        else:
            parent = None
        if parts[-1] == "docstrings" or (len(parts) > 1 and "docstrings" in parts):
            m = DOC
            self.modules[name] = m
            if isinstance(parent, Module):
                parent.d[parts[-1]] = m
            return m
        if name.startswith("staircase.plotting.matplotlib"):
            m = Unknown("plotting backend")
            self.modules[name] = m
            return m
        path, ispkg = self.find(name)
        if path is None:
            raise_("ModuleNotFoundError", name)
        m = Module(name)
        m.d["__name__"] = name
        m.d["__file__"] = path
        m.d["__package__"] = name if ispkg else ".".join(parts[:-1])
        self.modules[name] = m
        tree = parse(path)
        fr = Frame(None, m)
        fr.vars = m.d
        self.frames.append(fr)
        try:
            for st in tree.body:
                try:
                    self.exec(st, fr)
                except (Undecided, HoleDecision, PyRaise) as e:
                    # the package imports (its tests ran), so this is a gap of the analysis: what the statement binds is unknown
                    for n in _bound(st):
                        if n not in m.d:
                            m.d[n] = Unknown(f"{name}:{st.lineno} not modelled at import: {getattr(e, 'exc', None) or e}")
        finally:
            self.frames.pop()
        if isinstance(parent, Module):
            parent.d[parts[-1]] = m
        return m

    def start(self):
        self.loading = True
        self.load("staircase")
        self.loading = False
        self.dirty = False
        return self

    def epoch(self):
        return 0 if self.loading else 1

    def touch(self, obj):
        """a write to an object that outlives one analysed call sequence"""
        if not self.loading and getattr(obj, "epoch", 1) == 0:
            self.dirty = True

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        fr.line = st.lineno
        cx = C.cur()
        if cx is not None:
            cx.steps += 1
            if cx.steps > cx.max_steps:
                raise Undecided("step budget")
        if fr.func is not None:
            try:
                self.covered[fr.func.qual].add(fr.line)
            except KeyError:
                self.covered[fr.func.qual] = {fr.line}
        m = _ST.get(type(st))
        if m is None:
            raise Undecided(f"statement {type(st).__name__} not modelled")
        m(self, st, fr)

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        sym, d, r = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            self.assign(t, self.aug(sym, cur, self.ev(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(sym, cur, self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.aug(sym, cur, self.ev(st.value, fr)))
        else:
            raise Undecided("augmented assignment target")

    def aug(self, sym, cur, v):
        if isinstance(cur, PyList) and sym == "+":
            cur.v.extend(self.iterate(v))
            self.touch(cur)
            return cur
        if isinstance(cur, PySet) and sym in "|&-":
            return self.binop(sym, cur, v)
        r = models.inplace(self, sym, cur, v)
        if r is not None:
            return r
        return self.binop(sym, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Unknown):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, v, fr)
                return
            items = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if len(items) < n:
                    raise_("ValueError", "not enough values to unpack")
                tail = n - i
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, PyList(list(items[i:len(items) - tail]), self.epoch()), fr)
                if tail:
                    for e, x in zip(t.elts[i + 1:], items[-tail:]):
                        self.assign(e, x, fr)
            else:
                if len(items) != len(t.elts):
                    raise_("ValueError", "wrong number of values to unpack")
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_slice(t.slice, fr), v)
        else:
            raise Undecided("assignment target")

    def store(self, name, v, fr):
        if fr.globals_ and name in fr.globals_:
            fr.mod.d[name] = v
            if not self.loading:
                self.dirty = True
            return
        if fr.nonlocals and name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.vars and not isinstance(p, ClassFrame):
                    p.vars[name] = v
                    if not self.loading:
                        self.dirty = True
                    return
                p = p.parent
        if fr.vars is fr.mod.d and not self.loading:
            self.dirty = True
        fr.vars[name] = v

    def st_Return(self, st, fr):
        raise ReturnEx(self.ev(st.value, fr) if st.value is not None else None)

    def st_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def st_While(self, st, fr):
        n = 0
        while self.truth(self.ev(st.test, fr)):
            n += 1
            if n > 300:
                raise Undecided("loop bound")
            try:
                self.exec_block(st.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(st.orelse, fr)

    def st_For(self, st, fr):
        it = self.ev(st.iter, fr)
        if isinstance(it, Unknown):
            raise Undecided(f"loop over {it.reason}")
        for x in self.iterate_live(it):
            if isinstance(x, H):
                raise Undecided("loop over a summarised run")
            self.assign(st.target, x, fr)
            try:
                self.exec_block(st.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(st.orelse, fr)

    def st_Break(self, st, fr):
        raise BreakEx()

    def st_Continue(self, st, fr):
        raise ContinueEx()

    def st_Assert(self, st, fr):
        v = self.ev(st.test, fr)
        if isinstance(v, Unknown):
            return
        if not self.truth(v):
            raise_("AssertionError", *([self.ev(st.msg, fr)] if st.msg else []))

    def st_Raise(self, st, fr):
        if st.exc is None:
            cur = getattr(self, "current_exc", None)
            if cur is None:
                raise_("RuntimeError", "no active exception")
            raise PyRaise(cur)
        v = self.ev(st.exc, fr)
        if isinstance(v, (UClass, ExtClass)):
            v = self.call(v, [], {})
        if isinstance(v, Unknown):
            raise Undecided("raise of " + v.reason)
        raise PyRaise(v)

    def st_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.exc, self.ev(h.type, fr)):
                        if h.name:
                            fr.vars[h.name] = e.exc
                        old = getattr(self, "current_exc", None)
                        self.current_exc = e.exc
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.current_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, fr)

    def exc_match(self, exc, typ):
        if isinstance(typ, tuple):
            return any(self.exc_match(exc, t) for t in typ)
        return self.isinstance_(exc, typ)

    def st_With(self, st, fr):
        self.with_(list(st.items), lambda: self.exec_block(st.body, fr), fr)

    def with_(self, items, body, fr):
        if not items:
            return body()
        it, rest = items[0], items[1:]
        inner = lambda: self.with_(rest, body, fr)
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, models.GenCM):
            return self.with_gen(cm, it.optional_vars, inner, fr)
        if isinstance(cm, models.NullCM):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, cm.value, fr)
            try:
                return inner()
            except PyRaise as e:
                if cm.suppress and self.exc_match(e.exc, tuple(cm.suppress)) is True:
                    return
                raise
        if not isinstance(cm, Inst):
            raise Undecided(f"context manager {cm!r}")
        v = self.call(self.getattr(cm, "__enter__"), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        ex = self.getattr(cm, "__exit__")
        try:
            inner()
        except PyRaise as e:
            if self.truth(self.call(ex, [ExtFunc("exctype", None), e.exc, None], {})):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.call(ex, [None, None, None], {})
            raise
        self.call(ex, [None, None, None], {})

    def with_gen(self, cm, target, inner, fr):
        """contextlib.contextmanager: the body runs at the yield of the decorated generator"""
        leave = []
        ran = []

        def at_yield(v):
            if ran:
                raise Undecided("context manager yields twice")
            ran.append(1)
            if target is not None:
                self.assign(target, v, fr)
            d, self.depth = self.depth, self.depth
            try:
                inner()
            except (ReturnEx, BreakEx, ContinueEx) as e:
                leave.append(e)
            finally:
                self.depth = d
            return None
        self.call_user(cm.f, cm.args, cm.kw, at_yield)
        if not ran:
            raise_("RuntimeError", "generator didn't yield")
        if leave:
            raise leave[0]

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.vars:
                    del fr.vars[t.id]
                else:
                    raise_("NameError", t.id)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Inst):
                    if t.attr not in o.d:
                        raise_("AttributeError", t.attr)
                    self.touch(o)
                    del o.d[t.attr]
                else:
                    raise Undecided("del attribute")
            else:
                raise Undecided("del target")

    def st_Global(self, st, fr):
        fr.globals_ = (fr.globals_ or set()) | set(st.names)

    def st_Nonlocal(self, st, fr):
        fr.nonlocals = (fr.nonlocals or set()) | set(st.names)

    def st_Import(self, st, fr):
        for a in st.names:
            if a.name.split(".")[0] == "staircase":
                m = self.load(a.name)
                if a.asname:
                    self.store(a.asname, m, fr)
                else:
                    self.store("staircase", self.load("staircase"), fr)
            else:
                m = models.ext_module(a.name)
                if a.asname:
                    self.store(a.asname, m, fr)
                else:
                    self.store(a.name.split(".")[0], models.ext_module(a.name.split(".")[0]), fr)

    def st_ImportFrom(self, st, fr):
        modname = st.module or ""
        if st.level:
            pkg = fr.mod.d["__package__"].split(".")
            pkg = pkg[: len(pkg) - (st.level - 1)]
            modname = ".".join(pkg + ([st.module] if st.module else []))
        if modname == "__future__":
            return
        for a in st.names:
            tgt = a.asname or a.name
            if modname.split(".")[0] == "staircase":
                m = self.load(modname)
                if m is DOC:
                    self.store(tgt, DOC, fr)
                    continue
                if isinstance(m, Unknown):
                    self.store(tgt, m, fr)
                    continue
                if a.name == "*":
                    for k, v in list(m.d.items()):
                        if not k.startswith("_"):
                            self.store(k, v, fr)
                    continue
                if a.name in m.d:
                    v = m.d[a.name]
                else:
                    p, _ = self.find(modname + "." + a.name)
                    if p is None:
                        raise_("ImportError", f"cannot import name {a.name} from {modname}")
                    v = self.load(modname + "." + a.name)
                self.store(tgt, v, fr)
            else:
                self.store(tgt, models.ext_attr_path(modname, a.name), fr)

    def st_FunctionDef(self, st, fr):
        f = self.make_func(st, fr, st.name)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.ev(d, fr)
            v = self.call(dv, [v], {})
        self.store(st.name, v, fr)

    def st_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        cf = ClassFrame(fr, fr.mod, fr.func)
        cls_name = st.name
        self.exec_block(st.body, cf)
        cls = UClass(cls_name, [b for b in bases if isinstance(b, (UClass, ExtClass))], cf.vars, fr.mod)
        for b in bases:
            if isinstance(b, Unknown):
                cls.mro.append(ExtClass("unknown-base"))
        cls.d["__name__"] = cls_name
        for k, v in list(cls.d.items()):
            for w in self._unwrap(v):
                if isinstance(w, UFunc) and w.defcls is None:
                    w.defcls = cls
            if isinstance(v, Inst) and v.cls.lookup("__set_name__"):
                self.call(self.getattr(v, "__set_name__"), [cls, k], {})
            if isinstance(v, CachedProp):
                v.name = k
        v = cls
        cls.ann = [(n.target.id, ast.dump(n.annotation)) for n in st.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
        names = [getattr(b, "name", "") for b in bases]
        if "typing.NamedTuple" in names or "NamedTuple" in names:
            cls.nt_fields = [(n, n in cls.d, cls.d.pop(n, None)) for n, _ in cls.ann]
        elif any(n.startswith("enum.") or n == "enum" for n in names) or any(isinstance(b, UClass) and b.members is not None for b in bases):
            models.make_enum(self, cls, names)
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.store(st.name, v, fr)

    def _unwrap(self, v):
        if isinstance(v, Prop):
            return [v.fget, v.fset]
        if isinstance(v, (StaticM, ClassM, CachedProp)):
            return [v.f]
        return [v]

    def st_Match(self, st, fr):
        subj = self.ev(st.subject, fr)
        for case in st.cases:
            binds = {}
            if self.match_pat(case.pattern, subj, binds, fr):
                for k, v in binds.items():
                    self.store(k, v, fr)
                if case.guard is None or self.truth(self.ev(case.guard, fr)):
                    self.exec_block(case.body, fr)
                    return

    def match_pat(self, p, v, b, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("==", v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, b, fr):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, b, fr) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, PyList)):
                return False
            items = self.iterate(v)
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Undecided("match star")
            return len(items) == len(p.patterns) and all(self.match_pat(q, x, b, fr) for q, x in zip(p.patterns, items))
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance_(v, self.ev(p.cls, fr))
        raise Undecided("match pattern")

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        t = type(e)
        if t is ast.Constant:
            v = e.value
            return ELLIPSIS if v is Ellipsis else v
        m = _EX.get(t)
        if m is None:
            raise Undecided(f"expression {type(e).__name__} not modelled")
        return m(self, e, fr)

    def ex_Constant(self, e, fr):
        return ELLIPSIS if e.value is Ellipsis else e.value

    def ex_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def lookup(self, name, fr):
        if name in fr.vars and not fr.globals_:
            return fr.vars[name]
        if fr.globals_ and name in fr.globals_:
            if name in fr.mod.d:
                return fr.mod.d[name]
        else:
            f = fr
            first = True
            while f is not None:
                if name in f.vars and (first or not isinstance(f, ClassFrame)):
                    return f.vars[name]
                first = False
                f = f.parent
            if name in fr.mod.d:
                return fr.mod.d[name]
        b = models.BUILTINS.get(name)
        if b is not None or name in models.BUILTINS:
            return b
        if hasattr(builtins, name):
            return Unknown(f"builtin {name}")
        raise_("NameError", name)

    def ex_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ex_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev_slice(e.slice, fr))

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return PySlice(*(self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def ex_Slice(self, e, fr):
        return self.ev_slice(e, fr)

    def ex_Tuple(self, e, fr):
        return tuple(self.ev_elts(e.elts, fr))

    def ex_List(self, e, fr):
        return PyList(self.ev_elts(e.elts, fr), self.epoch())

    def ex_Set(self, e, fr):
        s = PySet({}, self.epoch())
        for x in self.ev_elts(e.elts, fr):
            s.v.setdefault(self.hkey(x, s.v), x)
        return s

    def ev_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_Dict(self, e, fr):
        d = PyDict({}, self.epoch())
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                if not isinstance(o, PyDict):
                    raise Undecided("dict unpacking")
                d.d.update(o.d)
            else:
                kk = self.ev(k, fr)
                d.d[self.hkey(kk, d.d)] = (kk, self.ev(v, fr))
        return d

    def ex_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def ex_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
        return v

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        return self.unop(type(e.op).__name__, v)

    def unop(self, op, v):
        if op == "Not":
            return not self.truth(v)
        if isinstance(v, (Unknown, TopH)):
            return v
        if isinstance(v, Inst):
            name = {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[op]
            f = v.cls.lookup(name)
            if f is not None:
                return self.call(Bound(f, v), [], {})
            if not self.lacks(v.cls, name):
                return Unknown(f"{name} of {v.cls.name}")
            raise_("TypeError", f"bad operand for {name}")
        r = models.vec_unop(self, op, v)
        if r is not None:
            return r
        return self.unop_scalar(op, v)

    def unop_scalar(self, op, v):
        if isinstance(v, (Unknown, TopH)):
            return v
        if isinstance(v, H):
            return H(v.hid, self.unop_scalar(op, v.val))
        if isinstance(v, Inst):
            return self.unop(op, v)
        if op == "USub":
            if isinstance(v, Num):
                return simp(nneg(un0d(v)))
            if isinstance(v, Lab):
                if v.kind == "td":
                    return Lab("td", nneg(v.x), None, v.flav)
                raise_("TypeError", "bad operand type for unary -")
            if isinstance(v, (int, float)):
                return -v
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, bool):
                # numpy bools invert logically; python bools arithmetically
                return not v
            if isinstance(v, int):
                return ~v
        raise_("TypeError", f"bad operand for unary {op}: {v!r}")

    def ex_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(BINOPS[type(e.op)][0], a, b)

    def binop(self, sym, a, b):
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        d, r = OPNAMES[sym]
        if isinstance(a, Inst) or isinstance(b, Inst):
            return self.inst_binop(sym, d, r, a, b)
        v = models.vec_binop(self, sym, a, b)
        if v is not None:
            return v
        return self.scalar_binop(sym, a, b)

    def inst_binop(self, sym, d, r, a, b):
        if isinstance(a, Inst):
            f = a.cls.lookup(d)
            if f is not None:
                # subclass priority for the reflected method
                if isinstance(b, Inst) and b.cls is not a.cls and a.cls in b.cls.mro:
                    g = b.cls.lookup(r)
                    if g is not None and g is not a.cls.lookup(r):
                        x = self.call(Bound(g, b), [a], {})
                        if x is not NOTIMPL:
                            return x
                x = self.call(Bound(f, a), [b], {})
                if x is not NOTIMPL:
                    return x
                if self.np_scalar(b) and self.ext_array(a):
                    return self.np_elementwise(lambda y: self.binop(sym, y, b), a)
            elif not self.lacks(a.cls, d):
                return Unknown(f"{d} of {a.cls.name}")
        elif models.is_vec(a):
            return models.vec_binop_objects(self, sym, a, b)
        if isinstance(b, Inst):
            f = b.cls.lookup(r)
            if f is not None:
                if is0d(a) and not self.np_defers(a, b):
                    return Unknown(f"0-d array {sym} {b.cls.name}")
                x = self.call(Bound(f, b), [a], {})
                if x is not NOTIMPL:
                    return x
                if self.np_scalar(a) and self.ext_array(b):
                    return self.np_elementwise(lambda y: self.binop(sym, a, y), b)
            elif not self.lacks(b.cls, r) or self.np_scalar(a):
                return Unknown(f"{r} of {b.cls.name}")
        elif models.is_vec(b):
            return models.vec_binop_objects(self, sym, a, b)
        raise_("TypeError", f"unsupported operand type(s) for {sym}: {self.tname(a)} and {self.tname(b)}")

    def tname(self, v):
        if isinstance(v, Inst):
            return v.cls.name
        return type(v).__name__

    def scalar_binop(self, sym, a, b, npsem=False):
        if isinstance(a, Unknown) or isinstance(a, TopH):
            return a
        if isinstance(b, (Unknown, TopH)):
            return b
        if isinstance(a, Doc) or isinstance(b, Doc):
            return DOC
        if isinstance(a, Inst) or isinstance(b, Inst):
            return self.binop(sym, a, b)
        if sym in "&|^" and len(sym) == 1:
            if isinstance(a, bool) and isinstance(b, bool):
                return {"&": a and b, "|": a or b, "^": a != b}[sym]
            if isinstance(a, PySet) and isinstance(b, PySet):
                if sym == "&":
                    return PySet({k: v for k, v in a.v.items() if self.in_set(v, b.v)}, self.epoch())
                if sym == "|":
                    return PySet(self.set_update(dict(a.v), b.v), self.epoch())
                return PySet({k: v for k, v in self.set_update(dict(a.v), b.v).items() if self.in_set(v, a.v) != self.in_set(v, b.v)}, self.epoch())
            if isinstance(a, PyDict) and isinstance(b, PyDict) and sym == "|":
                return PyDict({**a.d, **b.d}, self.epoch())
            if isinstance(a, int) and isinstance(b, int):
                return {"&": a & b, "|": a | b, "^": a ^ b}[sym]
            if isinstance(a, (UClass, ExtClass)) or isinstance(b, (UClass, ExtClass)):
                return ExtClass("union-type")
            raise_("TypeError", f"unsupported operand for {sym}: {a!r}, {b!r}")
        if is_number(a) and is_number(b):
            return num_arith(sym, a, b, npsem)
        if isinstance(a, Lab) or isinstance(b, Lab):
            return lab_arith(sym, a, b)
        if isinstance(a, str) and isinstance(b, str) and sym == "+":
            return a + b
        if isinstance(a, str) and sym == "%":
            return Unknown("formatted string")
        if isinstance(a, str) and isinstance(b, int) and sym == "*":
            return a * b
        if isinstance(a, PyList) and isinstance(b, PyList) and sym == "+":
            return PyList(a.v + b.v, self.epoch())
        if isinstance(a, tuple) and isinstance(b, tuple) and sym == "+":
            return a + b
        if sym == "*" and isinstance(b, (PyList, tuple)) and isinstance(a, int):
            a, b = b, a
        if sym == "*" and isinstance(a, (PyList, tuple)) and isinstance(b, int):
            return PyList(a.v * b, self.epoch()) if isinstance(a, PyList) else a * b
        if isinstance(a, PySet) and isinstance(b, PySet) and sym == "-":
            return PySet({k: v for k, v in a.v.items() if not self.in_set(v, b.v)}, self.epoch())
        raise_("TypeError", f"unsupported operand type(s) for {sym}: {self.tname(a)} and {self.tname(b)}")

    def ex_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for op, rhs in zip(e.ops, e.comparators):
            right = self.ev(rhs, fr)
            t = type(op)
            if t in CMPOPS:
                res = self.compare(CMPOPS[t], left, right)
            elif t is ast.Is:
                res = self.is_(left, right)
            elif t is ast.IsNot:
                r = self.is_(left, right)
                res = r if isinstance(r, Unknown) else not r
            elif t is ast.In:
                res = self.contains(right, left)
            else:
                r = self.contains(right, left)
                res = r if isinstance(r, Unknown) else not r
            if len(e.ops) > 1 and op is not e.ops[-1]:
                if not self.truth(res):
                    return res
            left = right
        return res

    def is_(self, a, b):
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            if a is None or b is None:
                return Unknown("identity of top")
            return Unknown("identity of top")
        if a is b:
            return True
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, int) and isinstance(b, int) and type(a) is type(b) and abs(a) < 256:
            return a == b
        if type(a) is tuple and type(b) is tuple and not a and not b:
            return True
        return False

    def compare(self, op, a, b):
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        if models.is_vec(a) or models.is_vec(b):
            if not (isinstance(a, Inst) and a.cls.lookup(CMPD[op])):
                return models.vec_compare(self, op, a, b)
        return self.scalar_compare(op, a, b)

    def scalar_compare(self, op, a, b):
        if isinstance(a, (Unknown, TopH)):
            return a
        if isinstance(b, (Unknown, TopH)):
            return b
        if isinstance(a, Inst) or isinstance(b, Inst):
            return self.inst_compare(op, a, b)
        if isinstance(a, Doc) or isinstance(b, Doc):
            return Unknown("documentation text")
        if is_number(a) and is_number(b):
            return num_cmp(op, a, b)
        if isinstance(a, Lab) or isinstance(b, Lab):
            if is_nan(a) or is_nan(b):
                return op == "!="
            if isinstance(a, Lab) and isinstance(b, Lab):
                if not lab_cmp_ok(a, b, op):
                    return op == "!="
                return num_cmp(op, a.x, b.x)
            if op in ("==", "!="):
                return op == "!="
            if is_inf(a) or is_inf(b) or is_number(a) or is_number(b) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
                raise_("TypeError", f"'{op}' not supported between {a!r} and {b!r}")
        if isinstance(a, str) and isinstance(b, str):
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        for ty in (tuple, PyList):
            if isinstance(a, ty) and isinstance(b, ty):
                x = a if ty is tuple else a.v
                y = b if ty is tuple else b.v
                if op in ("==", "!="):
                    eq = len(x) == len(y) and all(p is q or self.truth(self.compare("==", p, q)) for p, q in zip(x, y))
                    return eq if op == "==" else not eq
                for p, q in zip(x, y):
                    if not (p is q or self.truth(self.compare("==", p, q))):
                        return self.compare(op, p, q)
                return {"<": len(x) < len(y), "<=": len(x) <= len(y), ">": len(x) > len(y), ">=": len(x) >= len(y)}[op]
        if isinstance(a, PySet) and isinstance(b, PySet):
            ka, kb = set(a.v), set(b.v)
            return {"==": ka == kb, "!=": ka != kb, "<": ka < kb, "<=": ka <= kb, ">": ka > kb, ">=": ka >= kb}[op]
        if isinstance(a, PyDict) and isinstance(b, PyDict) and op in ("==", "!="):
            eq = set(a.d) == set(b.d) and all(self.truth(self.compare("==", a.d[k][1], b.d[k][1])) for k in a.d)
            return eq if op == "==" else not eq
        if op == "==":
            return a is b
        if op == "!=":
            return a is not b
        raise_("TypeError", f"'{op}' not supported between {self.tname(a)} and {self.tname(b)}")

    def inst_compare(self, op, a, b):
        d = CMPD[op]
        rd = CMPD[SWAP[op]]
        if isinstance(a, Inst):
            f = a.cls.lookup(d)
            if f is not None:
                r = self.call(Bound(f, a), [b], {})
                if r is not NOTIMPL:
                    return r
                if self.np_scalar(b) and self.ext_array(a):
                    return self.np_elementwise(lambda y: self.truth_(self.compare(op, y, b)), a)
            elif self.opaque_cls(a.cls) and not (op in ORDERINGS and self.lacks(a.cls, d)):
                return Unknown(f"{d} of {a.cls.name}")
        if isinstance(b, Inst):
            f = b.cls.lookup(rd)
            if f is not None:
                np_ = self.np_scalar(a)
                if np_ and self.ext_array(b):
                    a = zerod(a)         # comparisons of numpy scalars go through the array's __array_ufunc__
                r = self.call(Bound(f, b), [a], {})
                if np_ and self.ext_array(b) and r is NOTIMPL:
                    return self.np_elementwise(lambda y: self.truth_(self.compare(op, a, y)), b)
                if np_ and not self.ext_array(b) and not self.np_defers(a, b):
                    return self.truth_(r)       # numpy's comparison loops give booleans
                if r is not NOTIMPL:
                    return r
            elif self.opaque_cls(b.cls) and not (op in ORDERINGS and self.lacks(b.cls, rd) and not self.np_scalar(a)):
                return Unknown(f"{rd} of {b.cls.name}")
        if op == "==":
            return a is b
        if op == "!=":
            if isinstance(a, Inst) and a.cls.lookup("__eq__"):
                r = self.call(Bound(a.cls.lookup("__eq__"), a), [b], {})
                return not self.truth(r)
            return a is not b
        raise_("TypeError", f"'{op}' not supported between {self.tname(a)} and {self.tname(b)}")

    def np_scalar(self, v):
        return is0d(v) or isinstance(v, Num) and v.fl in ("np", "npi")

    def ext_array(self, o):
        return any(b.name.endswith("ExtensionArray") for b in o.cls.ext_bases())

    def lacks(self, cls, d):
        """no base of the class defines the operator d"""
        for b in cls.ext_bases():
            if b.name in ("object", "Generic", "ABC"):
                continue
            if b.name.endswith("ExtensionArray") and (d not in ATTRS["ExtensionArray"] or d in OBJECT_ORDER):
                continue
            return False
        return True

    def np_defers(self, a, b):
        """numpy leaves a binary operation of its scalar a to b"""
        if b.cls.has("__array_ufunc__"):
            return b.cls.lookup("__array_ufunc__") is None
        p = b.cls.lookup("__array_priority__")
        if p is None:
            return False
        return bool(self.truth(self.compare(">", p, 0 if is0d(a) else -1000000)))

    def np_elementwise(self, f, arr):
        return Arr(cells([f(x) for x in self.iterate(arr)]), "object")

    def truth_(self, r):
        return r if isinstance(r, Unknown) else self.truth(r)

    def opaque_cls(self, cls):
        return any(k.name not in EXC_BASES and k.name not in ("object", "BaseException", "Generic", "NamedTuple") for k in cls.ext_bases())

    def contains(self, cont, x):
        if isinstance(cont, Unknown):
            return cont
        if isinstance(x, Unknown):
            return x
        if isinstance(cont, (tuple, PyList)):
            for y in (cont if isinstance(cont, tuple) else cont.v):
                if y is x or self.truth(self.compare("==", y, x)):
                    return True
            return False
        if isinstance(cont, PyDict):
            return self.in_set(x, cont.d)
        if isinstance(cont, PySet):
            return self.in_set(x, cont.v)
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, Inst):
            f = cont.cls.lookup("__contains__")
            if f is not None:
                return self.truth(self.call(Bound(f, cont), [x], {}))
            return self.contains(PyList(list(self.iterate(cont))), x)
        if models.is_vec(cont):
            return models.vec_contains(self, cont, x)
        if isinstance(cont, PyIter):
            return self.contains(PyList(self.iterate(cont)), x)
        raise Undecided(f"membership in {cont!r}")

    def ex_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def ex_JoinedStr(self, e, fr):
        out = []
        unk = False
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(str(p.value))
            else:
                v = self.ev(p.value, fr)
                if isinstance(v, (str, int)) and not isinstance(v, bool) and p.format_spec is None and p.conversion == -1:
                    out.append(str(v))
                elif isinstance(v, bool) or v is None:
                    out.append(str(v))
                else:
                    if isinstance(v, Num) and v.is_const():
                        out.append(str(int(v.const())) if v.fl == "pyi" and v.const().denominator == 1 else str(float(v.const())))
                    else:
                        unk = True
        return Unknown("formatted text") if unk else "".join(out)

    def ex_Starred(self, e, fr):
        raise Undecided("starred expression")

    def ex_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while isinstance(f, CompFrame):
            f = f.parent
        self.store(e.target.id, v, f)
        return v

    def comp(self, gens, fr, emit):
        def rec(i, f):
            if i == len(gens):
                emit(f)
                return
            g = gens[i]
            it = self.ev(g.iter, f)
            if isinstance(it, Unknown):
                raise Undecided(f"iteration over {it.reason}")
            for x in self.iterate(it):
                if isinstance(x, H):
                    self.hole_iter = x.hid
                    try:
                        self.assign(g.target, x.val, f)
                        for c in g.ifs:
                            raise Undecided("filter over a summarised run")
                        self._in_hole = x.hid
                        rec(i + 1, f)
                    finally:
                        self._in_hole = None
                    continue
                self.assign(g.target, x, f)
                if all(self.truth(self.ev(c, f)) for c in g.ifs):
                    rec(i + 1, f)
        cf = CompFrame(fr, fr.mod, fr.func)
        cf.line = fr.line
        rec(0, cf)

    _in_hole = None

    def _emit(self, out, v):
        if self._in_hole is not None:
            out.append(H(self._in_hole, v))
        else:
            out.append(v)

    def ex_ListComp(self, e, fr):
        out = []
        self.comp(e.generators, fr, lambda f: self._emit(out, self._hev(e.elt, f)))
        return PyList(out, self.epoch())

    def _hev(self, e, f):
        if self._in_hole is None:
            return self.ev(e, f)
        try:
            return self.ev(e, f)
        except HoleDecision:
            return TOPH

    def ex_GeneratorExp(self, e, fr):
        out = []
        self.comp(e.generators, fr, lambda f: self._emit(out, self._hev(e.elt, f)))
        return PyIter(out)

    def ex_SetComp(self, e, fr):
        s = PySet({}, self.epoch())

        def em(f):
            v = self.ev(e.elt, f)
            s.v.setdefault(self.hkey(v, s.v), v)
        self.comp(e.generators, fr, em)
        return s

    def ex_DictComp(self, e, fr):
        d = PyDict({}, self.epoch())

        def em(f):
            k = self.ev(e.key, f)
            d.d[self.hkey(k, d.d)] = (k, self.ev(e.value, f))
        self.comp(e.generators, fr, em)
        return d

    def ex_Yield(self, e, fr):
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        if f is None:
            raise Undecided("yield")
        v = self.ev(e.value, fr) if e.value else None
        if not isinstance(f.yields, list):
            return f.yields(v)
        f.yields.append(v)
        return None

    def ex_YieldFrom(self, e, fr):
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        if not isinstance(f.yields, list):
            raise Undecided("yield from in a context manager")
        f.yields.extend(self.iterate(self.ev(e.value, fr)))
        return None

    def ex_Call(self, e, fr):
        # zero-argument super
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and (f.func is None or f.func.defcls is None):
                f = f.parent
            if f is None:
                raise Undecided("super()")
            return SuperProxy(f.func.defcls, f.self_)
        fn = self.ev(e.func, fr)
        args = self.ev_elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, Unknown):
                    return d
                if not isinstance(d, PyDict):
                    raise Undecided("** of non dict")
                for kk, vv in d.d.values():
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, fr)
        fr.line = e.lineno
        if isinstance(fn, ExtFunc) and fn.name == "builtins.locals":
            return PyDict({self.hkey(k): (k, v) for k, v in fr.vars.items()})
        return self.call(fn, args, kw)

    # ------------------------------------------------------------ functions
    def make_func(self, node, fr, name):
        f = UFunc()
        f.name = name
        f.node = node
        f.env = fr
        f.mod = fr.mod
        a = node.args
        f.defaults = [self.ev(d, fr) for d in a.defaults]
        f.kwdefaults = [self.ev(d, fr) if d is not None else None for d in a.kw_defaults]
        f.attrs = {}
        f.defcls = None
        outer = fr.func.qual.split(":")[1] + "." if fr.func is not None else ""
        f.qual = f"{fr.mod.name}:{outer}{name}"
        info = _FINFO.get(id(node))
        if info is None:
            info = _FINFO[id(node)] = (_is_gen(node), frozenset(_locals(node)), node)
        f.is_gen = info[0]
        f.locals_ = info[1]
        f.nonloc = None
        return f

    def call(self, fn, args, kw):
        t = type(fn)
        if t is UFunc:
            return self.call_user(fn, args, kw)
        if t is Bound:
            return self.call(fn.fn, [fn.self, *args], kw)
        if isinstance(fn, Unknown):
            return fn
        if isinstance(fn, UFunc):
            return self.call_user(fn, args, kw)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self] + list(args), kw)
        if isinstance(fn, ExtFunc):
            if fn.fn is None:
                return Unknown(f"unmodelled {fn.name}")
            for a in args:
                if isinstance(a, Unknown) and fn.name not in _UNK_OK:
                    return a
            for a in kw.values():
                if isinstance(a, Unknown) and fn.name not in _UNK_OK:
                    return a
            if fn.name.startswith(_VEC_NAMES):
                u = next((u for a in (*args, *kw.values()) for u in _inner_unknown(a)), None)
                if u is not None:
                    return u
            return self.ext_call(fn, args, kw)
        if isinstance(fn, UClass):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, ExtClass):
            if fn.fn is None:
                if fn.name in EXC_BASES or fn.name in ("Exception", "BaseException"):
                    return Exc(fn.name, tuple(args))
                return Unknown(f"unmodelled {fn.name}()")
            for a in list(args) + list(kw.values()):
                if isinstance(a, Unknown):
                    return a
            if fn.name.startswith(_VEC_NAMES):
                u = next((u for a in (*args, *kw.values()) for u in _inner_unknown(a)), None)
                if u is not None:
                    return u
            return self.ext_call(fn, args, kw)
        if isinstance(fn, Inst):
            c = fn.cls.lookup("__call__")
            if c is None:
                if self.opaque_cls(fn.cls):
                    return Unknown(f"call of {fn.cls.name}")
                raise_("TypeError", f"{fn.cls.name} object is not callable")
            return self.call(self.bind(c, fn, fn.cls), args, kw)
        if isinstance(fn, Partial):
            return self.call(fn.fn, list(fn.args) + list(args), {**fn.kw, **kw})
        if isinstance(fn, Doc):
            return DOC
        if isinstance(fn, (StaticM, ClassM)):
            return self.call(fn.f, args, kw)
        raise_("TypeError", f"{fn!r} is not callable")

    def ext_call(self, fn, args, kw):
        try:
            return fn.fn(self, *args, **kw)
        except (TypeError, KeyError, IndexError, AttributeError, ValueError, AssertionError, StopIteration) as e:
            if os.environ.get("SA_DEBUG"):
                raise
            raise Undecided(f"model gap in {fn.name}: {type(e).__name__} {e}")

    def call_user(self, f, args, kw, at_yield=None):
        stub = self.stubs.get(f.qual)
        if stub is not None and not self.loading:
            r = stub(self, f, args, kw)
            if r is not NOTIMPL:
                return r
        self.calls += 1
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            if self.depth > 58:
                raise Undecided("call depth")
        fr = Frame(f.env if not isinstance(f.env, ClassFrame) else f.env, f.mod, f)
        self.bind_args(f, args, kw, fr)
        if args:
            fr.self_ = args[0]
        node = f.node
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                fr.line = node.lineno
                if f.qual not in self.covered:
                    self.covered[f.qual] = set()
                self.covered[f.qual].add(node.lineno)
                return self.ev(node.body, fr)
            if f.is_gen:
                fr.yields = [] if at_yield is None else at_yield
            try:
                self.exec_block(node.body, fr)
            except ReturnEx as r:
                if not f.is_gen:
                    return r.v
            if f.is_gen and at_yield is None:
                return PyIter(fr.yields)
            return None
        except PyRaise as e:
            if not hasattr(e, "site"):
                e.site = self.where()
            raise
        except (Undecided, HoleDecision) as e:
            if not hasattr(e, "site"):
                e.site = self.where()
            raise
        finally:
            self.frames.pop()
            self.depth -= 1

    def where(self):
        out = []
        for fr in self.frames:
            if fr.func is not None:
                out.append(f"{fr.mod.name.replace('.', '/')}:{fr.line} in {fr.func.qual.split(':')[1]}")
        return out

    def bind_args(self, f, args, kw, fr):
        a = f.node.args
        v = fr.vars
        n = len(args)
        if not kw and not f.kwdefaults and a.vararg is None and a.kwarg is None and not a.posonlyargs:
            names = a.args
            m = len(names)
            if n <= m and n >= m - len(f.defaults):
                for x, val in zip(names, args):
                    v[x.arg] = val
                if n < m:
                    for x, d in zip(names[n:], f.defaults[n - m:]):
                        v[x.arg] = d
                return
        pos = [x.arg for x in a.posonlyargs + a.args]
        if n > len(pos) and a.vararg is None:
            raise_("TypeError", f"{f.name}() takes {len(pos)} positional arguments but {n} were given")
        for name, val in zip(pos, args):
            v[name] = val
        if a.vararg is not None:
            v[a.vararg.arg] = tuple(args[len(pos):])
        rest = dict(kw)
        ponly = {x.arg for x in a.posonlyargs}
        for name in list(rest):
            if name in pos and name not in ponly:
                if name in v and pos.index(name) < n:
                    raise_("TypeError", f"{f.name}() got multiple values for argument '{name}'")
                v[name] = rest.pop(name)
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in v:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise_("TypeError", f"{f.name}() missing required argument '{name}'")
                v[name] = f.defaults[j]
        for x, d, dn in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
            if x.arg in rest:
                v[x.arg] = rest.pop(x.arg)
            elif dn is None:
                raise_("TypeError", f"{f.name}() missing keyword argument '{x.arg}'")
            else:
                v[x.arg] = d
        if a.kwarg is not None:
            v[a.kwarg.arg] = PyDict({self.hkey(k): (k, val) for k, val in rest.items()}, 1)
        elif rest:
            raise_("TypeError", f"{f.name}() got an unexpected keyword argument '{next(iter(rest))}'")

    def instantiate(self, cls, args, kw):
        if cls.members is not None:
            if len(args) != 1 or kw:
                raise Undecided("enumeration call")
            for m in cls.members.values():
                if m is args[0] or self.truth(self.compare("==", m.d["_value_"], args[0])):
                    return m
            raise_("ValueError", f"{args[0]!r} is not a valid {cls.name}")
        if cls.nt_fields is not None and cls.lookup("__new__") is None:
            return models.make_nt(self, cls, args, kw)
        exc = [k for k in cls.ext_bases() if k.name in EXC_BASES or k.name in ("Exception", "BaseException")]
        new = cls.lookup("__new__")
        if new is not None:
            r = self.call(new.f if isinstance(new, StaticM) else new, [cls] + list(args), kw)
            if not (isinstance(r, Inst) and cls in r.cls.mro):
                return r
            inst = r
        else:
            if any(k.name == "unknown-base" for k in cls.ext_bases()):
                return Unknown(f"instance of {cls.name}")
            inst = Inst(cls, {}, self.epoch())
        init = cls.lookup("__init__")
        if init is not None:
            self.call(Bound(init, inst), args, kw)
        elif exc:
            inst.d["args"] = tuple(args)
        elif args or kw:
            if not cls.ext_bases():
                raise_("TypeError", f"{cls.name}() takes no arguments")
        return inst

    # ------------------------------------------------------------ attributes
    def bind(self, f, obj, cls):
        if isinstance(f, UFunc) or isinstance(f, ExtFunc):
            return Bound(f, obj)
        if isinstance(f, StaticM):
            return f.f
        if isinstance(f, ClassM):
            return Bound(f.f, cls)
        if isinstance(f, Prop):
            return self.call(f.fget, [obj], {})
        if isinstance(f, CachedProp):
            v = self.call(f.f, [obj], {})
            self.touch(obj)
            obj.d[f.name] = v
            return v
        if isinstance(f, Partial):
            return f
        if isinstance(f, Inst):
            g = f.cls.lookup("__get__")
            if g is not None:
                return self.call(Bound(g, f), [obj, cls], {})
        return f

    def getattr(self, o, name, default=Ellipsis):
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if default is not Ellipsis and isinstance(e.exc, Exc) and e.exc.name == "AttributeError":
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Unknown):
            return o
        if isinstance(o, Inst):
            f = o.cls.lookup(name)
            if o.cls.members is not None and name in ("name", "value") and f is None:
                return o.d["_name_" if name == "name" else "_value_"]
            if f is not None and (isinstance(f, Prop) or (isinstance(f, Inst) and f.cls.lookup("__set__"))):
                return self.bind(f, o, o.cls)
            if name in o.d:
                return o.d[name]
            if f is not None or o.cls.has(name):
                return self.bind(f, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return PyDict({self.hkey(k): (k, v) for k, v in o.d.items()})
            if name == "__setattr__":
                return ExtFunc("object.__setattr__", lambda I, n, v, o=o: self.setattr(o, n, v))
            if name == "__getattribute__":
                return ExtFunc("object.__getattribute__", lambda I, n, o=o: self.getattr(o, n))
            g = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(Bound(g, o), [name], {})
            if name == "__doc__":
                return ""
            if name in ("__init__",):
                return ExtFunc("object.__init__", lambda I, *a, **k: None)
            if self.opaque_cls(o.cls):
                return Unknown(f"attribute {name} of {o.cls.name}")
            if any(k.name in EXC_BASES for k in o.cls.ext_bases()) and name == "args":
                return o.d.get("args", ())
            raise_("AttributeError", f"'{o.cls.name}' object has no attribute '{name}'")
        if isinstance(o, Module):
            if name in o.d:
                return o.d[name]
            sub = self.modules.get(o.name + "." + name)
            if sub is not None:
                return sub
            raise_("AttributeError", f"module {o.name} has no attribute {name}")
        if isinstance(o, Doc):
            return DOC
        if isinstance(o, NTup):
            for (n, _, _), v in zip(o.cls.nt_fields, o):
                if n == name:
                    return v
            if o.cls.has(name):
                return self.bind(o.cls.lookup(name), o, o.cls)
            if name == "__class__":
                return o.cls
            r = models.nt_attr(self, o, name)
            if r is not None:
                return r
        if isinstance(o, UClass) and o.members is not None and name in o.members:
            return o.members[name]
        if isinstance(o, UClass) and o.nt_fields is not None and name in ("_fields", "_make") and not o.has(name):
            return tuple(n for n, _, _ in o.nt_fields) if name == "_fields" else ExtFunc("_make", lambda I, x, o=o: I.instantiate(o, I.iterate(x), {}))
        if isinstance(o, UClass):
            if o.has(name):
                f = o.lookup(name)
                if isinstance(f, StaticM):
                    return f.f
                if isinstance(f, ClassM):
                    return Bound(f.f, o)
                if isinstance(f, Inst):
                    g = f.cls.lookup("__get__")
                    if g is not None:
                        return self.call(Bound(g, f), [None, o], {})
                return f
            if name == "__name__":
                return o.name
            if name == "__init__":
                return ExtFunc("object.__init__", lambda I, *a, **k: None)
            if name == "__new__":
                return ExtFunc("object.__new__", lambda I, c, *a, **k: Inst(c, {}, self.epoch()))
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__doc__":
                return ""
            if self.opaque_cls(o):
                return Unknown(f"attribute {name} of class {o.name}")
            raise_("AttributeError", f"type object '{o.name}' has no attribute '{name}'")
        if isinstance(o, UFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            if name == "__doc__":
                return ""
            if name == "__module__":
                return o.mod.name
            if name == "__qualname__":
                return o.qual
            if name == "__get__":
                return ExtFunc("function.__get__", lambda I, obj, cls=None, o=o: Bound(o, obj))
            if name == "__call__":
                return o
            raise_("AttributeError", name)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.fn
            return self.getattr(o.fn, name)
        if isinstance(o, SuperProxy):
            cls = o.self.cls if isinstance(o.self, Inst) else o.self
            mro = cls.mro
            i = mro.index(o.cls) if o.cls in mro else -1
            for k in mro[i + 1:]:
                if isinstance(k, UClass):
                    if name in k.d:
                        f = k.d[name]
                        if isinstance(o.self, Inst):
                            return self.bind(f, o.self, cls)
                        if isinstance(f, ClassM):
                            return Bound(f.f, cls)
                        return f.f if isinstance(f, StaticM) else f
                elif name == "__init__":
                    if k.name in EXC_BASES:
                        def setargs(I, *a, s=o.self, **kk):
                            s.d["args"] = tuple(a)
                        return ExtFunc("exc.__init__", setargs)
            if name == "__init__":
                return ExtFunc("object.__init__", lambda I, *a, **k: None)
            if name == "__setattr__":
                return ExtFunc("object.__setattr__", lambda I, n, v, o=o.self: self.setattr_raw(o, n, v))
            if name == "__new__":
                return ExtFunc("object.__new__", lambda I, c, *a, **k: Inst(c, {}, self.epoch()))
            if any(isinstance(k, ExtClass) and k.name != "object" for k in mro):
                return Unknown(f"super().{name}")
            raise_("AttributeError", f"super object has no attribute {name}")
        return models.ext_getattr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            f = o.cls.lookup("__setattr__")
            if f is not None:
                self.call(Bound(f, o), [name, v], {})
                return
            self.setattr_raw(o, name, v)
        elif isinstance(o, UClass):
            o.d[name] = v
            if isinstance(v, CachedProp) and v.name is None:
                v.name = name
            if not self.loading:
                self.dirty = True
        elif isinstance(o, UFunc):
            o.attrs[name] = v
            if not self.loading:
                self.dirty = True
        elif isinstance(o, Module):
            o.d[name] = v
            if not self.loading:
                self.dirty = True
        elif isinstance(o, Bound):
            self.setattr(o.fn, name, v)
        elif isinstance(o, (Unknown, Doc, ExtFunc, ExtClass, ExtMod)):
            return
        else:
            models.ext_setattr(self, o, name, v)

    def setattr_raw(self, o, name, v):
        f = o.cls.lookup(name)
        if isinstance(f, Prop):
            if f.fset is None:
                raise_("AttributeError", f"can't set attribute {name}")
            self.call(f.fset, [o, v], {})
            return
        if isinstance(f, Inst) and f.cls.lookup("__set__"):
            self.call(self.getattr(f, "__set__"), [o, v], {})
            return
        self.touch(o)
        o.d[name] = v

    # ------------------------------------------------------------ items
    def hkey(self, v, within=None):
        """the dictionary key of v; with symbolic numbers or labels about, decided against the keys already there"""
        h = self.hkey_(v)
        if not within:
            return h
        if h == ("nan",) and h in within and not isinstance(v, str):
            raise Undecided("a second NaN in a hash container")
        if h in within or isinstance(h, (str, bool)) or h is None:
            return h
        sym = isinstance(h, tuple) and h and h[0] in ("num", "lab")
        if not sym and not isinstance(h, int):
            return h
        for g, e in within.items():
            if isinstance(g, tuple) and g and g[0] in ("num", "lab") or sym and isinstance(g, int) and not isinstance(g, bool):
                if isinstance(g, tuple) and g[0] == "lab" and (h[0] if sym else "int") != "lab" or sym and h[0] == "lab" and (not isinstance(g, tuple) or g[:2] != h[:2]):
                    continue
                y = e[0] if isinstance(e, tuple) and len(e) == 2 and (is_number(e[0]) or isinstance(e[0], Lab)) else e
                if (is_number(y) or isinstance(y, Lab)) and self.truth(self.compare("==", y, v)):
                    return g
        return h

    def set_update(self, dst, src):
        for e in list(src.values()):
            dst.setdefault(self.hkey(e, dst), e)
        return dst

    def in_set(self, e, d):
        return self.hkey_(e) in d or self.hkey(e, d) in d

    def hkey_(self, v):
        if is0d(v):
            raise_("TypeError", "unhashable type: 'numpy.ndarray'")
        if isinstance(v, bool) or v is None or isinstance(v, (int, float, str)):
            if isinstance(v, float) and v == int(v) if isinstance(v, float) and v == v and not is_inf(v) else False:
                return int(v)
            return v if not is_nan(v) else ("nan",)
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.hkey(x) for x in v)
        if isinstance(v, Num):
            v = C.cur().norm(v)
            if v.is_const():
                c = v.const()
                return int(c) if c.denominator == 1 else ("num", c)
            return ("num", repr(v))
        if isinstance(v, Lab):
            return ("lab", v.kind, repr(C.cur().norm(v.x)))
        if isinstance(v, (PyList, PyDict, PySet)):
            raise_("TypeError", "unhashable type")
        if isinstance(v, Inst):
            if v.cls.members is not None and "mixin" in v.d:
                return self.hkey_(v.d["_value_"])
            f = v.cls.lookup("__hash__")
            if f is not None:
                return ("h", self.hkey(self.call(Bound(f, v), [], {})))
            return ("id", id(v), _Keep(v))
        if isinstance(v, Bound):
            return ("bound", self.hkey(v.fn), self.hkey(v.self))
        if isinstance(v, Unknown):
            raise Undecided(f"hash of {v.reason}")
        if models.is_vec(v):
            raise_("TypeError", "unhashable type")
        return ("id", id(v), _Keep(v))

    def getitem(self, o, k):
        if isinstance(o, Unknown):
            return o
        if isinstance(k, Unknown):
            return k
        if isinstance(o, PyDict):
            h = self.hkey(k, o.d)
            if h not in o.d:
                f = getattr(o, "default", None) if not isinstance(o, PyDict) else None
                raise_("KeyError", k)
            return o.d[h][1]
        if isinstance(o, (tuple, PyList)):
            seq = o if isinstance(o, tuple) else o.v
            if isinstance(k, PySlice):
                r = seq[self._pyslice(k)]
                return r if isinstance(o, tuple) else PyList(list(r), self.epoch())
            i = self.as_int(k)
            try:
                return seq[i]
            except IndexError:
                raise_("IndexError", "index out of range")
        if isinstance(o, str):
            if isinstance(k, PySlice):
                return o[self._pyslice(k)]
            try:
                return o[self.as_int(k)]
            except IndexError:
                raise_("IndexError")
        if isinstance(o, Inst):
            f = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call(Bound(f, o), [k], {})
            if self.opaque_cls(o.cls):
                return Unknown(f"item of {o.cls.name}")
            raise_("TypeError", f"'{o.cls.name}' object is not subscriptable")
        if isinstance(o, UClass) and o.members is not None and isinstance(k, str):
            if k not in o.members:
                raise_("KeyError", k)
            return o.members[k]
        if isinstance(o, (ExtClass, UClass)):
            return o
        if isinstance(o, Doc):
            return DOC
        return models.ext_getitem(self, o, k)

    def _pyslice(self, k):
        return slice(*(None if x is None else self.as_int(x) for x in (k.a, k.b, k.c)))

    def as_int(self, k):
        if isinstance(k, bool):
            return int(k)
        if isinstance(k, int):
            return k
        k = simp(k)
        if isinstance(k, int):
            return k
        if isinstance(k, Num) and k.is_const() and k.const().denominator == 1:
            return int(k.const())
        raise Undecided(f"index {k!r}")

    def setitem(self, o, k, v):
        if isinstance(o, (Unknown, Doc)):
            return
        if isinstance(o, PyDict):
            self.touch(o)
            h = self.hkey(k, o.d)
            o.d[h] = (o.d[h][0] if h in o.d else k, v)
            return
        if isinstance(o, PyList):
            self.touch(o)
            if isinstance(k, PySlice):
                o.v[self._pyslice(k)] = self.iterate(v)
                return
            try:
                o.v[self.as_int(k)] = v
            except IndexError:
                raise_("IndexError")
            return
        if isinstance(o, Inst):
            f = o.cls.lookup("__setitem__")
            if f is not None:
                self.call(Bound(f, o), [k, v], {})
                return
            raise_("TypeError", "object does not support item assignment")
        if isinstance(o, (tuple, str)):
            raise_("TypeError", "object does not support item assignment")
        models.ext_setitem(self, o, k, v)

    def delitem(self, o, k):
        if isinstance(o, PyDict):
            self.touch(o)
            h = self.hkey(k, o.d)
            if h not in o.d:
                raise_("KeyError", k)
            del o.d[h]
            return
        if isinstance(o, PyList):
            self.touch(o)
            if isinstance(k, PySlice):
                del o.v[self._pyslice(k)]
            else:
                del o.v[self.as_int(k)]
            return
        models.ext_delitem(self, o, k)

    # ------------------------------------------------------------ protocols
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Unknown):
            raise Undecided(f"branch on {v.reason}")
        if isinstance(v, TopH):
            raise HoleDecision("branch")
        if isinstance(v, (int, str)):
            return bool(v)
        if isinstance(v, float):
            return bool(v)
        if isinstance(v, Num):
            return not zero(v)
        if isinstance(v, (tuple,)):
            return len(v) > 0
        if isinstance(v, PyList):
            return len(v.v) > 0
        if isinstance(v, PyDict):
            return len(v.d) > 0
        if isinstance(v, PySet):
            return len(v.v) > 0
        if isinstance(v, Doc):
            return False
        if isinstance(v, Inst):
            f = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            f = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, Lab):
            return not zero(v.x) if v.kind == "td" else True
        return models.vec_truth(self, v)

    def iterate_live(self, v):
        """iteration that sees list mutation"""
        if isinstance(v, PyList):
            i = 0
            while i < len(v.v):
                yield v.v[i]
                i += 1
            return
        yield from self.iterate(v)

    def iterate(self, v):
        if isinstance(v, UClass) and v.members is not None:
            return list({id(m): m for m in v.members.values()}.values())
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList):
            return list(v.v)
        if isinstance(v, PyDict):
            return [k for k, _ in v.d.values()]
        if isinstance(v, PySet):
            return list(v.v.values())
        if isinstance(v, PyIter):
            r = v.items[v.i:]
            v.i = len(v.items)
            return r
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Unknown):
            raise Undecided(f"iteration over {v.reason}")
        if isinstance(v, Inst):
            f = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call(Bound(f, v), [], {}))
            g = v.cls.lookup("__getitem__")
            n = v.cls.lookup("__len__")
            if g is not None and n is not None:
                k = self.as_int(self.call(Bound(n, v), [], {}))
                return [self.call(Bound(g, v), [i], {}) for i in range(k)]
            raise_("TypeError", f"'{v.cls.name}' object is not iterable")
        return models.vec_iterate(self, v)

    def isinstance_(self, v, t):
        if isinstance(t, tuple):
            res = False
            for x in t:
                r = self.isinstance_(v, x)
                if r is True:
                    return True
                if isinstance(r, Unknown):
                    res = r
            return res
        if isinstance(v, Unknown):
            return v
        if isinstance(t, Unknown):
            return t
        if isinstance(t, UClass):
            return isinstance(v, (Inst, NTup)) and t in v.cls.mro
        return models.ext_isinstance(self, v, t)


class CompFrame(Frame):
    pass


class _Keep:
    """keeps an object alive as part of a hash key"""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __eq__(self, other):
        return self.o is other.o

    def __hash__(self):
        return 0


_VEC_NAMES = ("pandas.", "numpy.", "Series.", "DataFrame.", "Index.", "ndarray.")


def _inner_unknown(x, d=0):
    """unknowns inside the builtin containers of an argument"""
    if isinstance(x, Unknown):
        yield x
    elif d < 3 and isinstance(x, (PyList, tuple)):
        for y in (x.v if isinstance(x, PyList) else x):
            yield from _inner_unknown(y, d + 1)
    elif d < 3 and isinstance(x, PyDict):
        for _, y in x.d.values():
            yield from _inner_unknown(y, d + 1)


_UNK_OK = {"builtins.isinstance", "builtins.print", "builtins.id", "warnings.warn", "builtins.type"}
_FINFO = {}


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _locals(node):
    out = set()
    if isinstance(node, ast.Lambda):
        return out
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return out


from . import models          # noqa: E402  (mutually recursive)

_ST = {getattr(ast, n[3:]): f for n, f in vars(Universe).items() if n.startswith("st_") and hasattr(ast, n[3:])}
_EX = {getattr(ast, n[3:]): f for n, f in vars(Universe).items() if n.startswith("ex_") and hasattr(ast, n[3:])}

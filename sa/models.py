"""Abstract models of builtins and of the standard library, and the dispatch into the vector models."""
import math as _math
from . import ctx as C
from . import npm
from .extattrs import ATTRS
from .vec import *
from .vec import is_vec
from .pdm import *
from .pdm import U, SER, IDX, FRAME
from .pdmeth import *
from .pdmeth import (SER_PROPS, IDX_PROPS, DF_PROPS, ext_getattr_vec, idx_getitem, group_method, inplace_done, pd_concat,
                     from_arrays, from_breaks, from_tuples, mk_interval_index, pd_isnull, pd_notnull, pd_unique,
                     iv_contains, groups, idx_values, abs_, fn_round, red_any, red_all, anyH)
from .ctx import Undecided, HoleDecision
from .terms import Num, atom, nadd, nneg, nsub, num
from .values import *
from .interp import NOTIMPL, ELLIPSIS, CMPD
from . import pdm as _pdm

vec_binop = _pdm.vec_binop
vec_compare = _pdm.vec_compare
BUILTINS = {}


class NullCM:
    """context manager without observable effect"""
    def __init__(self, suppress=(), value=None):
        self.suppress = suppress
        self.value = PyList([]) if value is None else value


class GenCM:
    """a call of a function decorated with contextlib.contextmanager"""
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


def make_nt(I, cls, args, kw):
    out = list(args)
    if len(out) > len(cls.nt_fields):
        raise_("TypeError", f"{cls.name}() takes {len(cls.nt_fields)} arguments")
    kw = dict(kw)
    for n, has, dflt in cls.nt_fields[len(out):]:
        if n in kw:
            out.append(kw.pop(n))
        elif has:
            out.append(dflt)
        else:
            raise_("TypeError", f"{cls.name}() missing argument {n}")
    if kw:
        raise_("TypeError", f"{cls.name}() got unexpected arguments")
    t = NTup(out)
    t.cls = cls
    return t


def nt_attr(I, o, name):
    f = [n for n, _, _ in o.cls.nt_fields]
    if name == "_fields":
        return tuple(f)
    if name == "_asdict":
        return ExtFunc("_asdict", lambda I: PyDict({I.hkey(n): (n, v) for n, v in zip(f, o)}, I.epoch()))
    if name == "_replace":
        return ExtFunc("_replace", lambda I, **k: make_nt(I, o.cls, [k.pop(n, v) for n, v in zip(f, o)], k))
    return None


def namedtuple(I, name, fields, defaults=(), rename=False, module=None):
    names = fields.replace(",", " ").split() if isinstance(fields, str) else list(I.iterate(fields))
    d = list(I.iterate(defaults)) if defaults is not None else []
    c = UClass(name, [], {}, None)
    k = len(names) - len(d)
    c.nt_fields = [(n, i >= k, d[i - k] if i >= k else None) for i, n in enumerate(names)]
    return c


class EnumAuto:
    pass


def make_enum(I, cls, bases):
    cls.members = {}
    mixin = any(b in ("str", "int", "builtins.str", "builtins.int", "enum.IntEnum", "enum.StrEnum") for b in bases)
    if any("Flag" in b for b in bases):
        raise U("enum.Flag")
    for b in cls.bases:
        if isinstance(b, UClass) and b.members:
            raise U("subclass of an enumeration with members")
    n = 0
    for k, v in list(cls.d.items()):
        if k.startswith("_") or isinstance(v, (UFunc, Prop, StaticM, ClassM, CachedProp)):
            continue
        if isinstance(v, EnumAuto):
            n += 1
            v = k.lower() if any("StrEnum" in b for b in bases) else n
        elif isinstance(v, int):
            n = v
        same = next((m for m in cls.members.values() if type(m.d["_value_"]) is type(v) and isinstance(v, (str, int)) and m.d["_value_"] == v), None)
        m = same or Inst(cls, {"_name_": k, "_value_": v}, 0)
        if mixin:
            m.d["mixin"] = True
        del cls.d[k]
        cls.members[k] = m
    if mixin:
        val = lambda x: x.d["_value_"] if isinstance(x, Inst) and "_value_" in x.d else x
        cls.d["__eq__"] = ExtFunc("enum.__eq__", lambda I, a, b: I.compare("==", val(a), val(b)))
        cls.d["__ne__"] = ExtFunc("enum.__ne__", lambda I, a, b: I.compare("!=", val(a), val(b)))


def dataclass(I, cls=None, *, init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False, **kw):
    if cls is None:
        return ExtFunc("dataclasses.dataclass()", lambda I, c: dataclass(I, c, init=init, repr=repr, eq=eq, order=order, unsafe_hash=unsafe_hash, frozen=frozen, **kw))
    if kw.get("kw_only"):
        raise U("keyword-only data class")
    fields = {}
    for b in reversed(cls.mro[1:]):
        for f in getattr(b, "dc_fields", ()):
            fields[f[0]] = f
    for n, ann in getattr(cls, "ann", ()):
        if "ClassVar" in ann:
            continue
        if "InitVar" in ann or "KW_ONLY" in ann:
            raise U("InitVar")
        d = cls.d.get(n, NOTIMPL)
        spec = {}
        if isinstance(d, Inst) and d.cls is FIELD:
            spec = d.d
            d = spec.get("default", NOTIMPL)
            if d is NOTIMPL:
                cls.d.pop(n, None)
            else:
                cls.d[n] = d
        fields[n] = (n, d, spec)
    cls.dc_fields = list(fields.values())

    def make(I, self, *args, **k):
        inits = [f for f in cls.dc_fields if f[2].get("init", True) is not False]
        if len(args) > len(inits):
            raise_("TypeError", "too many arguments")
        given = {f[0]: a for f, a in zip(inits, args)}
        for n, v in k.items():
            if n in given or n not in [f[0] for f in inits]:
                raise_("TypeError", f"unexpected argument {n}")
            given[n] = v
        for n, d, spec in cls.dc_fields:
            if n in given:
                self.d[n] = given[n]
            elif "default_factory" in spec:
                self.d[n] = I.call(spec["default_factory"], [], {})
            elif d is not NOTIMPL:
                self.d[n] = d
            elif spec.get("init", True) is not False:
                raise_("TypeError", f"missing argument {n}")
        p = cls.lookup("__post_init__")
        if p is not None:
            I.call(Bound(p, self), [], {})
    tup = lambda x: tuple(x.d[f[0]] for f in cls.dc_fields if f[2].get("compare", True) is not False)
    if init and "__init__" not in cls.d:
        cls.d["__init__"] = ExtFunc(f"{cls.name}.__init__", make)
    if eq and "__eq__" not in cls.d:
        same = lambda b: isinstance(b, Inst) and b.cls is cls
        cls.d["__eq__"] = ExtFunc("dataclass.__eq__", lambda I, a, b: I.compare("==", tup(a), tup(b)) if same(b) else NOTIMPL)
    if order:
        for m, sym in (("__lt__", "<"), ("__le__", "<="), ("__gt__", ">"), ("__ge__", ">=")):
            cls.d.setdefault(m, ExtFunc("dataclass." + m, lambda I, a, b, sym=sym: I.compare(sym, tup(a), tup(b))))
    if frozen or unsafe_hash:
        cls.d.setdefault("__hash__", ExtFunc("dataclass.__hash__", lambda I, a: tup(a)))
    return cls


FIELD = UClass("dataclasses.Field", [], {}, None)


def singledispatch(I, f):
    table = []

    def run(I, *a, **k):
        hits = []
        for t, g in table:
            r = I.isinstance_(a[0], t)
            if not isinstance(r, bool):
                raise U("singledispatch on an unknown class")
            if r:
                hits.append(g)
        if len(hits) > 1:
            raise U("singledispatch on several classes")
        return I.call(hits[0] if hits else f, list(a), k)

    def register(I, t, g=None):
        if g is None and isinstance(t, UFunc):
            raise U("singledispatch on annotations")
        if g is None:
            return ExtFunc("register()", lambda I, g: register(I, t, g))
        table.append((t, g))
        return g
    e = ExtFunc("functools.singledispatch()", run)
    e.attrs = {"register": ExtFunc("register", register), "dispatch": Unknown("dispatch"), "registry": Unknown("registry")}
    return e


def bf(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = ExtFunc(f"builtins.{n}", f)
        return f
    return d


# ---------------------------------------------------------------- vectors: protocol entry points

def vec_binop_objects(I, sym, a, b):
    """vector and an instance of a class of the package"""
    v, o = (a, b) if is_vec(a) else (b, a)
    if any(k.name.endswith("ExtensionArray") for k in o.cls.ext_bases()):
        return Unknown("extension array arithmetic")
    if isinstance(v, (DF, Arr2)):
        return Unknown("object arithmetic on a frame")
    out = []
    for x in v.vals:
        if isinstance(x, H):
            raise U("object arithmetic over a run")
        out.append(I.binop(sym, x, o) if is_vec(a) else I.binop(sym, o, x))
    if isinstance(v, Ser):
        return Ser(v.idx, cells(out), "object", v.name)
    if isinstance(v, Idx):
        return Idx(out, "object", v.name)
    return Arr(cells(out), "object")


def vec_unop(I, op, v):
    def inv(q):
        if isinstance(q, TopH):
            return q
        if isinstance(q, bool):
            return not q
        if is_nan(q) or isinstance(q, (float, Num)) and not (isinstance(q, Num) and q.fl in ("pyi", "npi")):
            raise_("TypeError", "bad operand type for unary ~: 'float'")
        return I.unop_scalar("Invert", q)
    f = inv if op == "Invert" else (lambda q: NAN if is_nan(q) else I.unop_scalar(op, q))
    if isinstance(v, Ser):
        if v.ext is not None:
            return Unknown("unary operation on an extension series")
        if v.dtype == "bool" and op == "USub":
            raise_("TypeError", "The numpy boolean negative, the `-` operator, is not supported")
        return Ser(v.idx, cells([hmap(f, x) for x in v.vals]), v.dtype, v.name)
    if isinstance(v, Arr):
        return Arr(cells([hmap(f, x) for x in v.vals]), v.dtype)
    if isinstance(v, Idx):
        return Idx([hmap(f, x) for x in v.vals], v.dtype, v.name)
    if isinstance(v, Arr2):
        return Arr2([[Cell(hmap(f, c.v)) for c in r] for r in v.rows], v.dtype)
    if isinstance(v, DF):
        return DF(v.idx, {c: (cells([hmap(f, q.v) for q in cs]), d) for c, (cs, d) in v.cols.items()})
    return None


def vec_contains(I, cont, x):
    if isinstance(cont, Ser):
        return find_label(I, cont.idx.vals, x) is not None
    if isinstance(cont, DF):
        return x in cont.cols if isinstance(x, (str, int)) or x is None else False
    if isinstance(cont, Idx):
        return find_label(I, cont.vals, x) is not None
    if isinstance(cont, Arr):
        for v in cont.vals:
            if isinstance(v, H):
                raise U("membership in a run")
            if I.truth(I.compare("==", v, x)):
                return True
        return False
    return Unknown("membership")


def vec_truth(I, v):
    if isinstance(v, (Arr, Idx, Ser)):
        vals = v.vals
        if isinstance(v, Arr):
            if len(vals) == 1 and not anyH(vals):
                return True if is_nan(vals[0]) else I.truth(vals[0])
            if not vals:
                return False
        raise_("ValueError", f"The truth value of a {type(v).__name__} is ambiguous")
    if isinstance(v, (DF, Arr2)):
        raise_("ValueError", "The truth value is ambiguous")
    if v is NA:
        raise_("TypeError", "boolean value of NA is ambiguous")
    if isinstance(v, H):
        raise HoleDecision("branch")
    return True


def vec_iterate(I, v):
    if isinstance(v, Ser):
        return [iter_scalar(x, v.dtype) for x in v.vals]
    if isinstance(v, Idx):
        return [iter_scalar(x, v.dtype) for x in v.vals]
    if isinstance(v, Arr):
        return [out_scalar(x, v.dtype, False) for x in v.vals]
    if isinstance(v, Arr2):
        return [Arr(r, v.dtype) for r in v.rows]
    if isinstance(v, DF):
        return [cn_out(c) for c in v.cols]
    if isinstance(v, GroupBy):
        return [(k, Ser(range_index(r), cells(r), v.s.dtype)) for k, r in groups(I, v)]
    if isinstance(v, Doc):
        raise U("iteration over documentation")
    if isinstance(v, (ExtFunc, ExtClass, ExtMod)) and v is not NA:
        raise U(f"iteration over {v!r}")
    raise_("TypeError", f"'{I.tname(v)}' object is not iterable")


def inplace(I, sym, cur_, v):
    if isinstance(cur_, Ser):
        r = I.binop(sym, cur_, v)
        if isinstance(r, Unknown):
            return r
        if not same_index(I, r.idx, cur_.idx):
            r = reindex(I, r, cur_.idx)
        r.idx = cur_.idx
        inplace_done(I, cur_, r, True)
        return cur_
    if isinstance(cur_, Arr):
        r = I.binop(sym, cur_, v)
        if isinstance(r, Unknown):
            return r
        if not isinstance(r, Arr) or len(r.cells) != len(cur_.cells):
            raise_("ValueError", "non-broadcastable output operand")
        if r.dtype != cur_.dtype and not (cur_.dtype == "float" and r.dtype in ("int", "bool")):
            raise_("TypeError", f"Cannot cast ufunc output from dtype {r.dtype} to {cur_.dtype}")
        I.touch(cur_)
        for a, b in zip(cur_.cells, r.cells):
            a.v = b.v
        return cur_
    if isinstance(cur_, DF):
        r = I.binop(sym, cur_, v)
        if isinstance(r, Unknown):
            return r
        cur_.cols, cur_.cache = r.cols, {}
        return cur_
    return None


# ---------------------------------------------------------------- attributes

CMPN = {v: k for k, v in CMPD.items()}
ARITHN = {"__add__": "+", "__sub__": "-", "__mul__": "*", "__truediv__": "/", "__and__": "&", "__or__": "|", "__xor__": "^",
          "__radd__": "r+", "__rsub__": "r-", "__rmul__": "r*", "__rtruediv__": "r/", "__rand__": "r&", "__ror__": "r|", "__rxor__": "r^"}


def is_pyint(v):
    return v.fl == "pyi" if isinstance(v, Num) else isinstance(v, int)


def scalar_dunder(I, o, name):
    if name in CMPN:
        op = CMPN[name]

        def f(I, x):
            if isinstance(o, Num) and o.fl in ("np", "npi", "0d") or is0d(o) or is_vec(o):
                return I.compare(op, o, x)
            if not is_number(x):
                return NOTIMPL
            if isinstance(x, Num) and x.fl == "npi" or is_pyint(o) and not is_pyint(x):
                return NOTIMPL      # a Python float knows int and float (np.float64 is one), a Python int only int
            return I.scalar_compare(op, o, x)
        return ExtFunc(f"scalar.{name}", f)
    if name in ARITHN:
        s = ARITHN[name]

        def g(I, x):
            if is_vec(x) and not is_vec(o):
                return NOTIMPL
            return I.binop(s[1:], x, o) if s[0] == "r" else I.binop(s, o, x)
        return ExtFunc(f"scalar.{name}", g)
    return None


def ext_getattr(I, o, name):
    if isinstance(o, (Ser, Idx, DF)):
        d = scalar_dunder(I, o, name)
        if d is not None:
            return d
        if name in ("__len__", "__iter__", "__getitem__", "__contains__", "__setitem__"):
            return _proto(o, name)
        return ext_getattr_vec(I, o, name)
    if isinstance(o, (Arr, Arr2)):
        d = scalar_dunder(I, o, name)
        if d is not None:
            return d
        if name in ("__len__", "__iter__", "__getitem__", "__contains__", "__setitem__"):
            return _proto(o, name)
        return npm.arr_getattr(I, o, name)
    if isinstance(o, ExtMod):
        return ext_attr_path(o.name, name)
    if isinstance(o, ExtClass):
        if name in o.attrs:
            return o.attrs[name]
        if name in ("__name__", "__qualname__"):
            return o.name.split(".")[-1]
        if name == "__doc__":
            return ""
        if name in EXC_BASES or o.name in EXC_BASES:
            raise_("AttributeError", name)
        return Unknown(f"{o.name}.{name}")
    if isinstance(o, ExtFunc):
        if o is NA:
            return missing("NA", name, "NAType")
        if name in ("__name__", "__qualname__"):
            return o.name.split(".")[-1]
        if name == "__doc__":
            return ""
        if name == "__module__":
            return o.name.split(".")[0]
        at = getattr(o, "attrs", None)
        if at and name in at:
            return at[name]
        r = npm.ufunc_attr(I, o, name) if o.name.startswith("numpy.") else None
        if r is not None:
            return r
        if o.name.startswith("numpy."):
            return Unknown(f"{o.name}.{name}")
        return missing("function", name, o.name)
    if isinstance(o, PyList):
        return meth(LIST, o, name, "list")
    if isinstance(o, PyDict):
        return meth(DICT, o, name, "dict")
    if isinstance(o, PySet):
        return meth(SET, o, name, "set")
    if isinstance(o, tuple):
        return meth(TUP, o, name, "tuple")
    if isinstance(o, str):
        return meth(STR, o, name, "str")
    if isinstance(o, PyIter):
        if name == "__next__":
            return ExtFunc("next", lambda I: BUILTINS["next"].fn(I, o))
        if name == "__iter__":
            return ExtFunc("iter", lambda I: o)
        if name in ("send", "throw", "close"):
            return Unknown("generator protocol")
        return missing("iter", name, "generator")
    if isinstance(o, Prop):
        if name == "setter":
            return ExtFunc("property.setter", lambda I, f: Prop(o.fget, f))
        if name == "getter":
            return ExtFunc("property.getter", lambda I, f: Prop(f, o.fset))
        if name == "fget":
            return o.fget
        if name == "fset":
            return o.fset
        if name == "__doc__":
            return ""
        return Unknown(f"property.{name}")
    if isinstance(o, (StaticM, ClassM)):
        if name == "__func__":
            return o.f
        return I.getattr(o.f, name)
    if isinstance(o, CachedProp):
        if name == "func":
            return o.f
        return Unknown(f"cached_property.{name}")
    if isinstance(o, Partial):
        if name == "func":
            return o.fn
        if name == "args":
            return tuple(o.args)
        if name == "keywords":
            return PyDict({I.hkey(k): (k, v) for k, v in o.kw.items()})
        return missing("partial", name, "partial")
    if isinstance(o, Exc):
        if name == "args":
            return tuple(o.args)
        if name == "__class__":
            return BUILTINS.get(o.name)
        return Unknown(f"exception.{name}")
    if isinstance(o, DtypeObj):
        if name == "name":
            return {"float": "float64", "int": "int64", "M8": "datetime64[ns]", "m8": "timedelta64[ns]", "M8tz": "datetime64[ns, tz]"}.get(o.name, o.name)
        if name == "kind":
            return {"float": "f", "int": "i", "bool": "b", "object": "O", "M8": "M", "m8": "m", "M8tz": "M", "interval": "O"}.get(o.name, "O")
        if name == "type":
            return ext_attr_path("numpy", {"float": "float64", "int": "int64", "bool": "bool_"}.get(o.name, "object_"))
        return Unknown(f"dtype.{name}")
    if isinstance(o, Per):
        if name == "start_time":
            return o.left
        if name == "end_time":
            return per_end(o)
        return Unknown(f"Period.{name}")
    if isinstance(o, Iv):
        if name in ("left", "right", "closed"):
            return getattr(o, name)
        if name == "length":
            return I.scalar_binop("-", o.right, o.left)
        if name == "mid":
            return I.scalar_binop("/", I.scalar_binop("+", o.left, o.right), 2)
        if name in ("closed_left", "open_right", "closed_right", "open_left"):
            return {"closed_left": o.closed in ("left", "both"), "closed_right": o.closed in ("right", "both"),
                    "open_left": o.closed not in ("left", "both"), "open_right": o.closed not in ("right", "both")}[name]
        return Unknown(f"Interval.{name}")
    if isinstance(o, Indexer):
        if name in ("obj",):
            return o.o
        return Unknown(f"indexer.{name}")
    if isinstance(o, GroupBy):
        return group_method(I, o, name)
    if isinstance(o, PySlice):
        if name in ("start", "stop", "step"):
            return {"start": o.a, "stop": o.b, "step": o.c}[name]
        return missing("slice", name, "slice")
    if isinstance(o, Lab):
        return lab_getattr(I, o, name)
    if is_number(o):
        return num_getattr(I, o, name)
    if isinstance(o, NullCM):
        if name == "__enter__":
            return ExtFunc("enter", lambda I: PyList([]))
        if name == "__exit__":
            return ExtFunc("exit", lambda I, *a: False)
    if isinstance(o, TopH):
        return Unknown("attribute of a generic member of a run")
    if o is None:
        return missing("none", name, "NoneType")
    return Unknown(f"{name} of {I.tname(o)}")


def _proto(o, name):
    return ExtFunc(name, {"__len__": lambda I: py_len(I, o), "__iter__": lambda I: PyIter(I.iterate(o)),
                          "__getitem__": lambda I, k: I.getitem(o, k), "__contains__": lambda I, k: I.contains(o, k),
                          "__setitem__": lambda I, k, v: I.setitem(o, k, v)}[name])


def meth(table, o, name, tn):
    f = table.get(name)
    if f is not None:
        return Bound(f, o)
    if name in ("__len__", "__iter__", "__getitem__", "__contains__", "__setitem__"):
        return _proto(o, name)
    if name == "__class__":
        return BUILTINS[tn]
    return missing(tn, name, tn)


def missing(key, name, tn):
    """an attribute there is no model of: AttributeError only where the type really lacks it"""
    if name in ATTRS[key]:
        return Unknown(f"{tn}.{name}")
    raise_("AttributeError", f"'{tn}' object has no attribute '{name}'")


def lab_getattr(I, o, name):
    d = scalar_dunder(I, o, name)
    if d is not None:
        return ExtFunc("label." + name, lambda I, x: I.compare(CMPN[name], o, x)) if name in CMPN else d
    if name in ("tz", "tzinfo"):
        return o.tz if o.kind == "ts" and o.flav != "np" else _nope(o, name)
    if name in ("value", "_value", "asi8"):
        return Num(o.x.n, o.x.d, "pyi")
    if name in ("to_pydatetime", "to_pytimedelta", "to_timestamp", "as_unit"):
        return ExtFunc(name, lambda I, *a, **k: Lab(o.kind, o.x, o.tz, "pd"))
    if name in ("to_numpy", "to_datetime64", "to_timedelta64"):
        return ExtFunc(name, lambda I, *a, **k: Lab(o.kind, o.x, None, "np"))
    if name == "asm8":
        return Lab(o.kind, o.x, None, "np")
    if name == "total_seconds" and o.kind == "td":
        return ExtFunc(name, lambda I: I.scalar_binop("/", Num(o.x.n, o.x.d, "py"), 10 ** 9))
    if name == "tz_localize":
        return ExtFunc(name, lambda I, tz, *a, **k: Lab("ts", o.x, tz, o.flav))
    if name == "tz_convert":
        def conv_(I, tz):
            if o.tz is None:
                raise_("TypeError", "Cannot convert tz-naive Timestamp")
            return Lab("ts", o.x, tz, o.flav)
        return ExtFunc(name, conv_)
    if name == "__class__":
        return PANDAS["Timestamp" if o.kind == "ts" else "Timedelta"]
    return _nope(o, name)


def _nope(o, name):
    fl = o.flav if o.flav in ("np", "py") else "pd"
    return missing(fl + o.kind, name, {"ts": "Timestamp", "td": "Timedelta"}[o.kind] if fl == "pd" else fl + o.kind)


def num_getattr(I, o, name):
    d = scalar_dunder(I, o, name)
    if d is not None:
        return d
    npish = isinstance(o, Num) and o.fl in ("np", "npi", "float", "0d") or isinstance(o, (bool, float))
    if npish:
        if name in ("any", "all"):
            return ExtFunc(name, lambda I, *a, **k: True if is_nan(o) else I.truth(o))
        if name in ("item", "tolist"):
            return ExtFunc(name, lambda I: iter_scalar(o, "float" if not isinstance(o, bool) else "bool"))
        if name in ("sum", "mean", "min", "max", "copy", "squeeze", "cumsum"):
            return ExtFunc(name, lambda I, *a, **k: o)
        if name == "dtype":
            return DtypeObj(scalar_dtype(o))
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name == "astype":
            return ExtFunc(name, lambda I, t, *a, **k: cast(I, [o], scalar_dtype(o), parse_dtype(t))[0])
        if name == "round":
            return ExtFunc(name, lambda I, n=0: fn_round(o, n))
    if name == "is_integer":
        def isint(I):
            if isinstance(o, Num) and not o.is_const():
                return Unknown("integrality")
            return (o.const().denominator == 1) if isinstance(o, Num) else (fin(o) and float(o).is_integer())
        return ExtFunc(name, isint)
    if name == "real":
        return o
    if name == "imag":
        return 0
    if name == "__class__":
        return BUILTINS["bool" if isinstance(o, bool) else "int" if scalar_dtype(o) == "int" else "float"]
    if name == "__hash__":
        return ExtFunc(name, lambda I: Unknown("hash"))
    if name == "__neg__":
        return ExtFunc(name, lambda I: I.unop_scalar("USub", o))
    if name in ("__bool__",):
        return ExtFunc(name, lambda I: I.truth(o))
    dt = scalar_dtype(o)
    key = "npbool" if isinstance(o, bool) else ("npint" if npish else "int") if dt == "int" else "npfloat" if npish else "float"
    return missing(key, name, key)


def ext_setattr(I, o, name, v):
    if isinstance(o, Ser):
        I.touch(o)
        if name == "name":
            o.name = v
            return
        if name == "index":
            idx = mk_index(I, v)
            if len(idx.vals) != len(o.cells):
                raise_("ValueError", "Length mismatch: Expected axis has different number of elements")
            pairup(idx.vals, o.vals)
            o.idx = idx
            return
        if name in ("attrs", "_name"):
            return
        raise U(f"assignment to Series.{name}")
    if isinstance(o, Idx):
        if name in ("name",):
            o.name = v
            return
        if name in ("names",):
            return
        raise U(f"assignment to Index.{name}")
    if isinstance(o, DF):
        I.touch(o)
        if name == "columns":
            names = I.iterate(v)
            if len(names) != len(o.cols):
                raise_("ValueError", "Length mismatch")
            o.cols = {_pdm._cn(n): c for n, c in zip(names, o.cols.values())}
            o.cache = {}
            return
        if name == "index":
            idx = mk_index(I, v)
            if len(idx.vals) != len(o.idx.vals):
                raise_("ValueError", "Length mismatch")
            o.idx = idx
            o.cache = {}
            return
        if name in o.cols:
            frame_setcol(I, o, name, v)
            return
        raise U(f"assignment to DataFrame.{name}")
    if isinstance(o, (CachedProp, Prop, NullCM, Exc, Partial)):
        return
    if o is None or isinstance(o, (str, tuple, PyList, PyDict, PySet)) or is_number(o):
        raise_("AttributeError", f"object has no attribute '{name}'")
    raise U(f"assignment to attribute {name} of {o!r}")


def ext_getitem(I, o, k):
    if isinstance(o, Ser):
        if o.ext is not None:
            if isinstance(k, PySlice) or is_listlike(k):
                return Unknown("selection from an extension series")
            return ser_getitem(I, o, k)
        return ser_getitem(I, o, k)
    if isinstance(o, Indexer):
        s = o.o
        if isinstance(s, Ser):
            if o.kind in ("loc", "at"):
                if isinstance(k, tuple) and len(k) == 1:
                    k = k[0]
                return ser_loc(I, s, k)
            return ser_iloc(I, s, k)
        return frame_sel(I, s, k, "loc" if o.kind in ("loc", "at") else "iloc")
    if isinstance(o, (Arr, Arr2)):
        return npm.arr_getitem(I, o, k)
    if isinstance(o, Idx):
        return idx_getitem(I, o, k)
    if isinstance(o, DF):
        return frame_getitem(I, o, k)
    if isinstance(o, (ExtFunc,)) and o is not NA:
        return Unknown(f"item of {o.name}")
    if isinstance(o, (Bound, UFunc, GroupBy)):
        return Unknown("subscript")
    raise_("TypeError", f"'{I.tname(o)}' object is not subscriptable")


def ext_setitem(I, o, k, v):
    if isinstance(v, Unknown):
        raise U(v.reason)
    if isinstance(k, Unknown):
        raise U(k.reason)
    if isinstance(o, Ser):
        return ser_set(I, o, k, v, "set")
    if isinstance(o, Indexer):
        if isinstance(o.o, Ser):
            return ser_set(I, o.o, k, v, o.kind if o.kind != "at" else "loc")
        return frame_set(I, o.o, k, v, "loc" if o.kind in ("loc", "at") else "iloc")
    if isinstance(o, (Arr, Arr2)):
        return npm.arr_setitem(I, o, k, v)
    if isinstance(o, DF):
        if is_boolvec(I, k):
            return frame_set(I, o, k, v, "loc")
        if isinstance(k, (str, int)) or k is None:
            return frame_setcol(I, o, k, v)
        if isinstance(k, PyList) and isinstance(v, DF):
            for n, c in zip(k.v, v.cols):
                frame_setcol(I, o, n, col(v, c))
            return
        raise U("frame assignment")
    if isinstance(o, Idx):
        raise_("TypeError", "Index does not support mutable operations")
    raise_("TypeError", f"'{I.tname(o)}' object does not support item assignment")


def ext_delitem(I, o, k):
    if isinstance(o, Ser):
        j = find_label(I, o.idx.vals, k)
        if j is None:
            raise_("KeyError", k)
        inplace_done(I, o, ser_take(o, [q for q in range(len(o.cells)) if q != j]), True)
        return
    if isinstance(o, DF):
        if k not in o.cols:
            raise_("KeyError", k)
        I.touch(o)
        del o.cols[k]
        o.cache.pop(k, None)
        return
    raise U("del item")


def ext_isinstance(I, v, t):
    n = getattr(t, "name", None)
    if not isinstance(t, (ExtClass, ExtFunc)):
        if isinstance(t, PyList):
            raise_("TypeError", "isinstance() arg 2 must be a type")
        return Unknown("isinstance")
    if n in ("builtins.type",):
        return isinstance(v, (UClass, ExtClass))
    if n == "object":
        return True
    if isinstance(v, Exc):
        k = v.name
        while k is not None:
            if k == n:
                return True
            k = EXC_BASES.get(k)
        return False
    if isinstance(v, Inst):
        if n in ("Iterable", "collections.abc.Iterable"):
            return v.cls.lookup("__iter__") is not None
        if n in ("Callable", "collections.abc.Callable"):
            return v.cls.lookup("__call__") is not None
        if n in ("Hashable", "collections.abc.Hashable"):
            return True
        if n in ("Sized", "collections.abc.Sized"):
            return v.cls.lookup("__len__") is not None
        for b in v.cls.ext_bases():
            k = b.name
            while k is not None:
                if k == n:
                    return True
                k = EXC_BASES.get(k)
        if any(b.name == "unknown-base" for b in v.cls.ext_bases()):
            return Unknown("isinstance")
        return False
    if isinstance(v, TopH):
        raise HoleDecision("isinstance")
    sd = None
    num_ = is_number(v)
    isb = isinstance(v, bool)
    isint = num_ and not isb and scalar_dtype(v) == "int"
    npint = isinstance(v, Num) and v.fl == "npi"
    table = {
        "bool": isb, "int": (isb or (isint and not npint)), "float": num_ and not isb and not isint and not is0d(v),
        "str": isinstance(v, str), "list": isinstance(v, PyList), "tuple": isinstance(v, tuple), "dict": isinstance(v, PyDict),
        "set": isinstance(v, PySet), "frozenset": False, "slice": isinstance(v, PySlice), "complex": False, "bytes": False,
        "property": isinstance(v, Prop), "classmethod": isinstance(v, ClassM), "staticmethod": isinstance(v, StaticM),
        "NoneType": v is None, "range": False,
        "numbers.Number": num_ and not is0d(v), "numbers.Real": num_ and not is0d(v), "numbers.Complex": num_ and not is0d(v), "numbers.Integral": isb or isint, "numbers.Rational": isb or isint,
        "pandas.Series": isinstance(v, Ser), "pandas.DataFrame": isinstance(v, DF), "pandas.Index": isinstance(v, Idx),
        "pandas.IntervalIndex": isinstance(v, Idx) and v.dtype == "interval",
        "pandas.DatetimeIndex": isinstance(v, Idx) and v.dtype == "M8",
        "pandas.TimedeltaIndex": isinstance(v, Idx) and v.dtype == "m8",
        "pandas.PeriodIndex": isinstance(v, Idx) and v.dtype == "period", "pandas.MultiIndex": False, "pandas.RangeIndex": False, "pandas.CategoricalIndex": False,
        "pandas.Timestamp": isinstance(v, Lab) and v.kind == "ts" and v.flav == "pd",
        "pandas.Timedelta": isinstance(v, Lab) and v.kind == "td" and v.flav == "pd",
        "pandas.Interval": isinstance(v, Iv) and not isinstance(v, Per), "pandas.Period": isinstance(v, Per),
        "datetime.datetime": isinstance(v, Lab) and v.kind == "ts" and v.flav == "pd",
        "datetime.date": isinstance(v, Lab) and v.kind == "ts" and v.flav == "pd",
        "datetime.timedelta": isinstance(v, Lab) and v.kind == "td" and v.flav == "pd",
        "numpy.datetime64": isinstance(v, Lab) and v.kind == "ts" and v.flav == "np",
        "numpy.timedelta64": isinstance(v, Lab) and v.kind == "td" and v.flav == "np",
        "numpy.ndarray": isinstance(v, (Arr, Arr2)) or is0d(v),
        "numpy.number": isinstance(v, Num) and v.fl in ("np", "npi", "float"),
        "numpy.generic": isinstance(v, Num) and v.fl in ("np", "npi", "float"),
        "numpy.integer": npint, "numpy.int64": npint,
        "numpy.floating": isinstance(v, Num) and v.fl in ("np", "float"), "numpy.float64": isinstance(v, Num) and v.fl in ("np", "float"),
        "numpy.bool_": False,
        "pandas.ExtensionArray": False, "pandas.ExtensionDtype": False,
    }
    if n in table:
        if n in ("bool", "numpy.bool_") and isb:
            return Unknown("python or numpy bool") if n == "numpy.bool_" else True
        if is_nan(v) and n in ("pandas.Timestamp", "pandas.Timedelta"):
            return False
        return table[n]
    base = n.split(".")[-1] if n else ""
    if base in ("Iterable", "Collection"):
        return is_listlike(v) or isinstance(v, (str, PyIter, GroupBy))
    if base == "Sized":
        return is_listlike(v) or isinstance(v, str)
    if base in ("Sequence", "MutableSequence"):
        return isinstance(v, (tuple, PyList, str))
    if base in ("Mapping", "MutableMapping"):
        return isinstance(v, PyDict)
    if base == "Callable":
        return isinstance(v, (UFunc, Bound, ExtFunc, Partial, UClass, ExtClass))
    if base == "Hashable":
        return not isinstance(v, (PyList, PyDict, PySet)) and not is_vec(v)
    if n in EXC_BASES or n == "BaseException":
        return False
    if base in ("FunctionType", "LambdaType"):
        return isinstance(v, UFunc)
    if base == "MethodType":
        return isinstance(v, Bound)
    if base == "ModuleType":
        return isinstance(v, (Module, ExtMod))
    return Unknown(f"isinstance of {n}")


# ---------------------------------------------------------------- builtins

def bclass(name, fn=None, attrs=None):
    c = ExtClass(name, fn, attrs)
    BUILTINS[name] = c
    return c


for _e in list(EXC_BASES) + ["BaseException"]:
    BUILTINS[_e] = ExtClass(_e)
BUILTINS["NotImplemented"] = NOTIMPL
BUILTINS["Ellipsis"] = ELLIPSIS
BUILTINS["True"], BUILTINS["False"], BUILTINS["None"] = True, False, None
BUILTINS["__name__"] = "builtins"
BUILTINS["locals"] = ExtFunc("builtins.locals", lambda I: Unknown("locals"))
BUILTINS["globals"] = ExtFunc("builtins.globals", lambda I: Unknown("globals"))
BUILTINS["object"] = ExtClass("object", lambda I, *a: Sentinel(), {
    "__new__": ExtFunc("object.__new__", lambda I, c, *a, **k: Inst(c, {}, I.epoch())),
    "__init__": ExtFunc("object.__init__", lambda I, *a, **k: None),
    "__setattr__": ExtFunc("object.__setattr__", lambda I, o, n, v: I.setattr_raw(o, n, v)),
    "__eq__": ExtFunc("object.__eq__", lambda I, a, b: True if a is b else NOTIMPL),
    "__hash__": ExtFunc("object.__hash__", lambda I, a: Unknown("hash")),
})


class Sentinel:
    pass


def py_len(I, x):
    if isinstance(x, (tuple, str)):
        if isinstance(x, tuple) and anyH(x):
            return vlen(x)
        return len(x)
    if isinstance(x, PyList):
        return vlen(x.v) if anyH(x.v) else len(x.v)
    if isinstance(x, PyDict):
        return len(x.d)
    if isinstance(x, PySet):
        return len(x.v)
    if isinstance(x, (Ser, Arr, Idx)):
        return vlen(x.vals)
    if isinstance(x, DF):
        return vlen(x.idx.vals)
    if isinstance(x, Arr2):
        return len(x.rows)
    if isinstance(x, Inst):
        f = x.cls.lookup("__len__")
        if f is not None:
            return I.call(Bound(f, x), [], {})
    if isinstance(x, GroupBy):
        return len(groups(I, x))
    raise_("TypeError", f"object of type '{I.tname(x)}' has no len()")


bf("len")(lambda I, x: py_len(I, x))


@bf("print")
def _(I, *a, **k):
    return None


@bf("id")
def _(I, x):
    return Unknown("id")


@bf("repr", "ascii", "format", "hex", "bin", "chr", "ord")
def _(I, *a, **k):
    return Unknown("text")


@bf("hash")
def _(I, x):
    I.hkey(x)
    return Unknown("hash")


@bf("isinstance")
def _(I, v, t):
    return I.isinstance_(v, t)


@bf("issubclass")
def _(I, c, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(c, UClass):
        return any(x in c.mro or getattr(x, "name", None) == "object" for x in ts)
    if isinstance(c, ExtClass):
        for x in ts:
            k = c.name
            while k is not None:
                if k == getattr(x, "name", None):
                    return True
                k = EXC_BASES.get(k)
        if c.name in EXC_BASES:
            return False
        return any(x is c for x in ts) or Unknown("issubclass")
    raise_("TypeError", "issubclass() arg 1 must be a class")


@bf("callable")
def _(I, x):
    return isinstance(x, (UFunc, Bound, UClass, ExtClass, Partial)) or (isinstance(x, ExtFunc) and x not in (NA, NOTIMPL, ELLIPSIS)) or (isinstance(x, Inst) and x.cls.lookup("__call__") is not None)


@bf("getattr")
def _(I, o, name, *d):
    if not isinstance(name, str):
        raise U("getattr with an abstract name")
    return I.getattr(o, name, *d)


@bf("hasattr")
def _(I, o, name):
    r = I.getattr(o, name, NOTIMPL)
    if isinstance(r, Unknown):
        return Unknown(f"hasattr {name}")
    return r is not NOTIMPL


@bf("setattr")
def _(I, o, name, v):
    I.setattr(o, name, v)


@bf("delattr")
def _(I, o, name):
    if isinstance(o, Inst):
        if name not in o.d:
            raise_("AttributeError", name)
        I.touch(o)
        del o.d[name]
        return
    raise U("delattr")


@bf("vars")
def _(I, o):
    return I.getattr(o, "__dict__")


@bf("dir")
def _(I, *a):
    return Unknown("dir")


@bf("iter")
def _(I, x, *a):
    if a:
        return Unknown("iter sentinel")
    return x if isinstance(x, PyIter) else PyIter(I.iterate(x))


@bf("next")
def _(I, it, *d):
    if isinstance(it, PyIter):
        if it.i < len(it.items):
            v = it.items[it.i]
            if isinstance(v, H):
                raise U("next over a run")
            it.i += 1
            return v
        if d:
            return d[0]
        raise_("StopIteration")
    if isinstance(it, Inst):
        f = it.cls.lookup("__next__")
        if f is not None:
            return I.call(Bound(f, it), [], {})
    raise_("TypeError", "object is not an iterator")


@bf("enumerate")
def _(I, x, start=0):
    items = I.iterate(x)
    if anyH(items):
        raise U("enumeration of a run")
    return PyIter([(i + start, v) for i, v in enumerate(items)])


@bf("zip")
def _(I, *xs, strict=False):
    lists = [I.iterate(x) for x in xs]
    if not lists:
        return PyIter([])
    if any(anyH(l) for l in lists):
        # aligned runs stay aligned; the shortest list ends the iteration
        out = []
        for q in zip(*lists):
            hs = [v for v in q if isinstance(v, H)]
            if hs and (len(hs) != len(q) or len({v.hid for v in hs}) != 1):
                raise U("runs not aligned in zip")
            out.append(H(hs[0].hid, tuple(v.val for v in q)) if hs else tuple(q))
        return PyIter(out)
    return PyIter([tuple(q) for q in zip(*lists)])


@bf("reversed")
def _(I, x):
    items = I.iterate(x)
    if anyH(items):
        raise U("reversed run")
    return PyIter(items[::-1])


@bf("map")
def _(I, f, *xs):
    if len(xs) == 1:
        return PyIter([hmap(lambda q: I.call(f, [q], {}), v) for v in I.iterate(xs[0])])
    return PyIter([hmap(lambda *q: I.call(f, list(q), {}), *v) for v in zip(*[I.iterate(x) for x in xs])])


@bf("filter")
def _(I, f, x):
    out = []
    for v in I.iterate(x):
        if isinstance(v, H):
            raise U("filter over a run")
        if I.truth(v if f is None else I.call(f, [v], {})):
            out.append(v)
    return PyIter(out)


def py_lt(I, a, b):
    return I.truth(I.compare("<", a, b))


@bf("sorted")
def py_sorted(I, x, key=None, reverse=False):
    items = I.iterate(x)
    keys = [v if key is None else (hmap(lambda q: I.call(key, [q], {}), v)) for v in items]
    if anyH(keys):
        if I.truth(reverse):
            raise U("reverse sort of a run")
        js = sort_entries(I, list(range(len(items))), key=lambda j: keys[j])
        return PyList([items[j] for j in js], I.epoch())
    out = []
    rev = I.truth(reverse)
    for j in range(len(items)):
        i = len(out)
        while i > 0 and (py_lt(I, keys[out[i - 1]], keys[j]) if rev else py_lt(I, keys[j], keys[out[i - 1]])):
            i -= 1
        out.insert(i, j)
    return PyList([items[j] for j in out], I.epoch())


def _minmax(big):
    def f(I, *a, key=None, default=NOTIMPL):
        items = I.iterate(a[0]) if len(a) == 1 else list(a)
        if anyH(items):
            raise U("extremum over a run")
        if not items:
            if default is not NOTIMPL:
                return default
            raise_("ValueError", "max() arg is an empty sequence")
        best = items[0]
        kb = I.call(key, [best], {}) if key is not None else best
        for v in items[1:]:
            kv = I.call(key, [v], {}) if key is not None else v
            c = I.compare(">" if big else "<", kv, kb)
            if I.truth(c):
                best, kb = v, kv
        return best
    return f


bf("max")(_minmax(True))
bf("min")(_minmax(False))


@bf("sum")
def _(I, x, start=0):
    acc = start
    for v in I.iterate(x):
        if isinstance(v, H):
            v = vsum(I, [v])
        acc = I.binop("+", acc, v)
    return acc


@bf("any")
def _(I, x):
    return red_any_py(I, I.iterate(x), True)


@bf("all")
def _(I, x):
    return not red_any_py(I, I.iterate(x), False)


def red_any_py(I, items, want):
    undec = False
    for v in items:
        g = hval(v)
        if isinstance(g, (TopH, Unknown)):
            undec = True
            continue
        if I.truth(g) == want:
            return True
    if undec:
        raise U("any/all over a summarised run")
    return False


@bf("abs")
def _(I, x):
    if is_vec(x):
        return npm.NP["abs"].fn(I, x)
    if isinstance(x, Inst):
        f = x.cls.lookup("__abs__")
        if f is None:
            raise_("TypeError", "bad operand type for abs()")
        return I.call(Bound(f, x), [], {})
    return abs_(I, x)


@bf("round")
def _(I, x, n=None):
    if is_vec(x):
        return Unknown("round")
    if n is None:
        if isinstance(x, int):
            return x
        return Unknown("round")
    return fn_round(x, n)


@bf("divmod")
def _(I, a, b):
    return (I.binop("//", a, b), I.binop("%", a, b))


@bf("pow")
def _(I, a, b, *m):
    return I.binop("**", a, b)


@bf("__import__", "open", "input", "eval", "exec", "compile", "memoryview")
def _(I, *a, **k):
    return Unknown("builtin not modelled")


def c_int(I, x=0, *a):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Num):
        if x.is_const():
            return int(x.const())
        return x if x.fl in ("pyi", "npi") else fn_atom("int", x)
    if is_nan(x):
        raise_("ValueError", "cannot convert float NaN to integer")
    if is_inf(x):
        raise_("OverflowError", "cannot convert float infinity to integer")
    if isinstance(x, (int, float)):
        return int(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise_("ValueError", "invalid literal for int()")
    if isinstance(x, (Arr, Ser)):
        return c_int(I, npm.ARR["item"].fn(I, x))
    raise_("TypeError", "int() argument must be a string, a bytes-like object or a real number")


def c_float(I, x=0):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Num)):
        x = to_num(x)
        return Num(x.n, x.d, "py")
    if isinstance(x, float):
        return x
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            raise_("ValueError", "could not convert string to float")
    if isinstance(x, (Arr, Ser)):
        return c_float(I, npm.ARR["item"].fn(I, x))
    if x is None or isinstance(x, (Lab, Inst, PyList, tuple, PyDict)):
        if isinstance(x, Inst):
            f = x.cls.lookup("__float__")
            if f is not None:
                return I.call(Bound(f, x), [], {})
        raise_("TypeError", "float() argument must be a string or a real number")
    if isinstance(x, TopH):
        return x
    raise U("float()")


bclass("int", c_int)
bclass("float", c_float)
bclass("bool", lambda I, x=False: I.truth(x))
bclass("complex")
bclass("bytes")
bclass("str", lambda I, x="", *a: x if isinstance(x, str) else (str(x) if isinstance(x, (bool, int)) or x is None else Unknown("text")))
bclass("list", lambda I, x=(): PyList(list(I.iterate(x)), I.epoch()))
bclass("tuple", lambda I, x=(): tuple(I.iterate(x)))


def c_set(I, x=()):
    s = PySet({}, I.epoch())
    for v in I.iterate(x):
        if isinstance(v, H):
            raise U("set of a run")
        s.v.setdefault(I.hkey(v, s.v), v)
    return s


def c_dict(I, x=None, **kw):
    d = PyDict({}, I.epoch())
    if isinstance(x, PyDict):
        d.d.update(x.d)
    elif isinstance(x, Ser):
        return SER["to_dict"].fn(I, x)
    elif x is not None:
        for p in I.iterate(x):
            if isinstance(p, H):
                raise U("dict of a run")
            k, v = I.iterate(p)
            d.d[I.hkey(k, d.d)] = (k, v)
    for k, v in kw.items():
        d.d[I.hkey(k, d.d)] = (k, v)
    return d


bclass("set", c_set)
bclass("frozenset", c_set)
bclass("dict", c_dict, {"fromkeys": ExtFunc("dict.fromkeys", lambda I, ks, v=None: PyDict({h: (k, v) for h, k in c_set(I, ks).v.items()}, I.epoch()))})
bclass("range", lambda I, *a: PyList([int(x) for x in range(*[I.as_int(q) for q in a])], I.epoch()))
bclass("slice", lambda I, *a: PySlice(*( (None, a[0], None) if len(a) == 1 else tuple(a) + (None,) * (3 - len(a)))))
bclass("property", lambda I, fget=None, fset=None, fdel=None, doc=None: Prop(fget, fset))
bclass("staticmethod", lambda I, f: StaticM(f))
bclass("classmethod", lambda I, f: ClassM(f))


def c_super(I, cls=None, obj=None):
    if cls is None:
        raise U("super()")
    return SuperProxy(cls, obj)


bclass("super", c_super)


def c_type(I, x, *a):
    if a:
        raise U("dynamic class")
    if isinstance(x, (Inst, NTup)):
        return x.cls
    if isinstance(x, (UClass, ExtClass)):
        return BUILTINS["type"]
    if isinstance(x, bool):
        return BUILTINS["bool"]
    if isinstance(x, str):
        return BUILTINS["str"]
    if isinstance(x, PyList):
        return BUILTINS["list"]
    if isinstance(x, tuple):
        return BUILTINS["tuple"]
    if isinstance(x, PyDict):
        return BUILTINS["dict"]
    if isinstance(x, PySet):
        return BUILTINS["set"]
    if x is None:
        return NONETYPE
    if isinstance(x, Ser):
        return PANDAS["Series"]
    if isinstance(x, DF):
        return PANDAS["DataFrame"]
    if isinstance(x, (Arr, Arr2)):
        return NUMPY["ndarray"]
    if isinstance(x, Lab) and x.flav == "pd":
        return PANDAS["Timestamp" if x.kind == "ts" else "Timedelta"]
    if isinstance(x, Idx):
        return PANDAS[{"interval": "IntervalIndex", "M8": "DatetimeIndex", "m8": "TimedeltaIndex"}.get(x.dtype, "Index")]
    if isinstance(x, float):
        return BUILTINS["float"]
    if isinstance(x, int):
        return Unknown("type of a number")
    return Unknown("type")


NONETYPE = ExtClass("NoneType")
BUILTINS["type"] = ExtClass("builtins.type", c_type)


# ---------------------------------------------------------------- methods of builtin containers

LIST, DICT, SET, TUP, STR = {}, {}, {}, {}, {}


def mt(table, *names):
    def d(f):
        for n in names:
            table[n] = ExtFunc(f"method.{n}", f)
        return f
    return d


@mt(LIST, "append")
def _(I, l, x):
    I.touch(l)
    l.v.append(x)


@mt(LIST, "extend")
def _(I, l, x):
    I.touch(l)
    l.v.extend(I.iterate(x))


@mt(LIST, "insert")
def _(I, l, i, x):
    I.touch(l)
    l.v.insert(I.as_int(i), x)


@mt(LIST, "pop")
def _(I, l, i=-1):
    I.touch(l)
    if not l.v:
        raise_("IndexError", "pop from empty list")
    try:
        return l.v.pop(I.as_int(i))
    except IndexError:
        raise_("IndexError", "pop index out of range")


@mt(LIST, "remove")
def _(I, l, x):
    for j, y in enumerate(l.v):
        if y is x or I.truth(I.compare("==", y, x)):
            I.touch(l)
            del l.v[j]
            return
    raise_("ValueError", "list.remove(x): x not in list")


def seq_index(I, l, x, *a):
    for j, y in enumerate(I.iterate(l)):
        if isinstance(y, H):
            raise U("index in a run")
        if y is x or I.truth(I.compare("==", y, x)):
            return j
    raise_("ValueError", "x not in sequence")


def seq_count(I, l, x):
    return sum(1 for y in I.iterate(l) if y is x or I.truth(I.compare("==", y, x)))


for _t in (LIST, TUP):
    mt(_t, "index")(seq_index)
    mt(_t, "count")(seq_count)


@mt(LIST, "reverse")
def _(I, l):
    if anyH(l.v):
        raise U("reversed run")
    I.touch(l)
    l.v.reverse()


@mt(LIST, "sort")
def _(I, l, key=None, reverse=False):
    I.touch(l)
    l.v = py_sorted(I, l, key, reverse).v


@mt(LIST, "copy")
def _(I, l):
    return PyList(list(l.v), I.epoch())


@mt(LIST, "clear")
def _(I, l):
    I.touch(l)
    l.v.clear()


@mt(DICT, "get")
def _(I, d, k, default=None):
    e = d.d.get(I.hkey(k, d.d))
    return e[1] if e is not None else default


@mt(DICT, "keys")
def _(I, d):
    return PyList([k for k, _ in d.d.values()])


@mt(DICT, "values")
def _(I, d):
    return PyList([v for _, v in d.d.values()])


@mt(DICT, "items")
def _(I, d):
    return PyList([(k, v) for k, v in d.d.values()])


@mt(DICT, "pop")
def _(I, d, k, *default):
    h = I.hkey(k, d.d)
    if h in d.d:
        I.touch(d)
        return d.d.pop(h)[1]
    if default:
        return default[0]
    raise_("KeyError", k)


@mt(DICT, "popitem")
def _(I, d):
    if not d.d:
        raise_("KeyError", "popitem")
    I.touch(d)
    return d.d.popitem()[1]


@mt(DICT, "setdefault")
def _(I, d, k, default=None):
    h = I.hkey(k, d.d)
    if h not in d.d:
        I.touch(d)
        d.d[h] = (k, default)
    return d.d[h][1]


@mt(DICT, "update")
def _(I, d, x=None, **kw):
    I.touch(d)
    d.d.update(c_dict(I, x, **kw).d)


@mt(DICT, "copy")
def _(I, d):
    return PyDict(dict(d.d), I.epoch())


@mt(DICT, "clear")
def _(I, d):
    I.touch(d)
    d.d.clear()


@mt(SET, "add")
def _(I, s, x):
    I.touch(s)
    s.v.setdefault(I.hkey(x, s.v), x)


@mt(SET, "discard")
def _(I, s, x):
    I.touch(s)
    s.v.pop(I.hkey(x, s.v), None)


@mt(SET, "remove")
def _(I, s, x):
    I.touch(s)
    if s.v.pop(I.hkey(x, s.v), NOTIMPL) is NOTIMPL:
        raise_("KeyError", x)


@mt(SET, "pop")
def _(I, s):
    if not s.v:
        raise_("KeyError", "pop from an empty set")
    k = next(iter(s.v))
    return s.v.pop(k)


@mt(SET, "update")
def _(I, s, *xs):
    I.touch(s)
    for x in xs:
        I.set_update(s.v, c_set(I, x).v)


@mt(SET, "union")
def _(I, s, *xs):
    r = dict(s.v)
    for x in xs:
        I.set_update(r, c_set(I, x).v)
    return PySet(r, I.epoch())


@mt(SET, "intersection")
def _(I, s, *xs):
    r = dict(s.v)
    for x in xs:
        o = c_set(I, x).v
        r = {k: v for k, v in r.items() if I.in_set(v, o)}
    return PySet(r, I.epoch())


@mt(SET, "difference")
def _(I, s, *xs):
    r = dict(s.v)
    for x in xs:
        o = c_set(I, x).v
        r = {k: v for k, v in r.items() if not I.in_set(v, o)}
    return PySet(r, I.epoch())


@mt(SET, "issubset")
def _(I, s, x):
    o = c_set(I, x).v
    return all(I.in_set(k, o) for k in s.v.values())


@mt(SET, "issuperset")
def _(I, s, x):
    return all(I.in_set(k, s.v) for k in c_set(I, x).v.values())


@mt(SET, "isdisjoint")
def _(I, s, x):
    o = c_set(I, x).v
    return not any(I.in_set(k, o) for k in s.v.values())


@mt(SET, "copy")
def _(I, s):
    return PySet(dict(s.v), I.epoch())


@mt(STR, "format")
def _(I, s, *a, **k):
    if all(isinstance(x, (str, int)) for x in list(a) + list(k.values())):
        return s.format(*a, **k)
    return Unknown("text")


@mt(STR, "join")
def _(I, s, x):
    xs = I.iterate(x)
    if all(isinstance(q, str) for q in xs):
        return s.join(xs)
    return Unknown("text")


for _n in ("upper", "lower", "strip", "lstrip", "rstrip", "split", "startswith", "endswith", "replace", "title", "capitalize",
           "isdigit", "find", "count", "partition", "rsplit", "removeprefix", "removesuffix", "zfill", "ljust", "rjust", "isidentifier", "casefold", "index"):
    def _mks(n):
        def f(I, s, *a, **k):
            try:
                r = getattr(s, n)(*a, **k)
            except ValueError:
                raise_("ValueError")
            return PyList(list(r)) if isinstance(r, list) else r
        return f
    mt(STR, _n)(_mks(_n))


# ---------------------------------------------------------------- modules

MODS = {}


def fns(prefix, d):
    return {k: (v if isinstance(v, (ExtFunc, ExtClass)) or not callable(v) else ExtFunc(f"{prefix}.{k}", v)) for k, v in d.items()}


def opf(sym):
    return lambda I, a, b: I.binop(sym, a, b)


def cmpf(sym):
    return lambda I, a, b: I.compare(sym, a, b)


def attrgetter(I, *names):
    def one(I, o, n):
        for p in n.split("."):
            o = I.getattr(o, p)
        return o
    def f(I, o):
        r = [one(I, o, n) for n in names]
        return r[0] if len(r) == 1 else tuple(r)
    return ExtFunc("operator.attrgetter()", f)


def itemgetter(I, *ks):
    def f(I, o):
        r = [I.getitem(o, k) for k in ks]
        return r[0] if len(r) == 1 else tuple(r)
    return ExtFunc("operator.itemgetter()", f)


def methodcaller(I, name, *a, **k):
    return ExtFunc("operator.methodcaller()", lambda I, o: I.call(I.getattr(o, name), list(a), k))


MODS["operator"] = fns("operator", {
    "add": opf("+"), "sub": opf("-"), "mul": opf("*"), "truediv": opf("/"), "and_": opf("&"), "or_": opf("|"), "xor": opf("^"),
    "floordiv": opf("//"), "mod": opf("%"), "pow": opf("**"),
    "lt": cmpf("<"), "le": cmpf("<="), "gt": cmpf(">"), "ge": cmpf(">="), "eq": cmpf("=="), "ne": cmpf("!="),
    "neg": lambda I, a: I.unop("USub", a), "pos": lambda I, a: I.unop("UAdd", a), "invert": lambda I, a: I.unop("Invert", a),
    "inv": lambda I, a: I.unop("Invert", a), "not_": lambda I, a: not I.truth(a), "truth": lambda I, a: I.truth(a),
    "is_": lambda I, a, b: I.is_(a, b), "is_not": lambda I, a, b: not I.is_(a, b),
    "contains": lambda I, a, b: I.contains(a, b), "getitem": lambda I, a, b: I.getitem(a, b),
    "setitem": lambda I, a, b, c: I.setitem(a, b, c), "attrgetter": attrgetter, "itemgetter": itemgetter,
    "methodcaller": methodcaller, "abs": lambda I, a: BUILTINS["abs"].fn(I, a),
})
for _n in ("add", "sub", "mul", "truediv", "lt", "le", "gt", "ge", "eq", "ne", "neg", "invert"):
    MODS["operator"][f"__{_n}__"] = MODS["operator"][_n]


def set_fattr(w, f):
    if isinstance(w, UFunc) and isinstance(f, UFunc):
        w.attrs.setdefault("__name__", f.attrs.get("__name__", f.name))
        w.attrs.setdefault("__wrapped__", f)
    return w


def wraps(I, wrapped, *a, **k):
    return ExtFunc("functools.wraps()", lambda I, w: set_fattr(w, wrapped))


def lru_cache(I, maxsize=128, typed=False):
    def deco_(I, f):
        store = {}

        def g(I, *a, **k):
            key = (I.hkey(tuple(a)), tuple((n, I.hkey(v)) for n, v in sorted(k.items())))
            if key in store:
                return store[key]
            r = I.call(f, list(a), k)
            store[key] = r
            if not I.loading:
                I.dirty = True
            return r
        e = ExtFunc("functools.lru_cache()", g)
        e.attrs = {"cache_clear": ExtFunc("cache_clear", lambda I: store.clear()), "__wrapped__": f}
        return e
    if isinstance(maxsize, (UFunc, Bound, ExtFunc)):
        return deco_(I, maxsize)
    return ExtFunc("functools.lru_cache(n)", deco_)


def py_reduce(I, f, xs, *init):
    items = I.iterate(xs)
    if init:
        acc = init[0]
    elif items:
        acc, items = items[0], items[1:]
    else:
        raise_("TypeError", "reduce() of empty iterable with no initial value")
    for v in items:
        if isinstance(v, H):
            raise U("reduce over a run")
        acc = I.call(f, [acc, v], {})
    return acc


MODS["functools"] = fns("functools", {
    "wraps": wraps, "update_wrapper": lambda I, w, f, *a, **k: set_fattr(w, f),
    "partial": lambda I, f, *a, **k: Partial(f, a, k),
    "reduce": py_reduce, "lru_cache": lru_cache, "cache": lambda I, f: lru_cache(I, f),
    "singledispatch": singledispatch,
    "cmp_to_key": lambda I, f: Unknown("cmp_to_key"),
})
MODS["functools"]["cached_property"] = ExtClass("functools.cached_property", lambda I, f: CachedProp(f))
MODS["functools"]["total_ordering"] = ExtFunc("functools.total_ordering", None)


def bis(right):
    def f(I, a, x, lo=0, hi=None, key=None):
        items = I.iterate(a)
        if lo != 0 or hi is not None:
            if anyH(items):
                raise U("bisection window over a run")
            j = I.as_int(lo)
            end = len(items) if hi is None else I.as_int(hi)
        else:
            j, end = 0, len(items)
        pre = nprefix(items)
        while j < end:
            v = items[j]
            if isinstance(v, H):
                c = lcmp(I, v, x)
            else:
                if key is not None:
                    v = I.call(key, [v], {})
                if right:
                    c = 1 if I.truth(I.compare("<", x, v)) else 0
                else:
                    c = -1 if I.truth(I.compare("<", v, x)) else 0
            if c < 0 or (c == 0 and right):
                j += 1
            else:
                break
        return pre[j]
    return f


def insort(right):
    def f(I, a, x, lo=0, hi=None, key=None):
        j = I.as_int(bis(right)(I, a, x, lo, hi, key))
        I.touch(a)
        a.v.insert(j, x)
    return f


MODS["bisect"] = fns("bisect", {"bisect_left": bis(False), "bisect_right": bis(True), "bisect": bis(True),
                                "insort": insort(True), "insort_right": insort(True), "insort_left": insort(False)})


def m_is(f):
    def g(I, x):
        if not is_number(x):
            if isinstance(x, TopH):
                return x
            raise_("TypeError", "must be real number")
        return f(x)
    return g


def rounder(which):
    def f(I, x):
        if isinstance(x, int):
            return int(x)
        if is_number(x):
            if is_nan(x):
                raise_("ValueError", "cannot convert float NaN to integer")
            if is_inf(x):
                raise_("OverflowError", "cannot convert float infinity to integer")
            v = C.cur().norm(to_num(x))
            if v.is_const():
                return getattr(_math, which)(v.const())
            return Unknown(which)
        if isinstance(x, (Unknown, TopH)):
            return x
        raise_("TypeError", "must be real number")
    return f


MODS["math"] = fns("math", {
    "isnan": m_is(is_nan), "isinf": m_is(is_inf), "isfinite": m_is(lambda x: not (is_nan(x) or is_inf(x))),
    "sqrt": m_is(lambda x: (x if is_nan(x) or is_inf(x) else sqrt_(x) if sign_of(x) >= 0 else raise_("ValueError", "math domain error"))),
    "isclose": lambda I, a, b, rel_tol=1e-9, abs_tol=0.0: npm.close(I, a, b, rel_tol, abs_tol, False, True),
    "fabs": lambda I, x: abs_(I, x), "floor": rounder("floor"), "ceil": rounder("ceil"), "trunc": rounder("trunc"), "fsum": lambda I, x: BUILTINS["sum"].fn(I, x),
    "pow": lambda I, a, b: I.binop("**", a, b), "prod": lambda I, x, start=1: py_reduce(I, MODS["operator"]["mul"], x, start),
})
MODS["math"].update({"inf": INF, "nan": NAN, "pi": _math.pi, "e": _math.e})


class CMFunc(ExtFunc):
    pass


MODS["warnings"] = fns("warnings", {
    "warn": lambda I, *a, **k: None, "simplefilter": lambda I, *a, **k: None, "filterwarnings": lambda I, *a, **k: None,
    "catch_warnings": lambda I, *a, **k: NullCM(),
})
MODS["contextlib"] = fns("contextlib", {"nullcontext": lambda I, x=None: NullCM((), x), "suppress": lambda I, *a: NullCM(a),
                                        "contextmanager": lambda I, f: ExtFunc("contextlib.contextmanager()", lambda I, *a, **k: GenCM(f, list(a), k)) if isinstance(f, UFunc) else Unknown("contextmanager")})
MODS["textwrap"] = fns("textwrap", {"dedent": lambda I, s: s if isinstance(s, str) else DOC, "indent": lambda I, s, *a: DOC})


def mkchain(I, *xs):
    return PyIter([v for x in xs for v in I.iterate(x)])


def product(I, *xs, repeat=1):
    import itertools
    ls = [I.iterate(x) for x in xs]
    if any(anyH(l) for l in ls):
        raise U("product over a run")
    return PyIter(list(itertools.product(*ls, repeat=repeat)))


def accumulate(I, xs, func=None, initial=None):
    out = []
    items = I.iterate(xs)
    if initial is not None:
        items = [initial] + items
    for v in items:
        if isinstance(v, H):
            raise U("accumulate over a run")
        out.append(v if not out else (I.binop("+", out[-1], v) if func is None else I.call(func, [out[-1], v], {})))
    return PyIter(out)


def pairwise(I, x):
    l = I.iterate(x)
    if anyH(l):
        raise U("pairs of a run")
    return PyIter(list(zip(l, l[1:])))


def zip_longest(I, *xs, fillvalue=None):
    import itertools
    ls = [I.iterate(x) for x in xs]
    if any(anyH(l) for l in ls):
        raise U("zip of a run")
    return PyIter(list(itertools.zip_longest(*ls, fillvalue=fillvalue)))


def combos(I, x, r):
    import itertools
    return PyIter(list(itertools.combinations(I.iterate(x), I.as_int(r))))


def islice(I, x, *a):
    l = I.iterate(x)
    if anyH(l):
        raise U("islice of a run")
    return PyIter(l[slice(*[None if q is None else I.as_int(q) for q in a])])


def starmap(I, f, xs):
    return PyIter([I.call(f, I.iterate(x), {}) for x in I.iterate(xs)])


_ch = ExtFunc("itertools.chain", mkchain)
_ch.attrs = {"from_iterable": ExtFunc("chain.from_iterable", lambda I, x: mkchain(I, *I.iterate(x)))}
MODS["itertools"] = {"chain": _ch, **fns("itertools", {
    "product": product, "accumulate": accumulate, "pairwise": pairwise, "zip_longest": zip_longest, "islice": islice,
    "combinations": combos, "starmap": starmap,
    "repeat": lambda I, x, n=None: PyIter([x] * I.as_int(n)) if n is not None else Unknown("endless repetition"),
})}


def py_copy(I, x):
    if isinstance(x, Inst):
        f = x.cls.lookup("__copy__")
        if f is not None:
            return I.call(Bound(f, x), [], {})
        return Inst(x.cls, dict(x.d), I.epoch())
    if isinstance(x, PyList):
        return PyList(list(x.v), I.epoch())
    if isinstance(x, PyDict):
        return PyDict(dict(x.d), I.epoch())
    if isinstance(x, PySet):
        return PySet(dict(x.v), I.epoch())
    if isinstance(x, (Ser, DF)):
        return (SER if isinstance(x, Ser) else FRAME)["copy"].fn(I, x)
    if isinstance(x, Arr):
        return npm.copyarr(x)
    return x


def py_deepcopy(I, x, memo=None):
    memo = {} if not isinstance(memo, dict) else memo
    if id(x) in memo:
        return memo[id(x)][0]

    def rec(x):
        if id(x) in memo:
            return memo[id(x)][0]
        if isinstance(x, Inst):
            f = x.cls.lookup("__deepcopy__")
            if f is not None:
                r = I.call(Bound(f, x), [PyDict({})], {})
                memo[id(x)] = (r, x)
                return r
            r = Inst(x.cls, {}, I.epoch())
            memo[id(x)] = (r, x)
            for k, v in x.d.items():
                r.d[k] = rec(v)
            return r
        if isinstance(x, PyList):
            r = PyList([], I.epoch())
            memo[id(x)] = (r, x)
            r.v = [rec(v) for v in x.v]
            return r
        if isinstance(x, tuple):
            return tuple(rec(v) for v in x)
        if isinstance(x, PyDict):
            r = PyDict({k: (kk, rec(v)) for k, (kk, v) in x.d.items()}, I.epoch())
            return r
        if isinstance(x, Bound) and isinstance(x.self, Inst):
            return Bound(x.fn, rec(x.self))
        return py_copy(I, x) if is_vec(x) or isinstance(x, PySet) else x
    return rec(x)


MODS["copy"] = fns("copy", {"copy": py_copy, "deepcopy": py_deepcopy})
MODS["numbers"] = {n: ExtClass("numbers." + n) for n in ("Number", "Real", "Complex", "Integral", "Rational")}
MODS["collections.abc"] = {}
MODS["collections"] = {"OrderedDict": BUILTINS["dict"], "abc": ExtMod("collections.abc"), "namedtuple": ExtFunc("collections.namedtuple", namedtuple)}
MODS["enum"] = {n: ExtClass("enum." + n) for n in ("Enum", "IntEnum", "StrEnum", "Flag", "IntFlag")}
MODS["enum"]["auto"] = ExtFunc("enum.auto", lambda I: EnumAuto())
MODS["enum"]["unique"] = ExtFunc("enum.unique", lambda I, c: c)
MODS["dataclasses"] = fns("dataclasses", {
    "dataclass": dataclass, "field": lambda I, **k: Inst(FIELD, k),
    "replace": lambda I, o, **k: I.instantiate(o.cls, [], {**{f[0]: o.d[f[0]] for f in o.cls.dc_fields}, **k}),
    "asdict": lambda I, o: PyDict({I.hkey(f[0]): (f[0], o.d[f[0]]) for f in o.cls.dc_fields}, I.epoch()),
    "astuple": lambda I, o: tuple(o.d[f[0]] for f in o.cls.dc_fields)})
MODS["types"] = {}
MODS["datetime"] = {n: ExtClass("datetime." + n) for n in ("datetime", "timedelta", "date", "time", "timezone", "tzinfo")}
MODS["typing"] = {}
MODS["typing_extensions"] = {}


def ext_module(name):
    return ExtMod(name)


_PATHC = {}


def ext_attr_path(mod, name):
    key = (mod, name)
    if mod in MODS and name in MODS[mod]:
        return MODS[mod][name]
    if key in _PATHC:
        return _PATHC[key]
    v = _path(mod, name)
    _PATHC[key] = v
    return v


def _path(mod, name):
    full = mod + "." + name
    if full in MODS:
        return ExtMod(full)
    if mod == "typing" or mod == "typing_extensions":
        if name == "TYPE_CHECKING":
            return False
        if name == "cast":
            return ExtFunc("typing.cast", lambda I, t, v: v)
        if name in ("overload", "final", "no_type_check"):
            return ExtFunc("typing." + name, lambda I, f: f)
        return ExtClass(name, lambda I, *a, **k: ExtClass("typevar")) if name in ("TypeVar", "NewType", "ParamSpec") else ExtClass("typing." + name if name not in ("Iterable", "Sequence", "Mapping", "Callable", "Hashable", "Sized", "Collection") else name)
    if mod in ("collections.abc", "types"):
        return ExtClass(name)
    if mod == "numpy":
        return NUMPY.get(name) if name in NUMPY else Unknown(f"numpy.{name}")
    if mod.split(".")[0] == "pandas":
        return pandas_path(mod, name)
    if mod.startswith("numpy."):
        return Unknown(full)
    if mod.startswith("matplotlib"):
        return Unknown("matplotlib")
    if mod == "importlib" and name == "metadata":
        return ExtMod("importlib.metadata")
    if mod == "importlib.metadata":
        return ExtFunc(full, lambda I, *a: Unknown("version"))
    return Unknown(full)


# ---------------------------------------------------------------- numpy

NUMPY = npm.NP
NUMPY.update({"nan": NAN, "NaN": NAN, "NAN": NAN, "inf": INF, "Inf": INF, "infty": INF, "pi": _math.pi, "newaxis": None, "e": _math.e})
for _n in npm.DTYPE_CLASSES:
    NUMPY[_n] = ExtClass("numpy." + _n)
NUMPY["float64"].fn = lambda I, x=0: npm.asarr(I, c_float(I, x))
NUMPY["int64"].fn = lambda I, x=0: (lambda v: Num(to_num(v).n, to_num(v).d, "npi"))(c_int(I, x))
NUMPY["bool_"].fn = lambda I, x=False: I.truth(x)
NUMPY["dtype"].fn = lambda I, x: DtypeObj(parse_dtype(x))
NUMPY["ndarray"].attrs["__name__"] = "ndarray"
NUMPY["errstate"] = ExtFunc("numpy.errstate", lambda I, *a, **k: NullCM())
NUMPY["seterr"] = ExtFunc("numpy.seterr", lambda I, *a, **k: None)


def np_td64(I, x, unit=None, *a):
    if isinstance(x, Lab):
        return Lab(x.kind, x.x, None, "np")
    if isinstance(x, str) and x == "NaT":
        return NAN
    if is_number(x) and unit in UNITS:
        return Lab("td", to_num(I.scalar_binop("*", x, UNITS[unit])), None, "np")
    return Unknown("timedelta64")


UNITS = {"ns": 1, "us": 10 ** 3, "ms": 10 ** 6, "s": 10 ** 9, "m": 60 * 10 ** 9, "min": 60 * 10 ** 9, "h": 3600 * 10 ** 9, "H": 3600 * 10 ** 9,
         "D": 86400 * 10 ** 9, "d": 86400 * 10 ** 9, "day": 86400 * 10 ** 9, "days": 86400 * 10 ** 9, "hour": 3600 * 10 ** 9, "hours": 3600 * 10 ** 9,
         "minutes": 60 * 10 ** 9, "seconds": 10 ** 9, "T": 60 * 10 ** 9, "S": 10 ** 9, "W": 7 * 86400 * 10 ** 9, "weeks": 7 * 86400 * 10 ** 9,
         "milliseconds": 10 ** 6, "microseconds": 10 ** 3, "nanoseconds": 1}
NUMPY["timedelta64"].fn = np_td64
NUMPY["datetime64"].fn = lambda I, x, *a: (Lab(x.kind, x.x, None, "np") if isinstance(x, Lab) else NAN if x == "NaT" else Unknown("datetime64"))
_finfo = ExtFunc("numpy.finfo", lambda I, *a: Unknown("finfo"))
NUMPY["finfo"] = _finfo
NUMPY["iinfo"] = _finfo


# ---------------------------------------------------------------- pandas

def ts(I, x=None, *a, **k):
    if isinstance(x, Lab) and x.kind == "ts":
        tz = k.get("tz", x.tz)
        return Lab("ts", x.x, tz, "pd")
    if is_nan(x):
        return NAN
    if x is None:
        raise U("Timestamp()")
    if isinstance(x, (Lab, Inst, PyList, PyDict)):
        raise_("TypeError", "Cannot convert input to Timestamp")
    if isinstance(x, str):
        import datetime
        try:
            d = datetime.datetime.fromisoformat(x.replace("/", "-"))
        except ValueError:
            return Unknown("Timestamp text")
        if d.tzinfo is not None:
            return Unknown("Timestamp text with zone")
        q = d - datetime.datetime(1970, 1, 1)
        v = (q.days * 86400 + q.seconds) * 10 ** 9 + q.microseconds * 1000
        return Lab("ts", num(v), k.get("tz"), "pd")
    return Unknown("Timestamp constructor")


def td(I, x=None, unit=None, **k):
    if isinstance(x, Lab):
        if x.kind == "td":
            return Lab("td", x.x, None, "pd")
        raise_("ValueError", "Value must be Timedelta, string, integer, float, timedelta or convertible")
    if x is None and k:
        tot = 0
        for n, v in k.items():
            if n not in UNITS:
                return Unknown("Timedelta")
            tot = I.scalar_binop("+", tot, I.scalar_binop("*", v, UNITS[n]))
        return Lab("td", to_num(tot), None, "pd")
    if is_nan(x):
        return NAN
    if is_number(x) and (unit is None or unit in UNITS):
        return Lab("td", to_num(I.scalar_binop("*", x, UNITS[unit or "ns"])), None, "pd")
    if isinstance(x, str):
        import re
        m = re.fullmatch(r"\s*(-?\d+)\s*([A-Za-z]+)\s*", x)
        if m and m.group(2) in UNITS:
            return Lab("td", num(int(m.group(1)) * UNITS[m.group(2)]), None, "pd")
        if x.strip() == "0":
            return Lab("td", num(0), None, "pd")
        return Unknown("Timedelta text")
    if isinstance(x, (Inst, PyList, PyDict)):
        raise_("ValueError", "cannot convert to Timedelta")
    return Unknown("Timedelta constructor")


def mk_index_ctor(I, data=None, dtype=None, copy=False, name=None, tupleize_cols=True):
    idx = mk_index(I, data if data is not None else PyList([]), name)
    d = parse_dtype(dtype)
    if isinstance(idx, Idx) and idx is data and name is None:
        idx = Idx(idx.vals, idx.dtype, idx.name, idx.tz, idx.closed)
    if d and d != idx.dtype:
        return Idx(cast(I, idx.vals, idx.dtype, d), d, idx.name)
    return idx


def pd_interval(I, left, right, closed="right"):
    if lcmp(I, left, right) > 0:
        raise_("ValueError", "left side of interval must be <= right side")
    return Iv(left, right, closed)


def register_accessor(I, name):
    def f(I, cls):
        I.accessors[name] = cls
        return cls
    return ExtFunc("register_series_accessor()", f)


def register_ext_dtype(I, cls):
    n = cls.lookup("name")
    if isinstance(n, str):
        I.ext_dtypes[n] = cls
    return cls


def pd_take(I, arr, indices, axis=0, allow_fill=False, fill_value=None):
    vals = entries(I, arr)[0]
    out = []
    for i in I.iterate(indices):
        i = I.as_int(i)
        if i == -1 and I.truth(allow_fill):
            out.append(fill_value)
        else:
            if not -len(vals) <= i < len(vals):
                raise_("IndexError", "out of bounds")
            out.append(vals[i])
    return Arr(cells(out), "object" if any(isinstance(v, Inst) for v in out) else infer_dtype(out, True))


def is_list_like(I, x, allow_sets=True):
    if isinstance(x, Inst):
        return x.cls.lookup("__iter__") is not None or any(k.name.endswith("ExtensionArray") for k in x.cls.ext_bases())
    return is_listlike(x)


def dt_name(I, x):
    if isinstance(x, (Ser, Arr, Idx)):
        return x.dtype
    if isinstance(x, DtypeObj):
        return x.name
    if isinstance(x, (ExtClass, str)):
        return parse_dtype(x)
    if isinstance(x, Inst):
        return "ext"
    return None


def dtcheck(*names):
    def f(I, x):
        if isinstance(x, DF):
            return Unknown("dtype of a frame")
        return dt_name(I, x) in names
    return f


API_TYPES = fns("pandas.api.types", {
    "is_list_like": is_list_like, "is_dict_like": lambda I, x: isinstance(x, (PyDict, Ser, DF)),
    "is_number": lambda I, x: is_number(x), "is_integer": lambda I, x: is_number(x) and not isinstance(x, bool) and scalar_dtype(x) == "int",
    "is_float": lambda I, x: is_number(x) and not isinstance(x, bool) and scalar_dtype(x) == "float", "is_bool": lambda I, x: isinstance(x, bool),
    "is_scalar": lambda I, x: is_number(x) or isinstance(x, (str, Lab, Iv)) or x is None or x is NA,
    "is_float_dtype": dtcheck("float"), "is_integer_dtype": dtcheck("int"), "is_bool_dtype": dtcheck("bool"),
    "is_numeric_dtype": dtcheck("float", "int", "bool"), "is_object_dtype": dtcheck("object"), "is_string_dtype": dtcheck("object"),
    "is_datetime64_any_dtype": dtcheck("M8", "M8tz"), "is_datetime64_dtype": dtcheck("M8"), "is_datetime64_ns_dtype": dtcheck("M8", "M8tz"), "is_timedelta64_dtype": dtcheck("m8"),
    "is_timedelta64_ns_dtype": dtcheck("m8"), "is_hashable": lambda I, x: not isinstance(x, (PyList, PyDict, PySet)) and not is_vec(x),
    "is_iterator": lambda I, x: isinstance(x, PyIter), "is_array_like": lambda I, x: is_vec(x),
    "is_interval_dtype": dtcheck("interval"), "infer_dtype": lambda I, x, *a, **k: Unknown("infer_dtype"),
    "is_named_tuple": lambda I, x: False, "is_sparse": lambda I, x: False,
})

EXT_ARRAY = ExtClass("pandas.ExtensionArray")
EXT_DTYPE = ExtClass("pandas.ExtensionDtype")
API_EXT = {
    "register_series_accessor": ExtFunc("pandas.register_series_accessor", register_accessor),
    "register_dataframe_accessor": ExtFunc("pandas.register_dataframe_accessor", lambda I, n: ExtFunc("deco", lambda I, c: c)),
    "register_index_accessor": ExtFunc("pandas.register_index_accessor", lambda I, n: ExtFunc("deco", lambda I, c: c)),
    "register_extension_dtype": ExtFunc("pandas.register_extension_dtype", register_ext_dtype),
    "ExtensionArray": EXT_ARRAY, "ExtensionDtype": EXT_DTYPE, "take": ExtFunc("pandas.take", pd_take),
    "no_default": _pdm.is_vec and ExtFunc("pandas.no_default", None),
}


def pcls(name, fn, attrs=None):
    return ExtClass("pandas." + name, fn, attrs)


def to_numeric(I, x, *a, **k):
    if isinstance(x, (Ser, Arr, Idx)) and x.dtype in ("float", "int", "bool", "m8", "M8"):
        return x
    if isinstance(x, Ser):
        d = infer_dtype(x.vals)
        return Ser(x.idx, cells([hmap(lambda q: conv(q, d), v) for v in x.vals]), d, x.name)
    return Unknown("to_numeric")


def to_dt(kind):
    def f(I, x, *a, **k):
        if isinstance(x, Lab):
            return x
        if isinstance(x, (Ser, Idx)) and x.dtype == kind:
            return x
        return Unknown("to_datetime")
    return f


def _index_dt(kind):
    def f(I, data=None, *a, **k):
        r = mk_index(I, data)
        if r.dtype == kind:
            return r
        if not r.vals:
            return Idx([], kind)
        if all(is_nan(hval(v)) for v in r.vals):
            return Idx(r.vals, kind)
        return Unknown("datetime-like index")
    return f


IVATTR = {
    "from_arrays": ExtFunc("pandas.IntervalIndex.from_arrays", from_arrays),
    "from_breaks": ExtFunc("pandas.IntervalIndex.from_breaks", from_breaks),
    "from_tuples": ExtFunc("pandas.IntervalIndex.from_tuples", from_tuples),
}

PANDAS = {
    "Series": pcls("Series", mk_series, dict(SER)),
    "DataFrame": pcls("DataFrame", mk_frame, dict(FRAME)),
    "Index": pcls("Index", mk_index_ctor, dict(IDX)),
    "IntervalIndex": pcls("IntervalIndex", mk_interval_index, {**IDX, **IVATTR}),
    "DatetimeIndex": pcls("DatetimeIndex", _index_dt("M8"), dict(IDX)),
    "TimedeltaIndex": pcls("TimedeltaIndex", _index_dt("m8"), dict(IDX)),
    "PeriodIndex": pcls("PeriodIndex", None), "CategoricalIndex": pcls("CategoricalIndex", None), "RangeIndex": pcls("RangeIndex", None),
    "MultiIndex": pcls("MultiIndex", None),
    "Interval": pcls("Interval", pd_interval), "Period": pcls("Period", None),
    "Timestamp": pcls("Timestamp", ts), "Timedelta": pcls("Timedelta", td),
    "NaT": NAN, "NA": NA,
    "api": ExtMod("pandas.api"), "core": ExtMod("pandas.core"), "plotting": ExtMod("pandas.plotting"),
    "__version__": "2.2.3",
}
PANDAS["DataFrame"].attrs["from_dict"] = ExtFunc("pandas.DataFrame.from_dict", lambda I, d, *a, **k: mk_frame(I, d) if not a and not k else Unknown("from_dict"))
for _n, _f in (("concat", pd_concat), ("isnull", pd_isnull), ("isna", pd_isnull), ("notnull", pd_notnull), ("notna", pd_notnull),
               ("unique", pd_unique), ("to_numeric", to_numeric), ("to_datetime", to_dt("M8")), ("to_timedelta", to_dt("m8"))):
    PANDAS[_n] = ExtFunc("pandas." + _n, _f)
PANDAS["array"] = ExtFunc("pandas.array", None)
PANDAS["option_context"] = ExtFunc("pandas.option_context", lambda I, *a, **k: NullCM())


def pandas_path(mod, name):
    if mod == "pandas":
        if name in PANDAS:
            return PANDAS[name]
        return ExtFunc("pandas." + name, None)
    if name in ("is_list_like", "is_dict_like") or mod in ("pandas.api.types", "pandas.core.dtypes.common", "pandas.core.dtypes.inference"):
        return API_TYPES.get(name) or Unknown(mod + "." + name)
    if mod == "pandas.api":
        return ExtMod("pandas.api." + name)
    if mod == "pandas.api.extensions":
        return API_EXT.get(name) or Unknown(mod + "." + name)
    if mod in ("pandas.core", "pandas.core.dtypes"):
        return ExtMod(mod + "." + name)
    if mod == "pandas.plotting":
        return ExtFunc(mod + "." + name, lambda I, *a, **k: None)
    return Unknown(mod + "." + name)

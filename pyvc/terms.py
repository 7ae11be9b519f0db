"""Types, sorts and values of the verifier."""
import z3


class Unsupported(Exception):
    """The code uses something outside the verified subset (never a violation)."""


class T:
    def __init__(self, kind, *args, name=None):
        self.kind, self.args, self.name = kind, args, name

    def key(self):
        return (self.kind, self.name) + tuple(a.key() for a in self.args)

    def __eq__(self, o):
        return isinstance(o, T) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = self.kind + (":" + self.name if self.name else "")
        return s + ("(" + ",".join(map(repr, self.args)) + ")" if self.args else "")


class TVarT(T):
    def __init__(self):
        super().__init__("var")
        self.bound = None

    def key(self):
        return self.bound.key() if self.bound else ("var", id(self))


def res(t):
    while isinstance(t, TVarT) and t.bound is not None:
        t = t.bound
    return t


Int, Bool, Str, NoneT, Y, Real, Any = (T(k) for k in ("int", "bool", "str", "none", "yaml", "real", "any"))


def Ref(cls): return T("ref", name=cls)          # heap object of a repo class
def Val(cls): return T("val", name=cls)          # immutable value object of a repo class
def Enum(cls): return T("enum", name=cls)
def List(t): return T("list", t)
def Set(t): return T("set", t)
def Dict(k, v): return T("dict", k, v)
def Seq(t): return T("seq", t)                   # immutable sequence value
def Tuple(*ts): return T("tuple", *ts)
def Opt(t): return t if t.kind == "opt" else T("opt", t)
def Opaque(name): return T("opaque", name=name)


REFKINDS = ("ref", "list", "set", "dict")
_sorts = {}
_opts = {}
_tups = {}
_vals = {}
VALCLASSES = {}      # class -> [(field, T)]


def mangle(t):
    t = res(t)
    return "_".join([t.kind] + ([t.name.split(".")[-1]] if t.name else []) + [mangle(a) for a in t.args])


def sort(t):
    t = res(t)
    k = t.kind
    if k in ("int", "enum") or k in REFKINDS:
        return z3.IntSort()
    if k == "bool":
        return z3.BoolSort()
    if k == "str":
        return z3.StringSort()
    if k == "real":
        return z3.RealSort()
    if k == "seq":
        return z3.SeqSort(sort(t.args[0]))
    if k == "yaml":
        return _mk("Y", lambda: z3.DeclareSort("Y"))
    if k == "opaque":
        return _mk("O_" + t.name, lambda: z3.DeclareSort("O_" + t.name))
    if k == "none":
        return z3.BoolSort()
    if k == "opt":
        a = res(t.args[0])
        if a.kind in REFKINDS:
            return z3.IntSort()          # 0 is None
        return opt_dt(a)
    if k == "tuple":
        return tup_dt(t)
    if k == "val":
        return val_dt(t)
    raise Unsupported("no sort for %r" % t)


def _mk(name, f):
    if name not in _sorts:
        _sorts[name] = f()
    return _sorts[name]


def opt_dt(a):
    key = str(sort(a))
    if key not in _opts:
        d = z3.Datatype("Opt_" + mangle(a))
        d.declare("none")
        d.declare("some", ("the", sort(a)))
        _opts[key] = d.create()
    return _opts[key]


def tup_dt(t):
    key = tuple(str(sort(a)) for a in t.args)
    if key not in _tups:
        d = z3.Datatype("Tup%d_%d" % (len(t.args), len(_tups)))
        d.declare("mk", *[("c%d" % i, sort(a)) for i, a in enumerate(t.args)])
        _tups[key] = d.create()
    return _tups[key]


def val_dt(t):
    if t.name not in _vals:
        d = z3.Datatype("V_" + t.name.split(".")[-1])
        d.declare("mk", *[("f_" + f, sort(ft)) for f, ft in VALCLASSES[t.name]])
        _vals[t.name] = d.create()
    return _vals[t.name]


class V:
    """A typed term."""
    __slots__ = ("t", "z")

    def __init__(self, t, z):
        self.t, self.z = t, z

    def __repr__(self):
        return "<%r %s>" % (self.t, str(self.z)[:200])


class Tup:
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "Tup(%r)" % self.items


class VObj:
    """A value object (under construction or known field by field)."""
    def __init__(self, cls, fields=None):
        self.cls, self.fields, self.frozen = cls, dict(fields or {}), False


class MRef:
    """Reference to a container that so far is local and known exactly (content in state.meta[id])."""
    def __init__(self, id, site):
        self.id, self.site = id, site


class Undef:
    def __init__(self, name):
        self.name = name


class Marker:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "Marker(%s)" % ", ".join("%s=%r" % kv for kv in self.__dict__.items() if kv[0] != "info")


NONE = V(NoneT, z3.BoolVal(True))


def vint(i): return V(Int, z3.IntVal(i) if isinstance(i, int) else i)
def vbool(b): return V(Bool, z3.BoolVal(b) if isinstance(b, bool) else b)
def vstr(s): return V(Str, z3.StringVal(s) if isinstance(s, str) else s)


def uf(name, *sorts_):
    return z3.Function(name, *sorts_)


def is_lit_str(z):
    return z3.is_string_value(z)


def lit_str(z):
    return z.as_string() if False else _unescape(z)


def _unescape(z):
    s = z.as_string()
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)

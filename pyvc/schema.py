"""What the verifier is told about the program: field types, value classes, external functions, event logs."""
from .terms import *
from . import terms as tm
import z3


class Schema:
    def __init__(self, prog):
        self.prog = prog
        self.models, self.stubs, self.ext_values, self.ext_alias = {}, {}, {}, {}
        self.exc_bases, self.class_state, self.class_state_set, self.contains_stubs = {}, {}, {}, {}
        self.loop_hooks, self.elem_facts, self.same_elems = {}, [], {}
        self.truthy, self.dynamic, self.ignored, self.abstract = set(), set(), set(), set()
        self.y_total, self.y_lists = set(), False
        self.literal_dicts, self.log_print = True, True
        self.classes, self.bases, self._tags = {}, {}, {}

    def cls(self, qual, base=None, dynamic=(), **fields):
        """Heap class with the types of its fields."""
        self.classes[qual] = fields
        if base:
            self.bases[qual] = base
        for n in dynamic:
            self.dynamic.add((qual, n))
        return self

    def val(self, qual, *fields):
        """Immutable value class."""
        VALCLASSES[qual] = list(fields)
        return self

    def chain(self, q):
        out = []
        while q:
            out.append(q)
            q = self.bases.get(q)
        return out

    def field(self, interp, cls, name):
        for q in self.chain(cls):
            if q in self.classes and name in self.classes[q]:
                return q, self.classes[q][name]
        for q, b in self.bases.items():
            if cls in self.chain(q) and name in self.classes[q]:
                return q, self.classes[q][name]
        return None

    def ignore_fields(self, cls, name):
        return (cls, name) in self.ignored or (cls, "*") in self.ignored

    def known(self, q):
        return q in self.classes

    def root(self, q):
        return self.chain(q)[-1]

    def tagged(self, q):
        return self.root(q) != q or q in self.bases.values()

    def tag(self, q):
        return self._tags.setdefault(q, len(self._tags) + 1)

    def subclasses(self, root):
        return [q for q in self.classes if root in self.chain(q)]

    def common_base(self, a, b):
        for q in self.chain(a):
            if q in self.chain(b):
                return q
        return None


# ------------------------------------------------------------------ external functions
def logarg(it, x):
    """Arguments of an external call as terms (containers by content)."""
    if isinstance(x, MRef) and it.m(x)["kind"] == "low":
        x = it.m(x)["v"]
    if isinstance(x, Tup):
        return [z for y in x.items for z in logarg(it, y)]
    if isinstance(x, MRef):
        k = it.m(x)["kind"]
        if k == "list":
            t, s = it.seqof(x)
            return [s if s is not None else z3.Empty(z3.SeqSort(z3.StringSort()))]
        if k == "obj":
            return [it.freeze(x)]
        return [it.to_y(x)]
    if isinstance(x, Marker):
        if x.k == "ext":
            return [z3.StringVal(x.path)]
        if x.k in ("class", "func"):
            return [z3.StringVal(x.info.qual)]
        raise Unsupported("argument %r of an external function" % (x,))
    t = res(x.t)
    if t.kind == "list":
        s = it.lget(x)
        return [s if s is not None else z3.Empty(z3.SeqSort(z3.StringSort()))]
    if t.kind == "set":
        return [it.sget(x)]
    if t.kind == "dict":
        return list(it.dget(x))
    return [z3.simplify(x.z)]


def named(args, kw, names):
    a = list(args)
    for n in names[len(args):]:
        if n in kw:
            a.append(kw[n])
        else:
            break
    rest = sorted(k for k in kw if k not in names[len(args):])
    return a + [kw[k] for k in rest], "_".join(rest)


def ext(name, ret=None, ch=None, reads=(), raises=(), names=(), pure=False, fresh=True):
    """External function: an uninterpreted function of its arguments (and of the history of the channels it reads);
    it is recorded on channel `ch`; it may raise any of `raises`."""
    def f(it, args, kw):
        a, sfx = named(args, kw, list(names))
        zs = []
        for x in a:
            x = it.norm_arg(x) if hasattr(it, "norm_arg") else x
            zs += logarg(it, x)
        nm = name + ("_" + sfx if sfx else "")
        hist = [it.getlog(c) for c in ((() if pure else ((ch,) if ch else ())) + tuple(reads))]
        argz = zs + hist
        key = "%s_%s" % (nm, "_".join(str(z.sort()) for z in zs).replace(" ", "").replace("(", "_").replace(")", ""))
        if ch:
            it.log(ch, key, *zs)
        for e in raises:
            c = uf("fails_%s_%s" % (e.split(".")[-1], key), *([z.sort() for z in argz] + [z3.BoolSort()]))(*argz) \
                if argz else z3.Bool("fails_%s_%s" % (e.split(".")[-1], key))
            if it.branch(c):
                from .engine import PyRaise
                raise PyRaise(e)
        if ret is None:
            return NONE
        if callable(ret) and not isinstance(ret, T):
            return ret(it, argz, key)
        if ret.kind in ("list", "set") and fresh:
            t = Seq(ret.args[0]) if ret.kind == "list" else None
            if t is None:
                so = z3.ArraySort(sort(ret.args[0]), z3.BoolSort())
            else:
                so = sort(t)
            z = uf("ext_" + key, *([x.sort() for x in argz] + [so]))(*argz) if argz else z3.Const("ext_" + key, so)
            v = V(ret, it.new_addr())
            (it.lset if ret.kind == "list" else it.sset)(v, z)
            return v
        so = sort(ret)
        z = uf("ext_" + key, *([x.sort() for x in argz] + [so]))(*argz) if argz else z3.Const("ext_" + key, so)
        return it.wrap(ret, z)
    f.extname = name
    return f

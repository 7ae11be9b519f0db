"""Symbolic execution of the Python AST, loop summaries, contracts. See DESIGN.md for the semantics."""
import ast
import builtins as pyb
import z3
from .terms import *
from . import terms as tm
from .front import Program, ClassInfo, FuncInfo, Module
from .prover import Prover, free_syms, subst

z3.set_param("auto_config", False) if False else None


class PyRaise(Exception):
    def __init__(self, cls, args=()):
        super().__init__(cls)
        self.cls, self.eargs = cls, list(args)


class ReturnX(Exception):
    def __init__(self, v): self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class Infeasible(Exception):
    pass


class PC(list):
    """Path condition without duplicates: (formula, is a decision)."""
    def __init__(self, it=()):
        super().__init__()
        if isinstance(it, PC):
            super().extend(it)
            self.ids = set(it.ids)
        else:
            self.ids = set()
            for e in it:
                self.append(e)

    def append(self, e):
        i = e[0].get_id()
        if i in self.ids or z3.is_true(e[0]):
            return
        self.ids.add(i)
        super().append(e)


class State:
    def __init__(self):
        self.frames, self.heap, self.meta, self.logs = [], {}, {}, {}
        self.alloc = z3.Int("alloc0")
        self.pc = PC()
        self.n = 0
        self.fresh = ()

    def copy(self):
        s = State.__new__(State)
        s.frames = [dict(f) for f in self.frames]
        for f in s.frames:
            f["vars"] = dict(f["vars"])
        s.heap, s.logs = dict(self.heap), dict(self.logs)
        s.meta = {k: self._cm(v) for k, v in self.meta.items()}
        s.alloc, s.pc, s.n, s.fresh = self.alloc, PC(self.pc), self.n, self.fresh
        return s

    @staticmethod
    def _cm(m):
        m = dict(m)
        for k in ("items", "fields", "pairs"):
            if k in m:
                m[k] = type(m[k])(m[k])
        return m


class Ctx:
    def __init__(self, trace, pending):
        self.trace, self.pos, self.pending = trace, 0, pending
        self.key, self.nexp = 0, 0


class Outcome:
    def __init__(self, kind, val, st, decs, facts):
        self.kind, self.val, self.st, self.decs, self.facts = kind, val, st, decs, facts

    def copy(self):
        return Outcome(self.kind, self.val, self.st.copy(), list(self.decs), list(self.facts))

    @property
    def cond(self):
        return z3.And(*self.decs) if self.decs else z3.BoolVal(True)


BUILTINS = {"len", "range", "isinstance", "any", "all", "sum", "sorted", "list", "set", "dict", "tuple", "str", "int",
            "bool", "print", "enumerate", "map", "filter", "zip", "max", "min", "reversed", "iter", "next", "open",
            "getattr", "hasattr", "super", "float", "abs", "repr", "frozenset", "type", "id"}
MAXPATHS = 4000


class Interp:
    def __init__(self, prog, schema, prover=None):
        self.prog = prog
        self.schema = schema            # Schema object: fields, models, stubs, ...
        self.prover = prover or Prover()
        self.st = State()
        self.ctx = Ctx([], [])
        self.side = "code"
        self.site_types = {}
        self.paths = 0
        self.inlined = set()
        self.trusted = set()
        self.summarised = 0
        self.ekeys, self.ecache, self.axioms = {}, {}, {}

    # ------------------------------------------------------------------ paths
    def assume(self, z):
        z = z3.simplify(z) if not z3.is_quantifier(z) else z
        if z3.is_true(z):
            return
        if z3.is_false(z):
            raise Infeasible()
        self.st.pc.append((z, False))

    def pcs(self):
        return [z for z, _ in self.st.pc]

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ctx = self.ctx
        old = ctx.pos < len(ctx.trace)
        if old:
            d, forced = ctx.trace[ctx.pos]
        else:
            pcs = self.pcs()
            if not self.prover.feasible(pcs, c):
                d, forced = False, True
            elif not self.prover.feasible(pcs, z3.Not(c)):
                d, forced = True, True
            else:
                d, forced = True, False
                part = self.part.get(sum(not f for _, f in ctx.trace)) if self.part and ctx.key == 1 else None
                if part is None:
                    ctx.pending.append(list(ctx.trace) + [(False, False)])
                else:
                    d = part         # another contract covers the other half
            ctx.trace = list(ctx.trace) + [(d, forced)]
        ctx.pos += 1
        if not old and forced and not d and not self.prover.feasible(self.pcs(), z3.Not(c)):
            raise Infeasible()
        if not forced:
            self.st.pc.append((c if d else z3.Not(c), True))
        return d

    def explore(self, fn, st0):
        saved = self.st, self.ctx
        pk = (self.ctx.key, tuple(d for d, _ in self.ctx.trace[:self.ctx.pos]), self.ctx.nexp)
        self.ctx.nexp += 1
        ekey = self.ekeys.setdefault(pk, len(self.ekeys) + 1)
        if ekey in self.ecache:
            return [o.copy() for o in self.ecache[ekey]]
        results, pending = [], [[]]
        n0 = len(st0.pc)
        try:
            while pending:
                trace = pending.pop()
                self.st, self.ctx = st0.copy(), Ctx(trace, pending)
                self.ctx.key = ekey
                self.paths += 1
                if len(results) > MAXPATHS:
                    raise Unsupported("too many paths")
                val = None
                try:
                    val = fn()
                    kind = "normal"
                except ReturnX as e:
                    kind, val = "return", e.v
                except BreakX:
                    kind = "break"
                except ContinueX:
                    kind = "continue"
                except PyRaise as e:
                    kind, val = "raise", e
                except Infeasible:
                    continue
                results.append(Outcome(kind, val, self.st, [z for z, d in self.st.pc[n0:] if d],
                                       [z for z, d in self.st.pc[n0:] if not d]))
        finally:
            self.st, self.ctx = saved
        if self.ctx.key or self.ctx.trace or True:
            self.ecache[ekey] = [o.copy() for o in results]
        return results

    # ------------------------------------------------------------------ heap
    def hget(self, key, rng):
        h = self.st.heap
        if key not in h:
            h[key] = self.h0(key, rng)
        return h[key]

    def h0(self, key, rng):
        return z3.Array("H0_" + "_".join(str(k) for k in key), z3.IntSort(), rng)

    def hset(self, key, rng, addr, val):
        self.st.heap[key] = z3.Store(self.hget(key, rng), addr, val)

    def new_addr(self):
        a = self.st.alloc
        if z3.is_const(a) and a.decl().name() == "alloc0" and self.st.n == 0:
            pass
        self.st.alloc = z3.simplify(a + 1)
        self.assume(a > 0)
        return a

    def bound(self, v):
        """Type facts of a value read from somewhere."""
        if isinstance(v, V):
            t = res(v.t)
            if t.kind in REFKINDS:
                self.fact_bound(v.z, True)
            elif t.kind == "opt" and res(t.args[0]).kind in REFKINDS:
                self.fact_bound(v.z, False)
            elif t.kind == "enum":
                ci = self.enum_info(t.name)
                if ci and ci.enum and all(isinstance(x, int) for _, x in ci.enum) and not z3.is_int_value(z3.simplify(v.z)):
                    vals = [x for _, x in ci.enum]
                    self.axiom(z3.And(v.z >= min(vals), v.z <= max(vals)))
        elif isinstance(v, Tup):
            for x in v.items:
                self.bound(x)
        return v

    def axiom(self, f):
        """A fact that holds whatever the path (well-typed values)."""
        f = z3.simplify(f)
        if not z3.is_true(f):
            self.axioms[f.get_id()] = f
            self.st.pc.append((f, False))

    def fact_bound(self, z, strict, depth=0):
        z = z3.simplify(z)
        if z3.is_int_value(z) or z.decl().kind() in (z3.Z3_OP_ADD,):
            return
        lim = self.st.alloc
        b, idx = z, []
        while b.decl().kind() == z3.Z3_OP_SELECT:
            idx.append(b.arg(1))
            b = b.arg(0)
        if idx and b.decl().kind() == z3.Z3_OP_STORE and depth < 6:      # what was there before, and what was put there
            for x, rest in ((b.arg(0), idx), (b.arg(2), idx[:-1])):
                for i in reversed(rest):
                    x = z3.Select(x, i)
                self.fact_bound(x, strict, depth + 1)
        if not b.eq(z) and z3.is_const(b) and b.decl().name().startswith("H0_") \
                or z3.is_const(z) and z.decl().name().startswith("in!"):
            lim = z3.Int("alloc0")       # the initial heap holds old addresses only
        f = z3.And((z > 0) if strict else (z >= 0), z < lim)
        self.axiom(f)

    def lkey(self, t): return ("L", mangle(t))

    def lget(self, ref):
        t = res(res(ref.t).args[0])
        if t.kind == "var":
            return None
        return z3.simplify(z3.Select(self.hget(self.lkey(t), z3.SeqSort(sort(t))), ref.z))

    def lset(self, ref, seq):
        t = res(res(ref.t).args[0])
        s = z3.SeqSort(sort(t))
        self.hset(self.lkey(t), s, ref.z, seq)

    def dkeys(self, ref):
        k, v = (res(a) for a in res(ref.t).args)
        mk, mv = mangle(k), mangle(v)
        ks, vs = sort(k), sort(v)
        return (("Do", mk, mv), z3.SeqSort(ks)), (("Dd", mk, mv), z3.ArraySort(ks, z3.BoolSort())), (("Dv", mk, mv), z3.ArraySort(ks, vs))

    def dget(self, ref):
        return [self.sel(self.hget(k, s), ref.z) for k, s in self.dkeys(ref)]

    def sel(self, h, a):
        """a cell of the heap; joined paths that leave the cell alike are looked through"""
        z = z3.simplify(z3.Select(h, a))
        if not (z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SELECT and z.arg(0).decl().kind() == z3.Z3_OP_ITE):
            return z
        memo = {}

        def go(h, d):
            k = h.get_id()
            if k not in memo:
                r = z3.simplify(z3.Select(h, a))
                if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_SELECT and r.arg(0).decl().kind() == z3.Z3_OP_ITE and d < 30:
                    i = r.arg(0)
                    x, y = go(i.arg(1), d + 1), go(i.arg(2), d + 1)
                    r = x if x is not None and y is not None and x.eq(y) else None
                memo[k] = r
            return memo[k]
        r = go(h, 0)
        return z if r is None else r

    def dset(self, ref, terms):
        for (k, s), z in zip(self.dkeys(ref), terms):
            self.hset(k, s, ref.z, z)

    def skey(self, ref):
        t = res(res(ref.t).args[0])
        return ("S", mangle(t)), z3.ArraySort(sort(t), z3.BoolSort())

    def sget(self, ref):
        k, s = self.skey(ref)
        return z3.simplify(z3.Select(self.hget(k, s), ref.z))

    def sset(self, ref, z):
        k, s = self.skey(ref)
        self.hset(k, s, ref.z, z)

    def enum_info(self, name):
        r = self.prog.lookup(name)
        return r[1] if r and r[0] == "class" else None

    # ------------------------------------------------------------------ wrapping terms
    def wrap(self, t, z, bound=True):
        t = res(t)
        if t.kind == "tuple":
            dt = sort(t)
            z = z3.simplify(z)
            return Tup([self.wrap(a, z3.simplify(getattr(dt, "c%d" % i)(z)), bound) for i, a in enumerate(t.args)])
        if t.kind == "none":
            return NONE
        v = V(t, z)
        if bound:
            self.bound(v)
        return v

    def typeof(self, v):
        if isinstance(v, V):
            return res(v.t)
        if isinstance(v, Tup):
            return Tuple(*[self.typeof(x) for x in v.items])
        if isinstance(v, MRef):
            m = self.m(v)
            if m["kind"] == "low":
                return self.typeof(m["v"])
            if m["kind"] == "list":
                t = m["t"]
                for x in m["items"]:
                    t = self.join(t, self.typeof(x))
                return List(t) if not m.get("isset") else Set(t)
            if m["kind"] == "dict":
                if m["pairs"] or m.get("lit"):
                    return Y
                return Dict(*m["t"])
            if m["kind"] == "obj":
                return Val(m["cls"])
        raise Unsupported("no type for %r" % (v,))

    def join(self, a, b):
        a, b = res(a), res(b)
        if a == b:
            return a
        if a.kind == "var":
            a.bound = b
            return b
        if b.kind == "var":
            b.bound = a
            return a
        if a.kind == "none":
            return Opt(b)
        if b.kind == "none":
            return Opt(a)
        if a.kind == "opt":
            return Opt(self.join(a.args[0], b.args[0] if b.kind == "opt" else b))
        if b.kind == "opt":
            return Opt(self.join(a, b.args[0]))
        if "yaml" in (a.kind, b.kind):
            return Y
        if a.kind == b.kind and a.kind in ("list", "set", "dict", "tuple", "seq") and len(a.args) == len(b.args):
            return T(a.kind, *[self.join(x, y) for x, y in zip(a.args, b.args)])
        if a.kind in ("int", "enum", "bool") and b.kind in ("int", "enum", "bool"):
            return Int
        if a.kind == "ref" and b.kind == "ref":
            r = self.schema.common_base(a.name, b.name)
            if r:
                return Ref(r)
        raise Unsupported("cannot join types %r and %r" % (a, b))

    def coerce(self, v, t):
        """A term of the sort of t for value v."""
        t = res(t)
        if isinstance(v, MRef):
            m = self.m(v)
            if m["kind"] == "low":
                v = m["v"]
            elif t.kind == "yaml":
                return self.to_y(v)
            elif t.kind == "seq":
                if m["kind"] != "list":
                    raise Unsupported("seq of " + m["kind"])
                m["frozen"] = True
                return self.mkseq([self.coerce(x, t.args[0]) for x in m["items"]], sort(t.args[0]))
            elif t.kind == "val":
                if m["kind"] != "obj":
                    raise Unsupported("value object expected")
                return self.freeze(v)
            elif t.kind == "opt" and res(t.args[0]).kind not in REFKINDS:
                return opt_dt(res(t.args[0])).some(self.coerce(v, t.args[0]))
            else:
                v = self.lower(v, t.args[0] if t.kind == "opt" else t)
        if isinstance(v, Tup):
            if t.kind == "opt":
                return opt_dt(res(t.args[0])).some(self.coerce(v, t.args[0]))
            if t.kind == "yaml":
                return self.to_y(v)
            if t.kind in ("seq", "list"):
                raise Unsupported("tuple as list")
            if t.kind != "tuple" or len(t.args) != len(v.items):
                raise Unsupported("tuple shape: %r into %r" % (v, t))
            return sort(t).mk(*[self.coerce(x, a) for x, a in zip(v.items, t.args)])
        if not isinstance(v, V):
            raise Unsupported("cannot make a term of %r" % (v,))
        s = res(v.t)
        if s == t:
            return v.z
        if t.kind == "var":
            t.bound = s
            return v.z
        if t.kind == "opt":
            a = res(t.args[0])
            if s.kind == "none":
                return z3.IntVal(0) if a.kind in REFKINDS else opt_dt(a).none
            if s.kind == "opt":
                if sort(s) == sort(t):
                    return v.z
                if res(s.args[0]).kind == "yaml" or True:
                    raise Unsupported("opt coercion %r -> %r" % (s, t))
            if s.kind == "yaml":
                z = self.coerce(v, a)
                return z3.If(self.y_isnone(v.z), z3.IntVal(0) if a.kind in REFKINDS else opt_dt(a).none,
                             z if a.kind in REFKINDS else opt_dt(a).some(z))
            z = self.coerce(v, a)
            return z if a.kind in REFKINDS else opt_dt(a).some(z)
        if t.kind in ("int", "enum") and s.kind in ("int", "enum"):
            return v.z
        if t.kind in ("int", "real") and s.kind == "bool":
            return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
        if t.kind == "real" and s.kind in ("int", "enum"):
            return z3.ToReal(v.z)
        if t.kind == "yaml":
            return self.to_y(v)
        if s.kind == "yaml":
            if t.kind == "str":
                return self.yuf("y_str", z3.StringSort())(v.z)
            if t.kind in ("int", "enum"):
                return self.yuf("y_int", z3.IntSort())(v.z)
            if t.kind == "bool":
                return self.yuf("y_bool", z3.BoolSort())(v.z)
            if t.kind == "seq" and res(t.args[0]).kind == "yaml":
                return self.y_seq(v.z)
        if t.kind == "seq" and s.kind == "list":
            if res(t.args[0]) == res(s.args[0]):
                return self.lget(v)
        if t.kind in REFKINDS and s.kind in REFKINDS and t.kind == s.kind:
            if t.kind == "ref":
                return v.z
            self.join(s, t)
            if mangle(s) == mangle(t):
                return v.z
        if s.kind == "opt" and t.kind != "opt":
            return self.coerce(self.force(v), t)
        if t.kind == "bool" and s.kind in ("int", "enum"):
            return v.z != 0
        raise Unsupported("coercion of %r into %r" % (s, t))

    def mkseq(self, zs, es):
        if not zs:
            return z3.Empty(z3.SeqSort(es))
        us = [z3.Unit(z) for z in zs]
        return us[0] if len(us) == 1 else z3.Concat(*us)

    # ------------------------------------------------------------------ local containers
    def m(self, r):
        return self.st.meta[r.id]

    def new_meta(self, **kw):
        self.st.n += 1
        i = ("m", self.st.n)
        self.st.meta[i] = kw
        return MRef(i, kw.get("site"))

    def new_list(self, items, site=None, isset=False):
        t = self.site_types.get(site) if site else None
        return self.new_meta(kind="list", items=list(items), t=t or TVarT(), site=site, isset=isset)

    def lower(self, r, want=None):
        """Turn a local container into a heap container; returns V."""
        m = self.m(r)
        if m["kind"] == "low":
            return m["v"]
        if m.get("frozen"):
            raise Unsupported("container shared with a value object")
        t = self.typeof(r)
        if want is not None and res(want).kind != "var":
            if res(want).kind != t.kind and not (t.kind == "yaml" and res(want).kind == "dict"):
                raise Unsupported("container kind %r as %r" % (t, want))
            if t.kind == "yaml":
                t = res(want)
            else:
                t = res(want)
        if m["kind"] == "list" and not m.get("isset"):
            et = res(t.args[0])
            if m.get("site") and et.kind != "var":
                self.site_types[m["site"]] = et
            v = V(List(et), self.new_addr())
            if et.kind != "var" or m["items"]:
                zs = [self.coerce(x, et) for x in m["items"]]
                self.lset(v, self.mkseq(zs, sort(et)))
            else:
                self.st.fresh += ((v.z, v.t),)
        elif m["kind"] == "list":
            et = res(t.args[0])
            if et.kind == "var" and not m["items"]:
                et = Str             # an empty set of whatever
            v = V(Set(et), self.new_addr())
            s = z3.K(sort(et), z3.BoolVal(False))
            for x in m["items"]:
                s = z3.Store(s, self.coerce(x, et), z3.BoolVal(True))
            self.sset(v, s)
        elif m["kind"] == "dict":
            if t.kind != "dict":
                raise Unsupported("literal record as a dictionary")
            k, vt = res(t.args[0]), res(t.args[1])
            v = V(Dict(k, vt), self.new_addr())
            ks = sort(k)
            order, dom = z3.Empty(z3.SeqSort(ks)), z3.K(ks, z3.BoolVal(False))
            val = z3.Const("dv0_" + mangle(k) + "_" + mangle(vt), z3.ArraySort(ks, sort(vt)))
            for kk, x in m["pairs"].items():
                kz = self.coerce(self.pylit(kk), k)
                order = z3.Concat(order, z3.Unit(kz))
                dom = z3.Store(dom, kz, z3.BoolVal(True))
                val = z3.Store(val, kz, self.coerce(x, vt))
            self.dset(v, [z3.simplify(order), dom, val])
        else:
            raise Unsupported("lowering " + m["kind"])
        self.st.meta[r.id] = {"kind": "low", "v": v}
        return v

    def pylit(self, x):
        if x is None:
            return NONE
        if isinstance(x, bool):
            return vbool(x)
        if isinstance(x, int):
            return vint(x)
        if isinstance(x, str):
            return vstr(x)
        if isinstance(x, tuple):
            return Tup([self.pylit(y) for y in x])
        if isinstance(x, bytes):
            return V(Opaque("bytes"), z3.Const("bytes_" + repr(x), sort(Opaque("bytes"))))
        if isinstance(x, float):
            return V(Real, z3.RealVal(x))
        raise Unsupported("literal %r" % (x,))

    def freeze(self, r):
        m = self.m(r)
        m["frozen"] = True
        dt = val_dt(Val(m["cls"]))
        zs = []
        for f, ft in VALCLASSES[m["cls"]]:
            if f not in m["fields"]:
                raise Unsupported("field %s of %s not set" % (f, m["cls"]))
            zs.append(self.coerce(m["fields"][f], ft))
        return dt.mk(*zs)

    # ------------------------------------------------------------------ yaml terms
    def yuf(self, name, rng, *extra):
        return uf(name, sort(Y), *extra, rng)

    def y_isnone(self, z): return z == z3.Const("y_none", sort(Y))
    def y_has(self, z, k): return self.yuf("y_has", z3.BoolSort(), z3.StringSort())(z, k)
    def y_get(self, z, k): return self.yuf("y_get", sort(Y), z3.StringSort())(z, k)
    def y_seq(self, z): return self.yuf("y_seq", z3.SeqSort(sort(Y)))(z)

    def to_y(self, v):
        ys = sort(Y)
        if isinstance(v, MRef):
            m = self.m(v)
            if m["kind"] == "low":
                return self.to_y(m["v"])
            if m["kind"] == "list":
                m["frozen"] = True
                return uf("y_oflist", z3.SeqSort(ys), ys)(self.mkseq([self.to_y(x) for x in m["items"]], ys))
            if m["kind"] == "dict":
                m["frozen"] = True
                z = z3.Const("y_emptymap", ys)
                for k in sorted(m["pairs"], key=repr):
                    z = uf("y_put", ys, ys, ys, ys)(z, self.to_y(self.pylit(k)), self.to_y(m["pairs"][k]))
                return z
        if isinstance(v, Tup):
            return uf("y_oftuple", z3.SeqSort(ys), ys)(self.mkseq([self.to_y(x) for x in v.items], ys))
        t = res(v.t)
        if t.kind == "yaml":
            return v.z
        if t.kind == "none":
            return z3.Const("y_none", ys)
        if t.kind == "str":
            return uf("y_ofstr", z3.StringSort(), ys)(v.z)
        if t.kind in ("int", "enum"):
            return uf("y_ofint", z3.IntSort(), ys)(v.z)
        if t.kind == "bool":
            return uf("y_ofbool", z3.BoolSort(), ys)(v.z)
        if t.kind == "opt":
            a = res(t.args[0])
            if a.kind in REFKINDS:
                raise Unsupported("optional reference into YAML")
            dt = opt_dt(a)
            return z3.If(dt.is_none(v.z), z3.Const("y_none", ys), self.to_y(self.wrap(a, dt.the(v.z), False)))
        if t.kind == "list" and res(t.args[0]).kind == "yaml":
            return uf("y_oflist", z3.SeqSort(ys), ys)(self.lget(v))
        if t.kind == "seq" and res(t.args[0]).kind == "yaml":
            return uf("y_oflist", z3.SeqSort(ys), ys)(v.z)
        if t.kind == "seq" and res(t.args[0]).kind == "str":
            return uf("y_oflist_str", z3.SeqSort(z3.StringSort()), ys)(v.z)
        if t.kind == "opaque":
            return uf("y_of_" + t.name, sort(t), ys)(v.z)
        if t.kind == "dict":
            o, d, vv = self.dget(v)
            return uf("y_ofdict_" + mangle(t), o.sort(), vv.sort(), ys)(o, vv)
        raise Unsupported("value of type %r in YAML" % t)

    # ------------------------------------------------------------------ values
    def isnone(self, v):
        if isinstance(v, V):
            t = res(v.t)
            if t.kind == "none":
                return z3.BoolVal(True)
            if t.kind == "opt":
                a = res(t.args[0])
                return v.z == 0 if a.kind in REFKINDS else opt_dt(a).is_none(v.z)
            if t.kind == "yaml":
                return self.y_isnone(v.z)
        return z3.BoolVal(False)

    def force(self, v, exc="TypeError"):
        """Use of an optional value as a value: None raises."""
        if isinstance(v, MRef) and self.m(v)["kind"] == "low":
            v = self.m(v)["v"]
        if isinstance(v, V):
            t = res(v.t)
            if t.kind == "none":
                raise PyRaise(exc)
            if t.kind == "opt":
                if self.branch(self.isnone(v)):
                    raise PyRaise(exc)
                a = res(t.args[0])
                return self.wrap(a, v.z if a.kind in REFKINDS else z3.simplify(opt_dt(a).the(v.z)))
        return v

    def truth(self, v):
        if isinstance(v, (Tup,)):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, MRef):
            m = self.m(v)
            if m["kind"] == "low":
                return self.truth(m["v"])
            if m["kind"] == "list":
                return z3.BoolVal(bool(m["items"]))
            if m["kind"] == "dict":
                return z3.BoolVal(bool(m["pairs"]))
            return z3.BoolVal(True)
        if isinstance(v, Marker):
            if v.k == "items" or v.k == "iter":
                return z3.Length(v.base) > 0 if v.k == "iter" else z3.BoolVal(True)
            return z3.BoolVal(True)
        if isinstance(v, Undef):
            raise Unsupported("value of %s after a loop" % v.name)
        t = res(v.t)
        k = t.kind
        if k == "bool":
            return v.z
        if k == "none":
            return z3.BoolVal(False)
        if k in ("int", "enum", "real"):
            return v.z != 0
        if k == "str" or k == "seq":
            return z3.Length(v.z) > 0
        if k == "list":
            s = self.lget(v)
            if s is None:
                return z3.BoolVal(False)
            return z3.Length(s) > 0
        if k == "set":
            s = self.sget(v)
            return s != z3.K(s.sort().domain(), z3.BoolVal(False))
        if k == "dict":
            return z3.Length(self.dget(v)[0]) > 0
        if k == "opt":
            a = res(t.args[0])
            inner = self.wrap(a, v.z if a.kind in REFKINDS else opt_dt(a).the(v.z), False)
            return z3.And(z3.Not(self.isnone(v)), self.truth(inner))
        if k == "yaml":
            return self.yuf("y_truth", z3.BoolSort())(v.z)
        if k in ("ref", "val"):
            ci = self.cls_of(t.name)
            if ci and (self.find_method(ci, "__bool__") or self.find_method(ci, "__len__")):
                raise Unsupported("user-defined truth")
            return z3.BoolVal(True)
        if k == "opaque":
            if t.name in self.schema.truthy:
                return z3.BoolVal(True)
            return uf("truth_" + t.name, sort(t), z3.BoolSort())(v.z)
        raise Unsupported("truth of %r" % t)

    def cls_of(self, name):
        r = self.prog.lookup(name)
        return r[1] if r and r[0] == "class" else None

    def eq(self, a, b):
        if isinstance(a, MRef) and self.m(a)["kind"] == "low":
            a = self.m(a)["v"]
        if isinstance(b, MRef) and self.m(b)["kind"] == "low":
            b = self.m(b)["v"]
        if isinstance(a, Marker) or isinstance(b, Marker):
            if isinstance(a, Marker) and isinstance(b, Marker) and a.k == b.k == "class":
                return z3.BoolVal(a.info is b.info)
            raise Unsupported("comparison of %r" % (a,))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And(*[self.eq(x, y) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
        if isinstance(a, MRef) or isinstance(b, MRef):
            if isinstance(b, MRef) and not isinstance(a, MRef):
                a, b = b, a
            m = self.m(a)
            if isinstance(b, MRef):
                m2 = self.m(b)
                if m["kind"] == m2["kind"] == "list" and not m.get("isset") and not m2.get("isset"):
                    if len(m["items"]) != len(m2["items"]):
                        return z3.BoolVal(False)
                    return z3.And([self.eq(x, y) for x, y in zip(m["items"], m2["items"])] + [z3.BoolVal(True)])
                if m["kind"] == m2["kind"] == "dict":
                    if set(m["pairs"]) != set(m2["pairs"]):
                        return z3.BoolVal(False)
                    return z3.And([self.eq(m["pairs"][k], m2["pairs"][k]) for k in m["pairs"]] + [z3.BoolVal(True)])
                if m["kind"] == m2["kind"] == "obj":
                    return self.freeze(a) == self.freeze(b)
                if m.get("isset") and m2.get("isset"):
                    return self.sget(self.lower(a)) == self.sget(self.lower(b))
            if isinstance(b, V):
                t = res(b.t)
                if t.kind == "none":
                    return z3.BoolVal(False)
                if t.kind == "opt":
                    return z3.And(z3.Not(self.isnone(b)), self.eq(a, self.wrap(t.args[0], b.z if res(t.args[0]).kind in REFKINDS else opt_dt(res(t.args[0])).the(b.z), False)))
                if t.kind == "list" and m["kind"] == "list":
                    et = res(t.args[0])
                    if et.kind == "var":
                        return z3.BoolVal(not m["items"])
                    return self.lget(b) == self.mkseq([self.coerce(x, et) for x in m["items"]], sort(et))
                if t.kind == "seq" and m["kind"] == "list":
                    return b.z == self.mkseq([self.coerce(x, t.args[0]) for x in m["items"]], sort(t.args[0]))
                if t.kind == "val" and m["kind"] == "obj":
                    return self.freeze(a) == b.z
                if t.kind == "yaml":
                    return self.to_y(a) == b.z
                if t.kind == "set" and m.get("isset"):
                    return self.sget(self.lower(a, t)) == self.sget(b)
                if t.kind == "dict" and m["kind"] == "dict":
                    return z3.And([x == y for x, y in zip(self.dget(self.lower(a, t))[:2], self.dget(b)[:2])] + ([z3.BoolVal(True)]))
            raise Unsupported("comparison of containers")
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported("undefined local in comparison")
        if isinstance(b, Tup):
            a, b = b, a
        if isinstance(a, Tup):
            t = res(b.t)
            if t.kind == "opt" and res(t.args[0]).kind == "tuple":
                return z3.And(z3.Not(self.isnone(b)), self.eq(a, self.wrap(t.args[0], opt_dt(res(t.args[0])).the(b.z), False)))
            if t.kind == "none":
                return z3.BoolVal(False)
            raise Unsupported("tuple compared with %r" % t)
        s, t = res(a.t), res(b.t)
        if s.kind == "none" or t.kind == "none":
            return self.isnone(b if s.kind == "none" else a)
        if s.kind == "opt" or t.kind == "opt":
            if s.kind == "opt" and t.kind == "opt" and sort(s) == sort(t):
                return a.z == b.z
            if t.kind == "opt":
                a, b, s, t = b, a, t, s
            inner = res(s.args[0])
            return z3.And(z3.Not(self.isnone(a)), self.eq(self.wrap(inner, a.z if inner.kind in REFKINDS else opt_dt(inner).the(a.z), False), b))
        if s.kind == "yaml" or t.kind == "yaml":
            if s.kind != "yaml":
                a, b, s, t = b, a, t, s
            if t.kind == "str":
                # a YAML scalar equals a text exactly if it is that text
                return z3.And(self.yuf("y_isstr", z3.BoolSort())(a.z), self.yuf("y_str", z3.StringSort())(a.z) == b.z)
            return a.z == self.to_y(b)
        nums = ("int", "enum", "bool", "real")
        if s.kind in nums and t.kind in nums:
            if s.kind == t.kind:
                return a.z == b.z
            if "real" in (s.kind, t.kind):
                return self.coerce(a, Real) == self.coerce(b, Real)
            return self.coerce(a, Int) == self.coerce(b, Int)
        if s.kind == t.kind == "list":
            x, y = self.lget(a), self.lget(b)
            if x is None or y is None:
                o = y if x is None else x
                return z3.BoolVal(True) if o is None else z3.Length(o) == 0
            if mangle(s) != mangle(t):
                raise Unsupported("lists of different types")
            return x == y
        if s.kind == t.kind == "set":
            return self.sget(a) == self.sget(b)
        if s.kind == t.kind == "dict":
            return self.dict_eq(self.dget(a), self.dget(b))
        if {s.kind, t.kind} == {"list", "seq"}:
            x = self.lget(a) if s.kind == "list" else a.z
            y = self.lget(b) if t.kind == "list" else b.z
            return x == y
        if s.kind == t.kind and sort(s) == sort(t):
            return a.z == b.z
        if s.kind != t.kind and not ({s.kind, t.kind} & {"opaque", "real"}):
            return z3.BoolVal(False)
        raise Unsupported("comparison of %r and %r" % (s, t))

    def dict_eq(self, x, y, order=False):
        k = z3.Const("deq_k", x[1].sort().domain())
        conj = [x[1] == y[1]]
        if order:
            conj.append(x[0] == y[0])
        conj.append(z3.Or(x[2] == y[2],
                          z3.ForAll([k], z3.Implies(z3.Select(x[1], k), z3.Select(x[2], k) == z3.Select(y[2], k)))))
        return z3.And(*conj)

    def is_(self, a, b):
        if isinstance(a, V) and res(a.t).kind == "none":
            a, b = b, a
        if isinstance(b, V) and res(b.t).kind == "none":
            return self.isnone(a)
        if isinstance(a, MRef) and isinstance(b, MRef):
            return z3.BoolVal(a.id == b.id)
        if isinstance(a, V) and isinstance(b, V):
            s, t = res(a.t), res(b.t)
            us = res(s.args[0]) if s.kind == "opt" else s
            ut = res(t.args[0]) if t.kind == "opt" else t
            if us.kind in REFKINDS and ut.kind in REFKINDS:
                return a.z == b.z
            if us.kind in ("bool", "enum") and ut.kind in ("bool", "enum"):
                return self.eq(a, b)
        if isinstance(a, Marker) and isinstance(b, Marker) and a.k == b.k == "class":
            return z3.BoolVal(a.info is b.info)
        raise Unsupported("identity of values")

    # ------------------------------------------------------------------ names
    def frame(self):
        return self.st.frames[-1]

    def getname(self, name):
        fi = len(self.st.frames) - 1
        while fi is not None and fi >= 0:
            f = self.st.frames[fi]
            if name in f["vars"]:
                v = f["vars"][name]
                if isinstance(v, Undef):
                    raise Unsupported("local %s used after a loop that sets it" % v.name)
                return v
            fi = f["parent"]
        return self.modname(self.frame()["mod"], name)

    def modname(self, mod, name):
        if name in mod.names:
            e = mod.names[name]
            if e[0] == "class":
                return Marker(k="class", info=e[1])
            if e[0] == "func":
                return Marker(k="func", info=e[1], clos=None)
            if e[0] == "expr":
                key = mod.name + "." + name
                if key in self.schema.ext_values:
                    return self.schema.ext_values[key](self)
                self.st.frames.append({"vars": {}, "mod": mod, "func": None, "parent": None, "cls": None})
                try:
                    return self.ev(e[1])
                finally:
                    self.st.frames.pop()
            if e[0] == "import":
                return self.imported(e[1], e[2])
        if name in BUILTINS:
            return Marker(k="builtin", name=name)
        if name in ("True", "False"):
            return vbool(name == "True")
        if hasattr(pyb, name) and isinstance(getattr(pyb, name), type) and issubclass(getattr(pyb, name), BaseException):
            return Marker(k="exc", name=name)
        raise PyRaise("NameError") if False else Unsupported("name " + name)

    def imported(self, modname, attr):
        m = self.prog.module(modname)
        if m is None:
            return Marker(k="ext", path=modname + ("." + attr if attr else ""))
        if attr is None:
            return Marker(k="module", mod=m)
        sub = self.prog.module(modname + "." + attr)
        if attr in m.names:
            return self.modname(m, attr)
        if sub:
            return Marker(k="module", mod=sub)
        return Marker(k="ext", path=modname + "." + attr)

    # ------------------------------------------------------------------ classes
    def mro(self, ci):
        out = [ci]
        for b in ci.bases:
            r = self.resolve_base(ci, b)
            if r:
                out += self.mro(r)
        return out

    def resolve_base(self, ci, b):
        try:
            if isinstance(b, ast.Name):
                o = ci.outer
                while o:
                    if b.id in o.nested:
                        return o.nested[b.id]
                    o = o.outer
                e = ci.module.names.get(b.id)
                if e and e[0] == "class":
                    return e[1]
                if e and e[0] == "import":
                    r = self.imported(e[1], e[2])
                    if r.k == "class":
                        return r.info
            elif isinstance(b, ast.Attribute):
                r = self.prog.lookup(ci.module.name + "." + ast.unparse(b))
                if r and r[0] == "class":
                    return r[1]
        except Unsupported:
            pass
        return None

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def exc_parents(self, name):
        """All names an exception class is an instance of."""
        out = [name]
        short = name.split(".")[-1]
        r = self.prog.lookup(name) if "." in name else None
        if r and r[0] == "class":
            for c in self.mro(r[1])[1:]:
                out.append(c.qual)
            for c in self.mro(r[1]):
                for b in c.bases:
                    if isinstance(b, ast.Name) and hasattr(pyb, b.id):
                        out += [k.__name__ for k in getattr(pyb, b.id).__mro__]
        elif hasattr(pyb, short) and "." not in name:
            out += [k.__name__ for k in getattr(pyb, short).__mro__]
        else:
            out += ["Exception", "BaseException"] + list(self.schema.exc_bases.get(name, []))
        return set(out)

    # ------------------------------------------------------------------ logs (ghost histories)
    def log(self, ch, name, *args):
        es = sort(Opaque("Event"))
        zs = [a.z if isinstance(a, V) else a for a in args]
        ev = uf("ev_%s_%d" % (name, len(zs)), *[z.sort() for z in zs], es)(*zs) if zs else z3.Const("ev_" + name, es)
        cur = self.getlog(ch)
        self.st.logs[ch] = z3.simplify(z3.Concat(cur, z3.Unit(ev)))

    def getlog(self, ch):
        if ch not in self.st.logs:
            self.st.logs[ch] = z3.Empty(z3.SeqSort(sort(Opaque("Event"))))
        return self.st.logs[ch]

    def logsort(self):
        return z3.SeqSort(sort(Opaque("Event")))

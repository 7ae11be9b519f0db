"""Statements, expressions, calls and loops."""
import ast
import builtins as pyb
import z3
from .terms import *
from .engine import (PC, Interp, PyRaise, ReturnX, BreakX, ContinueX, Infeasible, State)
from .prover import Desc, Comp, free_syms, subst
from .lib import LibMixin


def strip_ite(z):
    return z


class Exec(LibMixin, Interp):
    merge_ifs = False
    part = None
    name_merges = False
    dbg = False

    # ------------------------------------------------------------------ functions
    def call_function(self, fi, args, kwargs=None, clos=None, selfv=None):
        kwargs = kwargs or {}
        if fi.qual in self.schema.models and self.schema.models[fi.qual] is not None:
            a = ([selfv] if selfv is not None else []) + list(args)
            self.trusted.add("assumed contract: " + fi.qual)
            return self.schema.models[fi.qual](self, a, kwargs)
        if fi.otherdecs:
            raise Unsupported("decorator on " + fi.qual)
        if len(self.st.frames) > 40:
            raise Unsupported("recursion")
        for d in ast.walk(fi.node):
            if isinstance(d, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
                raise Unsupported("%s in %s" % (type(d).__name__, fi.qual))
        self.inlined.add(fi.qual)
        vars = self.bind(fi, ([selfv] if selfv is not None else []) + list(args), kwargs)
        fr = {"vars": vars, "mod": fi.module, "func": fi, "parent": clos, "cls": fi.cls}
        self.st.frames.append(fr)
        depth = len(self.st.frames)
        try:
            if isinstance(fi.node, ast.Lambda):
                return self.ev(fi.node.body)
            self.block(fi.node.body)
            return NONE
        except ReturnX as r:
            return r.v
        finally:
            del self.st.frames[depth - 1:]

    def bind(self, fi, args, kwargs):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        args = list(args)
        for n, v in zip(names, args):
            vars[n] = v
        rest = args[len(names):]
        if rest and not a.vararg:
            raise PyRaise("TypeError")
        if a.vararg:
            vars[a.vararg.arg] = Tup(rest)
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in vars:
                    raise PyRaise("TypeError")
                vars[n] = kw.pop(n)
        if kw:
            if not a.kwarg:
                raise PyRaise("TypeError")
            raise Unsupported("**kwargs")
        if a.kwarg:
            vars[a.kwarg.arg] = self.new_meta(kind="dict", pairs={}, lit=True, t=(Str, TVarT()))
        nd = len(a.defaults)
        pend = []
        for i, d in enumerate(a.defaults):
            n = names[len(names) - nd + i]
            if n not in vars:
                pend.append((n, d))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vars and d is not None:
                pend.append((x.arg, d))
        for n, d in pend:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
                raise Unsupported("mutable default argument")
            self.st.frames.append({"vars": {}, "mod": fi.module, "func": None, "parent": None, "cls": fi.cls})
            try:
                vars[n] = self.ev(d)
            finally:
                self.st.frames.pop()
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vars:
                raise PyRaise("TypeError")
        return vars

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(s).__name__, s.lineno))
        m(s)

    def st_Pass(self, s): pass
    def st_Import(self, s):
        for a in s.names:
            self.frame()["vars"][(a.asname or a.name).split(".")[0]] = self.imported(a.name, None)

    def st_ImportFrom(self, s):
        for a in s.names:
            self.frame()["vars"][a.asname or a.name] = self.imported(s.module, a.name)

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def st_Return(self, s): raise ReturnX(self.ev(s.value) if s.value else NONE)
    def st_Break(self, s): raise BreakX()
    def st_Continue(self, s): raise ContinueX()

    def st_Assert(self, s):
        if not self.branch(self.test(s.test)):
            raise PyRaise("AssertionError")

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getname(t.id)
            self.assign(t, self.augop(s.op, cur, self.ev(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, cur, self.ev(s.value)))
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value), self.ev(t.slice)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(s.op, cur, self.ev(s.value)))
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, cur, v):
        if isinstance(op, ast.Add) and self.islist(cur):
            self.call_method(cur, "extend", [v], {})
            return cur
        if isinstance(op, ast.BitOr) and self.isset(cur):
            self.call_method(cur, "update", [v], {})
            return cur
        return self.binop(op, cur, v)

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame()["vars"].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev(t.slice))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value), t.attr)
            else:
                raise Unsupported("del")

    def st_FunctionDef(self, s):
        from .front import FuncInfo
        fr = self.frame()
        fi = FuncInfo((fr["func"].qual if fr["func"] else "?") + ".<locals>." + s.name, s, fr["mod"], None)
        fr["vars"][s.name] = Marker(k="func", info=fi, clos=len(self.st.frames) - 1)

    def st_ClassDef(self, s):
        fr = self.frame()
        fr["vars"][s.name] = Marker(k="localclass", node=s, frame=len(self.st.frames) - 1)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frame()["vars"][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                it = self.iterate(v)
                i, n = stars[0], len(t.elts) - 1
                if it[0] != "concrete" or len(it[1]) < n:
                    raise Unsupported("starred assignment")
                xs = list(it[1])
                k = len(xs) - n
                for x, y in zip(t.elts, xs[:i] + [self.new_list(xs[i:i + k])] + xs[i + k:]):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y)
                return
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev(t.slice), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        v = self.force(v)
        if isinstance(v, Tup):
            if len(v.items) != n:
                raise PyRaise("ValueError")
            return v.items
        if isinstance(v, MRef):
            m = self.m(v)
            if m["kind"] == "list":
                if len(m["items"]) != n:
                    raise PyRaise("ValueError")
                return list(m["items"])
            if m["kind"] == "low":
                v = m["v"]
        if isinstance(v, V) and res(v.t).kind in ("list", "seq"):
            s = self.lget(v) if res(v.t).kind == "list" else v.z
            if not self.branch(z3.Length(s) == n):
                raise PyRaise("ValueError")
            return [self.wrap(res(v.t).args[0], z3.simplify(s[i])) for i in range(n)]
        raise Unsupported("unpacking")

    def st_Raise(self, s):
        if s.exc is None:
            cur = self.frame()["vars"].get("$exc")
            if cur is None:
                raise Unsupported("bare raise")
            raise PyRaise(cur.cls, cur.eargs)
        v = self.ev(s.exc)
        if isinstance(v, Marker) and v.k in ("class", "exc", "ext"):
            raise PyRaise(self.exc_name(v))
        if isinstance(v, Marker) and v.k == "excinst":
            raise PyRaise(v.cls, v.args)
        raise Unsupported("raise of %r" % (v,))

    def exc_name(self, m):
        if m.k == "class":
            return m.info.qual
        if m.k == "exc":
            return m.name
        return self.schema.ext_alias.get(m.path, m.path)

    def matches(self, e, typ):
        if typ is None:
            return True
        if isinstance(typ, Tup):
            return any(self.matches(e, t) for t in typ.items)
        if isinstance(typ, Marker) and typ.k in ("class", "exc", "ext"):
            return self.exc_name(typ) in self.exc_parents(e.cls)
        raise Unsupported("except clause")

    def st_Try(self, s):
        nf = len(self.st.frames)

        def run():
            try:
                self.block(s.body)
            except PyRaise as e:
                del self.st.frames[nf:]
                for h in s.handlers:
                    typ = self.ev(h.type) if h.type else None
                    if self.matches(e, typ):
                        vs = self.frame()["vars"]
                        old = vs.get("$exc")
                        vs["$exc"] = Marker(k="excinst", cls=e.cls, eargs=e.eargs, args=e.eargs)
                        if h.name:
                            vs[h.name] = vs["$exc"]
                        try:
                            self.block(h.body)
                        finally:
                            vs = self.frame()["vars"] if len(self.st.frames) >= nf else {}
                            vs.pop("$exc", None)
                            if h.name:
                                vs.pop(h.name, None)
                            if old is not None:
                                vs["$exc"] = old
                        return
                raise
            else:
                self.block(s.orelse)
        if not s.finalbody:
            return run()
        try:
            run()
        except (PyRaise, ReturnX, BreakX, ContinueX):
            del self.st.frames[nf:]
            self.block(s.finalbody)      # a return in here replaces the exception, as in Python
            raise
        self.block(s.finalbody)

    def st_With(self, s):
        nf = len(self.st.frames)
        ctxs = []
        for it in s.items:
            c = self.ev(it.context_expr)
            v = self.call_method(c, "__enter__", [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            ctxs.append(c)
        try:
            self.block(s.body)
        except (PyRaise, ReturnX, BreakX, ContinueX):
            del self.st.frames[nf:]
            for c in reversed(ctxs):
                self.call_method(c, "__exit__", [NONE, NONE, NONE], {})
            raise
        for c in reversed(ctxs):
            self.call_method(c, "__exit__", [NONE, NONE, NONE], {})

    def st_If(self, s):
        if self.merge_ifs:
            c = z3.simplify(self.test(s.test))
            if z3.is_true(c):
                return self.block(s.body)
            if z3.is_false(c):
                return self.block(s.orelse)
            return self.merged(lambda: self.block(s.body if self.branch(c) else s.orelse))
        self.block(s.body if self.branch(self.test(s.test)) else s.orelse)

    # ------------------------------------------------------------------ merging of paths
    def merged(self, fn):
        """Explore fn; join the normally ending paths into one state; other endings stay separate paths."""
        outs = self.explore(fn, self.st)
        if not outs:
            raise Infeasible()
        norm = [o for o in outs if o.kind == "normal"]
        rest = [o for o in outs if o.kind != "normal"]
        for o in rest:
            if len(outs) > 1 and not self.branch(o.cond):
                continue
            self.adopt(o)
            if o.kind == "return":
                raise ReturnX(o.val)
            if o.kind == "break":
                raise BreakX()
            if o.kind == "continue":
                raise ContinueX()
            raise PyRaise(o.val.cls, o.val.eargs)
        if not norm:
            raise Infeasible()
        while norm:
            st = self.try_merge(norm)
            if st is not None:
                pc = list(self.st.pc)
                self.st = st
                common = set.intersection(*[{f.get_id() for f in o.facts} for o in norm])
                self.st.pc = PC(pc + [(f, False) if f.get_id() in common or f.get_id() in self.axioms else (z3.Implies(o.cond, f), False)
                                      for o in norm for f in o.facts])
                if len(norm) < len(outs):
                    self.st.pc.append((z3.Or(*[o.cond for o in norm]), True))
                return
            o = norm.pop()
            if not norm or self.branch(o.cond):
                self.adopt(o)
                return

    def adopt(self, o):
        pc = list(self.st.pc)
        have = {z.get_id() for z, _ in pc}
        self.st = o.st.copy()
        self.st.pc = PC(pc + [(z, False) for z in o.decs if z.get_id() not in have] + [(f, False) for f in o.facts])

    def try_merge(self, outs):
        if len(outs) == 1:
            return outs[0].st.copy()
        base = outs[0].st.copy()
        base.n = max(o.st.n for o in outs)
        conds = [o.cond for o in outs]

        def ite(zs):
            r = zs[-1]
            for c, z in zip(reversed(conds[:-1]), reversed(zs[:-1])):
                r = z if z.eq(r) else z3.If(c, z, r)
            if self.name_merges and z3.is_seq(r) and z3.is_app_of(r, z3.Z3_OP_ITE):
                # what the paths append differently gets a name (a definition): longer sequences made of it stay small
                ps = [[z] if r.sort() == z3.StringSort() else self.pieces(z) for z in zs]
                k = 0
                while all(len(p) > k for p in ps) and all(p[k].eq(ps[0][k]) for p in ps):
                    k += 1
                rest = [self.joined_pieces(p[k:], r.sort()) for p in ps]
                d = rest[-1]
                for c, z in zip(reversed(conds[:-1]), reversed(rest[:-1])):
                    d = z if z.eq(d) else z3.If(c, z, d)
                d = z3.simplify(d)
                if d.get_id() not in self.merge_names:
                    self.merge_names[d.get_id()] = (z3.Const("joined%d" % len(self.merge_names), d.sort()), d)
                z = self.merge_names[d.get_id()][0]
                self.axiom(z == d)
                return self.joined_pieces(ps[0][:k] + [z], r.sort())
            return r
        for fi in range(len(base.frames)):
            names = set()
            for o in outs:
                names |= set(o.st.frames[fi]["vars"])
            for n in names:
                vs = [o.st.frames[fi]["vars"].get(n) for o in outs]
                if any(v is None for v in vs):
                    base.frames[fi]["vars"][n] = Undef(n)
                    continue
                r = self.merge_vals(vs, ite)
                if r is None:
                    return None
                base.frames[fi]["vars"][n] = r
        keys = set()
        for o in outs:
            keys |= set(o.st.meta)
        longer = set()       # local lists of strings of different lengths: joined as sequences
        for k in keys:
            ms = [o.st.meta.get(k) for o in outs]
            if any(m is None for m in ms):
                base.meta[k] = next(m for m in ms if m is not None)
                continue
            m0 = ms[0]
            for m in ms[1:]:
                if m["kind"] != m0["kind"]:
                    return None
                if m["kind"] == "low":
                    if not m["v"].z.eq(m0["v"].z):
                        return None
                    continue
                if self.name_merges and self.strings(m0) and self.strings(m) and len(m0["items"]) != len(m["items"]):
                    longer.add(k)
                    continue
                for f in ("items", "pairs", "fields"):
                    if f in m0:
                        a, b = m0[f], m[f]
                        if len(a) != len(b) or (isinstance(a, dict) and list(a) != list(b)):
                            return None
            for f in (() if k in longer else ("items", "pairs", "fields")):
                if f in m0:
                    ks = range(len(m0[f])) if f == "items" else list(m0[f])
                    new = []
                    for kk in ks:
                        r = self.merge_vals([m[f][kk] for m in ms], ite)
                        if r is None:
                            return None
                        new.append(r)
                    base.meta[k] = State._cm(base.meta[k])
                    base.meta[k][f] = new if f == "items" else dict(zip(ks, new))
        for what in ("heap", "logs"):
            keys = set()
            for o in outs:
                keys |= set(getattr(o.st, what))
            for k in keys:
                have = [getattr(o.st, what).get(k) for o in outs]
                rng = next(z for z in have if z is not None)
                if what == "heap":
                    zs = [z if z is not None else self.h0(k, rng.sort().range()) for z in have]
                    base.heap[k] = self.merge_map(zs, ite)
                    continue
                else:
                    zs = [z if z is not None else z3.Empty(rng.sort()) for z in have]
                getattr(base, what)[k] = ite(zs)
        offs = [self.addr_off(z3.simplify(o.st.alloc)) for o in outs]
        if all(f is not None and f[0] == offs[0][0] for f in offs):
            # skipping unused addresses is harmless
            base.alloc = max(zip(offs, outs), key=lambda p: p[0][1])[1].st.alloc
        else:
            base.alloc = ite([o.st.alloc for o in outs])
        for k in sorted(longer):
            if not all(self.strings(o.st.meta[k]) for o in outs):
                return None
            seqs = []
            for o in outs:
                us = [z3.Unit(v.z) for v in o.st.meta[k]["items"]]
                seqs.append(z3.Empty(z3.SeqSort(z3.StringSort())) if not us else us[0] if len(us) == 1 else z3.Concat(*us))
            a = base.alloc
            base.alloc = z3.simplify(a + 1)
            hk = self.lkey(Str)
            base.heap[hk] = z3.Store(base.heap[hk] if hk in base.heap else self.h0(hk, seqs[0].sort()), a, ite(seqs))
            base.meta[k] = {"kind": "low", "v": V(List(Str), a)}
        base.n = max(o.st.n for o in outs)
        fr = set()
        for o in outs:
            fr |= set(o.st.fresh)
        base.fresh = tuple(fr)
        return base

    @staticmethod
    def pieces(z):
        if z3.is_app_of(z, z3.Z3_OP_SEQ_CONCAT):
            return [p for c in z.children() for p in Exec.pieces(c)]
        return [] if z3.is_app_of(z, z3.Z3_OP_SEQ_EMPTY) else [z]

    @staticmethod
    def joined_pieces(ps, so):
        return z3.Empty(so) if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps)

    def strings(self, m):
        return m["kind"] == "list" and not m.get("isset") and not m.get("frozen") and all(
            isinstance(v, V) and res(v.t).kind == "str" for v in m["items"])

    def merge_map(self, zs, ite):
        """Merge heap maps cell by cell when they are updates of the same map."""
        chains = []
        for z in zs:
            ch = [z]
            while z.decl().kind() == z3.Z3_OP_STORE:
                z = z.arg(0)
                ch.append(z)
            chains.append(ch)
        common = set.intersection(*[{z.get_id() for z in ch} for ch in chains])
        core = next((z for z in chains[0] if z.get_id() in common), None)
        if core is None:
            return ite(zs)
        addrs, seen = [], set()
        for ch in chains:
            for z in ch:
                if z.get_id() == core.get_id():
                    break
                if z.arg(1).get_id() not in seen:
                    seen.add(z.arg(1).get_id())
                    addrs.append(z.arg(1))
        if len(addrs) > 64:
            return ite(zs)
        out = core
        for a in reversed(addrs):
            vals = [z3.simplify(z3.Select(z, a)) for z in zs]
            out = z3.Store(out, a, self.merge_map(vals, ite) if self.literal_updates(vals) else ite(vals))
        return out

    def literal_updates(self, zs):
        """updates of a dictionary under literal keys"""
        if not z3.is_array(zs[0]) or all(z.eq(zs[0]) for z in zs):
            return False
        for z in zs:
            while z.decl().kind() == z3.Z3_OP_STORE:
                if not is_lit_str(z.arg(1)):
                    return False
                z = z.arg(0)
        return True

    def merge_vals(self, vs, ite):
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if all(isinstance(v, MRef) for v in vs):
            return v0 if all(v.id == v0.id for v in vs) else None
        if all(isinstance(v, Tup) and len(v.items) == len(v0.items) for v in vs):
            out = []
            for xs in zip(*[v.items for v in vs]):
                r = self.merge_vals(list(xs), ite)
                if r is None:
                    return None
                out.append(r)
            return Tup(out)
        if all(isinstance(v, V) for v in vs):
            if all(res(v.t) == res(v0.t) and v.z.eq(v0.z) for v in vs):
                return v0
            try:
                t = res(v0.t)
                for v in vs[1:]:
                    t = self.join(t, v.t)
                return V(t, ite([self.coerce(v, t) for v in vs]))
            except Unsupported:
                return None
        if all(isinstance(v, Marker) for v in vs):
            if all(repr(v) == repr(v0) for v in vs) and v0.k in ("module", "ext", "builtin", "exc"):
                return v0
            if v0.k in ("func", "class") and all(v.k == v0.k and v.info is v0.info for v in vs):
                return v0
            return None
        if any(isinstance(v, Undef) for v in vs):
            return Undef("merged")
        return None

    # ------------------------------------------------------------------ loops
    def st_For(self, s):
        it = self.iterate(self.ev(s.iter))
        self.for_loop(s, it, lambda v: (self.assign(s.target, v), self.block(s.body)), s.orelse,
                      [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)])

    def for_loop(self, node, it, body, orelse, targets=()):
        if it[0] == "concrete":
            for v in it[1]:
                try:
                    body(v)
                except ContinueX:
                    continue
                except BreakX:
                    return
            self.block(orelse)
            return
        _, base, wrapf = it
        base = z3.simplify(base)
        parts = self.split_units(base)
        if parts is not None:
            return self.for_loop(node, ("concrete", [wrapf(p) for p in parts]), body, orelse)
        base, wrapf = self.fuse(base, wrapf)
        if self.loop(node, base, wrapf, body, targets):
            return            # left by break
        self.block(orelse)

    def split_units(self, z):
        k = z.decl().kind()
        if k == z3.Z3_OP_SEQ_EMPTY:
            return []
        if k == z3.Z3_OP_SEQ_UNIT:
            return [z.arg(0)]
        if k == z3.Z3_OP_SEQ_CONCAT:
            out = []
            for c in z.children():
                p = self.split_units(c)
                if p is None:
                    return None
                out += p
            return out
        return None

    def fuse(self, base, wrapf):
        """Iterating over a list that was itself built by a loop appending at most one element per step: the element
        is known by the loop's pieces."""
        return base, wrapf

    def st_While(self, s):
        def body(_):
            if not self.branch(self.test(s.test)):
                raise WhileDone()
            self.block(s.body)
        # a loop that certainly does not run / literal condition handled by the generic code as well
        r = self.loop(s, None, None, body, ())
        if not r:
            self.block(s.orelse)

    def narrow_locals(self):
        """Optional local values known not to be None on this path are values."""
        vs = self.frame()["vars"]
        for n in sorted(vs):
            vs[n] = self.narrowed(vs[n])

    def narrowed(self, v):
        if isinstance(v, V) and res(v.t).kind == "opt" and res(res(v.t).args[0]).kind in ("str", "int"):
            c = z3.simplify(self.isnone(v))
            if z3.is_false(c) or not z3.is_true(c) and not self.prover.feasible(self.pcs(), c):
                a = res(res(v.t).args[0])
                return self.wrap(a, z3.simplify(opt_dt(a).the(v.z)))
        return v

    def loop(self, node, base, wrapf, body, targets):
        """Summarise a loop by the functions its body computes on an arbitrary state; True if left by break."""
        depth = len(self.st.frames)
        site = "%s:%d.%d#%d" % (self.frame()["mod"].name.split(".")[-1], getattr(node, "lineno", 0),
                                getattr(node, "col_offset", 0), self.st.n)
        self.st.n += 1
        lid = "%s!%s" % (self.side, site)
        self.summarised += 1
        self.narrow_locals()
        x = None
        if base is not None:
            x = z3.Const("el!" + lid, base.sort().basis())
        hooks = self.schema.loop_hooks.get(self.frame()["func"].qual if self.frame()["func"] else None, [])
        mods = {}            # key -> info
        for rnd in range(12):
            hst, comps = self.havoc(mods, lid, base, x)

            def run():
                for h in hooks:
                    h.assume(self)
                try:
                    if x is None:
                        body(None)
                    else:
                        self.assume_elem(base, x)
                        body(wrapf(x))
                except ContinueX:
                    del self.st.frames[depth:]
            outs = self.explore_loop(run, hst)
            nxt = [o for o in outs if o.kind == "normal"]
            for o in nxt:
                self.gc(o, hst, depth, targets)
            new, again = self.detect(hst, nxt, mods, depth, lid, node, targets)
            if again:
                continue
            if not new:
                break
            mods.update(new)
        else:
            raise Unsupported("loop summary does not stabilise")
        exits = [o for o in outs if o.kind != "normal"]
        if self.dbg: print("COMPS", lid, [str(k)[:90] for k in comps], len(nxt), len(exits))
        if self.dbg:
            for o in exits:
                print("   EXIT", o.kind, getattr(o.val, "cls", o.val) if o.kind == "raise" else "", str(z3.simplify(o.cond)).replace("\n", " ")[-300:])
        self.summarise(node, lid, base, x, comps, mods, nxt, exits, hst, depth, targets)
        # hooks: invariants established?
        return self.after_loop(lid, base, x, wrapf, body, depth, targets, exits, nxt)

    # -- containers allocated in an iteration and unreachable after it are dropped
    def gc(self, o, hst, depth, targets):
        st, al = o.st, hst.alloc
        if st.alloc.eq(al):
            return
        return self.gc_base(o, hst, depth, targets)

    def addr_off(self, z):
        """(base id, offset) of an address term, or None."""
        if z3.is_add(z):
            k, b = 0, []
            for c in z.children():
                if z3.is_int_value(c):
                    k += c.as_long()
                else:
                    b.append(c)
            return (b[0].get_id(), k) if len(b) == 1 else None
        return (z.get_id(), 0)

    def gc_base(self, o, hst, depth, targets):
        st = o.st
        b0 = self.addr_off(z3.simplify(hst.alloc))
        b1 = self.addr_off(z3.simplify(st.alloc))
        if b0 is None or b1 is None or b0[0] != b1[0]:
            return
        lo, hi = b0[1], b1[1]

        def fresh(z):
            f = self.addr_off(z) if z.sort() == z3.IntSort() else None
            return f is not None and f[0] == b0[0] and lo <= f[1] < hi and f[1]
        cells = {}           # offset -> list of stored values
        roots, maps = [], {}
        for hk, z in st.heap.items():
            hz = hst.heap.get(hk)
            if hz is None:
                hz = self.h0(hk, z.sort().range())
            if z.eq(hz):
                continue
            stack, x = [], z
            while not x.eq(hz) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
                stack.append((x.arg(1), x.arg(2)))
                x = x.arg(0)
            if not x.eq(hz):
                roots.append(z)
                continue
            maps[hk] = (hz, stack)
            for i, v in stack:
                f = fresh(z3.simplify(i))
                if f is False:
                    roots += [i, v]
                else:
                    cells.setdefault(f, []).append(v)
        metas = []

        def val(v):
            if isinstance(v, V):
                if z3.is_expr(v.z):
                    roots.append(v.z)
            elif isinstance(v, Tup):
                for y in v.items:
                    val(y)
            elif isinstance(v, MRef):
                if v.id not in metas:
                    metas.append(v.id)
                    m = st.meta[v.id]
                    for y in ([m["v"]] if m["kind"] == "low" else m.get("items", []) or []):
                        val(y)
                    for y in list(m.get("pairs", {}).values()) + list(m.get("fields", {}).values()):
                        val(y)
            elif isinstance(v, Marker):
                for y in v.__dict__.values():
                    if isinstance(y, (list, tuple)):
                        for q in y:
                            val(q)
                    else:
                        val(y)
            elif z3.is_expr(v):
                roots.append(v)
        for fi in range(min(depth, len(st.frames))):
            for n, v in st.frames[fi]["vars"].items():
                if n in hst.frames[fi]["vars"] and not isinstance(hst.frames[fi]["vars"][n], Undef) and \
                        not (fi == depth - 1 and n in targets):
                    val(v)
        for k in hst.meta:
            if k in st.meta:
                val(MRef(k, None))
        roots += list(st.logs.values())
        live, seen = set(), set()
        todo = list(roots)
        while todo:
            z = todo.pop()
            if z.get_id() in seen:
                continue
            seen.add(z.get_id())
            f = fresh(z)
            if f is not False:
                if f not in live:
                    live.add(f)
                    todo += cells.get(f, [])
                continue
            todo += [z.body()] if z3.is_quantifier(z) else z.children()
        if self.dbg: print("GC", hst.alloc, st.alloc, "live", live, "maps", {k: len(v[1]) for k, v in maps.items()}, [str(r)[:300] for r in roots][:8] if live else "")
        if live:
            return
        for hk, (hz, stack) in maps.items():
            z = hz
            for i, v in reversed(stack):
                if fresh(z3.simplify(i)) is False:
                    z = z3.Store(z, i, v)
            if z.eq(hz) and hk not in hst.heap:
                st.heap[hk] = hz
            else:
                st.heap[hk] = z
        st.alloc = hst.alloc

    def explore_loop(self, run, hst):
        def r():
            try:
                run()
            except WhileDone:
                raise LoopExit("done")
        outs = []
        for o in self.explore_lx(r, hst):
            outs.append(o)
        return outs

    def explore_lx(self, fn, st0):
        def f():
            try:
                return fn()
            except LoopExit:
                raise BreakX()
        return self.explore(f, st0)

    # -- loop-modified locations
    def havoc(self, mods, lid, base, x):
        st = self.st.copy()
        saved = self.st
        self.st = st
        comps = {}
        try:
            if ("alloc",) in mods:
                c = z3.Int("hv!alloc@" + lid)
                comps[("alloc",)] = c
                st.pc.append((c >= st.alloc, False))
                st.alloc = c
            for key, info in mods.items():
                nm = "hv!%s@%s" % ("_".join(str(k) for k in key[1:])[:40] + str(info.get("n", "")), lid)
                if key[0] == "local":
                    t = info["t"]
                    c = z3.Const(nm, sort(t))
                    comps[key] = c
                    st.frames[key[1]]["vars"][key[2]] = self.wrap(t, c)
                elif key[0] == "heap":
                    c = z3.Const(nm, z3.ArraySort(z3.IntSort(), info["rng"]))
                    comps[key] = c
                    st.heap[key[1]] = c
                elif key[0] == "cell":
                    c = z3.Const(nm, info["rng"])
                    comps[key] = c
                    st.heap[key[1]] = z3.Store(self.hget(key[1], info["rng"]), info["addr"], c)
                elif key[0] == "log":
                    c = z3.Const(nm, self.logsort())
                    comps[key] = c
                    st.logs[key[1]] = c
        finally:
            self.st = saved
        return st, comps

    def peel(self, z, base):
        """indices of the stores on top of base, or None."""
        idx = []
        while not z.eq(base):
            if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_STORE:
                idx.append(z.arg(1))
                z = z.arg(0)
            else:
                return None
        return idx

    def read_outside(self, node, targets):
        """locals read in the function outside this loop"""
        fn = self.frame()["func"]
        if fn is None or not isinstance(node, ast.AST):
            return set()
        key = (id(fn.node), id(node))
        if key not in self.readcache:
            inner = set(map(id, ast.walk(node)))
            self.readcache[key] = {x.id for x in ast.walk(fn.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)
                                   and id(x) not in inner and x.lineno > node.lineno} - set(targets or ())
        return self.readcache[key]

    readcache = {}

    def detect(self, hst, outs, mods, depth, lid, node=None, targets=()):
        new, again = {}, False
        for o in outs:
            st = o.st
            if not st.alloc.eq(hst.alloc) and ("alloc",) not in mods:
                new[("alloc",)] = {}
            # containers that were local and exact before the loop and are changed in it: lower them first
            for k, m in hst.meta.items():
                m2 = st.meta.get(k)
                if m2 is None or m2 is m:
                    continue
                if m["kind"] != "low" and m2["kind"] == "low":
                    self.lower_like(k, self.typeof_in(st, m2))
                    again = True
                elif m["kind"] in ("list", "dict", "obj"):
                    f = {"list": "items", "dict": "pairs", "obj": "fields"}[m["kind"]]
                    a, b = m[f], m2[f]
                    same = len(a) == len(b) and (
                        all(self.same(p, q) for p, q in zip(a, b)) if isinstance(a, list) else
                        all(kk in b and self.same(b[kk], a[kk]) for kk in a))
                    if not same and k in self.st.meta and self.st.meta[k]["kind"] != "low":
                        saved, self.st = self.st, st
                        try:
                            t = self.typeof(MRef(k, None)) if m["kind"] != "dict" else None
                        finally:
                            self.st = saved
                        if m["kind"] == "obj":
                            raise Unsupported("value object changed in a loop: %s %s -> %s" % (k, [x.id if isinstance(x,MRef) else x for x in m["fields"].values()], [x.id if isinstance(x,MRef) else x for x in m2["fields"].values()]))
                        if t is None:
                            raise Unsupported("literal dictionary changed in a loop")
                        self.lower_like(k, t)
                        again = True
            if again:
                return {}, True
            for fi in range(min(depth, len(st.frames))):
                hv, nv = hst.frames[fi]["vars"], st.frames[fi]["vars"]
                for n, v in nv.items():
                    old = hv.get(n)
                    key = ("local", fi, n)
                    if old is v or (isinstance(old, V) and isinstance(v, V) and old.z.eq(v.z) and res(old.t) == res(v.t)):
                        continue
                    if isinstance(old, MRef) and isinstance(v, MRef) and old.id == v.id:
                        continue
                    if isinstance(old, Tup) and isinstance(v, Tup) and self.same(old, v):
                        continue
                    if (old is None or isinstance(old, Undef)) and fi == depth - 1 and n in self.read_outside(node, targets) and isinstance(v, V):
                        # first set inside the body and read after the loop: arbitrary before the first iteration
                        self.st.frames[fi]["vars"][n] = self.wrap(v.t, z3.Const("unset!" + str(sort(v.t)), sort(v.t)))
                        return {}, True
                    if old is None or isinstance(old, Undef):
                        continue          # first set inside the body: local to an iteration (poisoned afterwards)
                    if isinstance(v, Marker) and isinstance(old, Marker) and repr(old) == repr(v):
                        continue
                    if isinstance(v, (Marker,)) or isinstance(old, Marker) or isinstance(v, Undef):
                        new.setdefault("$drop", {})[(fi, n)] = True
                        continue
                    saved, self.st = self.st, st
                    try:
                        t = self.join(self.typeof(old), self.typeof(v))
                        sort(t if t.kind != "var" else NoneT)
                    except Unsupported:
                        new.setdefault("$drop", {})[(fi, n)] = True
                        continue
                    finally:
                        self.st = saved
                    if t.kind == "var":
                        t = NoneT
                    if key not in mods or mods[key]["t"] != t:
                        new[key] = {"t": t}
            for hk, z in st.heap.items():
                hz = hst.heap.get(hk)
                if hz is None:
                    hz = self.h0(hk, z.sort().range())
                if z.eq(hz) or ("heap", hk) in mods:
                    continue
                idx = self.peel(z, hz)
                rng = z.sort().range()
                if idx is None:
                    new[("heap", hk)] = {"rng": rng}
                    continue
                for i in idx:
                    i = z3.simplify(i)
                    if self.loop_variant(i, lid, hst):
                        new[("heap", hk)] = {"rng": rng, "fresh_only": False}
                        break
                    ck = ("cell", hk, i.get_id())
                    if ck not in mods:
                        new[ck] = {"rng": rng, "addr": i, "n": len([m for m in mods if m[0] == "cell"])}
            for ch, z in st.logs.items():
                hz = hst.logs.get(ch)
                if hz is not None and z.eq(hz):
                    continue
                if ("log", ch) not in mods:
                    new[("log", ch)] = {}
        drops = new.pop("$drop", None)
        if drops:
            for fi, n in drops:
                self.st.frames[fi]["vars"][n] = Undef(n)
            return new, True
        for key in list(new):
            if key[0] == "heap":
                for c in [c for c in list(mods) + list(new) if c[0] == "cell" and c[1] == key[1]]:
                    mods.pop(c, None)
                    new.pop(c, None)
        return new, False

    def typeof_in(self, st, m):
        return res(m["v"].t)

    def lower_like(self, k, t):
        m = self.st.meta[k]
        if m["kind"] != "low":
            self.lower(MRef(k, m.get("site")), t)

    def same(self, a, b):
        if isinstance(a, V) and isinstance(b, V):
            return a.z.eq(b.z) and res(a.t) == res(b.t)
        if isinstance(a, MRef) and isinstance(b, MRef):
            return a.id == b.id
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        return a is b

    def loop_variant(self, z, lid, hst):
        for s in free_syms(z).values():
            if s.decl().name().endswith(lid):
                return True
        # fresh addresses
        from .prover import subterms
        if any(t.eq(hst.alloc) for t in subterms(z).values()) and not z3.is_int_value(z):
            return True
        return False

    def summarise(self, node, lid, base, x, comps, mods, nxt, exits, hst, depth, targets):
        keys = list(comps)
        conds = [o.cond for o in nxt]

        def val(o, key):
            saved, self.st = self.st, o.st
            try:
                if key[0] == "alloc":
                    return o.st.alloc
                if key[0] == "local":
                    return self.coerce(o.st.frames[key[1]]["vars"][key[2]], mods[key]["t"])
                if key[0] == "heap":
                    return o.st.heap.get(key[1], comps[key])
                if key[0] == "cell":
                    return z3.Select(o.st.heap[key[1]], mods[key]["addr"])
                return o.st.logs.get(key[1], comps[key])
            finally:
                self.st = saved

        def ite(zs):
            r = zs[-1]
            for c, z in zip(reversed(conds[:-1]), reversed(zs[:-1])):
                r = z if z.eq(r) else z3.If(c, z, r)
            return r
        facts, fseen = [], set()
        for o in nxt + exits:
            for f in o.facts:
                if f.get_id() in fseen:
                    continue
                if z3.is_true(o.cond) or f.get_id() in self.axioms:
                    fseen.add(f.get_id())
                    facts.append(f)
                else:
                    facts.append(z3.Implies(o.cond, f))
        E = None
        if exits:
            E = z3.simplify(z3.Or(*[o.cond for o in exits]))
            if z3.is_false(E):
                E = None
        entry, upd, norm, pieces = {}, {}, {}, {}
        for k in keys:
            entry[k] = self.entry_val(k, mods, comps)
            if not nxt:
                upd[k] = comps[k]
                continue
            vs = [z3.simplify(val(o, k)) if k[0] != "heap" else val(o, k) for o in nxt]
            if k[0] == "alloc":
                # skipping unused addresses is harmless
                offs = [self.addr_off(z) for z in vs]
                if all(f is not None and f[0] == offs[0][0] for f in offs):
                    vs = [vs[max(range(len(vs)), key=lambda i: offs[i][1])]] * len(vs)
            s = comps[k]
            p = self.append_pieces(vs, s)
            if p is not None:
                norm[k] = "append"
                pieces[k] = list(zip(conds, p))
                upd[k] = z3.Concat(s, ite(p)) if True else None
            else:
                upd[k] = ite(vs)
                if z3.is_int(s):
                    ds = [z3.simplify(v - s) for v in vs]
                    if all(s.get_id() not in free_syms(d) for d in ds) and all(s.get_id() not in free_syms(c) for c in conds):
                        norm[k] = "count"
                        upd[k] = s + ite(ds)
        # dependencies
        ids = {comps[k].get_id(): k for k in keys}

        def deps_of(z):
            return {ids[i] for i in free_syms(z) if i in ids}
        edeps = deps_of(E) if E is not None else set()
        fdeps = {}

        def closure(start):
            todo, seen = list(start), []
            while todo:
                k = todo.pop(0)
                if k in seen:
                    continue
                seen.append(k)
                d = deps_of(upd[k])
                todo += [q for q in keys if q in d]
            return seen
        self.loopres = {}
        prefix = base
        exit_closure = closure(sorted(edeps, key=keys.index))
        simple_exit = E is not None and not exit_closure and base is not None
        found = first = None
        es = base.sort() if base is not None else None

        def mkdesc(tag, out, bs, cl, target, ex, rng, pcs=None):
            cs = [Comp(self.comp_role(k), comps[k], z3.Empty(comps[k].sort()) if norm.get(k) == "append" and k == target
                       and tag.startswith("n") else (z3.IntVal(0) if norm.get(k) == "count" and k == target and
                                                      tag.startswith("n") else entry[k]), upd[k]) for k in cl]
            rel = {c.sym.get_id() for c in cs} | ({x.get_id()} if x is not None else set())
            fs = [f for f in facts if all(i in rel or not s.decl().name().endswith(lid)
                                          for i, s in free_syms(f).items())]
            d = Desc("F!%s!%s!%s" % (out, tag, lid), "loop", out, bs, x, cs,
                     cl.index(target) if target in cl else None, ex, fs, self.side, pcs)
            return self.prover.mk(d, rng)
        if E is not None:
            if base is not None:
                found = mkdesc("e", "found", base, exit_closure, None, E, z3.BoolSort())
                first = mkdesc("e", "first", base, exit_closure, None, E, base.sort().basis())
            if simple_exit:
                prefix = mkdesc("e", "prefix", base, [], None, E, base.sort())
        fin = {}
        for k in keys:
            cl = closure([k])
            ex = None
            bs = prefix
            if E is not None and not simple_exit:
                cl = closure([k] + [q for q in keys if q in edeps])
                ex = E
                bs = base
            nk = norm.get(k)
            pure = nk and comps[k].get_id() not in {i for q in cl if q != k for i in free_syms(upd[q])} \
                and (ex is None or comps[k].get_id() not in free_syms(ex))
            if pure and nk == "append" and any(comps[k].get_id() in free_syms(z) for c, p in pieces[k] for z in (c, p)):
                pure = False
            kidx = keys.index(k)
            if pure:
                t = mkdesc("n%d" % kidx, "val", bs, cl, k, ex, comps[k].sort(),
                           pieces.get(k) if len(cl) == 1 and nk == "append" else None)
                fin[k] = z3.Concat(entry[k], t) if nk == "append" else entry[k] + t
                if z3.is_app(entry[k]) and entry[k].decl().kind() == z3.Z3_OP_SEQ_EMPTY:
                    fin[k] = t
            else:
                fin[k] = mkdesc("v%d" % kidx, "val", bs, cl, k, ex, comps[k].sort())
        # install
        for k in keys:
            z = fin[k]
            if k[0] == "alloc":
                old = self.st.alloc
                self.st.alloc = z
                self.st.pc.append((z >= old, False))
        for k in keys:
            z = fin[k]
            if k[0] == "local":
                self.st.frames[k[1]]["vars"][k[2]] = self.wrap(mods[k]["t"], z)
            elif k[0] == "heap":
                old = self.st.heap.get(k[1], None)
                if old is None:
                    old = self.h0(k[1], mods[k]["rng"])
                self.st.heap[k[1]] = z
                if self.only_fresh(nxt, k, comps, hst):
                    a = z3.Int("fa!" + lid)
                    self.st.pc.append((z3.ForAll([a], z3.Implies(a < self.entry_alloc(entry, comps), z3.Select(z, a) == z3.Select(old, a)),
                                                 patterns=[z3.Select(z, a)]), False))
            elif k[0] == "cell":
                self.hset(k[1], mods[k]["rng"], mods[k]["addr"], z)
            elif k[0] == "log":
                self.st.logs[k[1]] = z
        self.loopinfo = (E, found, first, comps, fin, facts)
        # iteration-local names
        names = set(targets)
        for o in nxt:
            for n in o.st.frames[depth - 1]["vars"]:
                if n not in self.st.frames[depth - 1]["vars"]:
                    names.add(n)
        self.iternames = names

    def entry_alloc(self, entry, comps):
        return entry[("alloc",)] if ("alloc",) in entry else self.st.alloc

    def only_fresh(self, nxt, k, comps, hst):
        for o in nxt:
            z = o.st.heap.get(k[1])
            if z is None:
                continue
            idx = self.peel(z, comps[k])
            if idx is None:
                return False
            for i in idx:
                i = z3.simplify(i)
                if not (i.eq(hst.alloc) or (z3.is_add(i) and any(c.eq(hst.alloc) for c in i.children()))):
                    return False
        return True

    def comp_role(self, k):
        return k if k[0] != "local" else ("local", k[2])

    def entry_val(self, k, mods, comps):
        if k[0] == "alloc":
            return self.st.alloc
        if k[0] == "local":
            v = self.st.frames[k[1]]["vars"][k[2]]
            return self.coerce(v, mods[k]["t"])
        if k[0] == "heap":
            return self.hget(k[1], mods[k]["rng"])
        if k[0] == "cell":
            return z3.simplify(z3.Select(self.hget(k[1], mods[k]["rng"]), mods[k]["addr"]))
        return self.getlog(k[1])

    def append_pieces(self, vs, s):
        if not z3.is_seq(s):
            return None
        if not any(True for _ in [0]):
            return None
        out = []
        for v in vs:
            r = self.appended(v, s)
            if r is None:
                return None
            out.append(r)
        return out

    def appended(self, v, s):
        """the sequence appended to s in v, or None"""
        if v.eq(s):
            return z3.Empty(s.sort())
        if not z3.is_app(v):
            return None
        k = v.decl().kind()
        if k == z3.Z3_OP_ITE:
            a, b = self.appended(v.arg(1), s), self.appended(v.arg(2), s)
            if a is None or b is None or s.get_id() in free_syms(v.arg(0)):
                return None
            return a if a.eq(b) else z3.If(v.arg(0), a, b)
        if k == z3.Z3_OP_SEQ_CONCAT:
            fl = self.flat(v)
            h = self.appended(fl[0], s)
            if h is None or any(s.get_id() in free_syms(r) for r in fl[1:]):
                return None
            ps = ([] if h.decl().kind() == z3.Z3_OP_SEQ_EMPTY else [h]) + fl[1:]
            return ps[0] if len(ps) == 1 else z3.Concat(*ps)
        return None

    def flat(self, z):
        if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return [y for c in z.children() for y in self.flat(c)]
        return [z]

    def after_loop(self, lid, base, x, wrapf, body, depth, targets, exits, nxt):
        E, found, first, comps, fin, facts = self.loopinfo
        vars = self.st.frames[depth - 1]["vars"]

        def poison():
            for n in self.iternames:
                vs = self.st.frames[depth - 1]["vars"]
                if n not in vs or True:
                    vs[n] = Undef(n)
        if E is None:
            poison()
            if base is None:
                raise Infeasible()       # while loop that never ends
            return False
        sub = [(comps[k], fin[k]) for k in comps]
        if base is None:
            self.st.pc.append((subst(E, sub), False))
            poison()
            return self.run_exit(body, None, depth)
        if not self.branch(found):
            poison()
            return False
        xf = first
        sub2 = sub + [(x, xf)]
        for f in facts:
            self.st.pc.append((subst(f, sub2), False))
        self.st.pc.append((subst(E, sub2), False))
        self.assume_elem(base, xf)
        poison()
        return self.run_exit(body, wrapf(xf), depth)

    def run_exit(self, body, v, depth):
        """Execute the iteration that leaves the loop."""
        try:
            body(v)
        except WhileDone:
            return False
        except BreakX:
            del self.st.frames[depth:]
            return True
        except ContinueX:
            raise Infeasible()
        raise Infeasible()

    def assume_elem(self, base, x):
        """What is known about an element of a sequence."""
        if z3.is_app(base):
            for a in self.prover.apps([base]):
                pass
            d = self.prover.desc_of(base)
            if d is not None:
                d, inst = self.prover.inst(base)
                if d.op == "sorted" or d.out == "prefix":
                    return self.assume_elem(inst(d.base), x)
                if d.out == "val" and d.pieces is not None:
                    # x was appended by some iteration: skolemised witness
                    w = z3.Function("wit_" + d.name, *([x.sort()] + [p.sort() for p in d.params] + [d.x.sort()]))(
                        x, *base.children())
                    alts = []
                    for c, p in d.pieces:
                        us = self.split_units(z3.simplify(p))
                        if us is None:
                            # a sequence of unknown length
                            alts.append(z3.And(c, z3.Contains(p, z3.Unit(x))))
                            continue
                        for u in us:
                            alts.append(z3.And(c, u == x))
                    f = lambda t: inst(subst(t, [(d.x, w)]))
                    for fc in d.facts:
                        self.st.pc.append((f(fc), False))
                    self.st.pc.append((f(z3.Or(*alts)) if alts else z3.BoolVal(False), False))
                    self.assume_elem(inst(d.base), w)
                    return
            if base.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                pass
        self.st.pc.append((z3.Contains(base, z3.Unit(x)), False))
        for f in self.schema.elem_facts:
            f(self, base, x)


class WhileDone(Exception):
    pass


class LoopExit(Exception):
    pass

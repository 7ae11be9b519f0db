"""Expressions, attributes, items, built-in types and functions of Python."""
import ast
import z3
from .terms import *
from .terms import _unescape
from .prover import Desc, Comp

EMPTYSTR = z3.StringVal("")


class LibMixin:
    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %d)" % (type(e).__name__, getattr(e, "lineno", 0)))
        return m(e)

    def ex_Constant(self, e): return self.pylit(e.value)
    def ex_Name(self, e): return self.getname(e.id)
    def ex_Tuple(self, e): return Tup([self.ev(x) for x in self.nostar(e.elts)])

    def nostar(self, elts):
        if any(isinstance(x, ast.Starred) for x in elts):
            raise Unsupported("starred expression")
        return elts

    def site(self, e):
        return (self.side, self.frame()["mod"].name, e.lineno, e.col_offset)

    def ex_List(self, e): return self.new_list([self.narrowed(self.ev(x)) for x in self.nostar(e.elts)], self.site(e))
    def ex_Set(self, e): return self.new_list([self.ev(x) for x in self.nostar(e.elts)], self.site(e), isset=True)

    def ex_Dict(self, e):
        pairs = {}
        sym = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("** in dict")
            kv = self.ev(k)
            lit = self.litkey(kv)
            val = self.ev(v)
            if lit is None:
                sym.append((kv, val))
            else:
                pairs[lit[0]] = val
        r = self.new_meta(kind="dict", pairs=pairs, lit=bool(pairs), t=self.dict_types(e), site=self.site(e))
        for k, v in sym:
            self.setitem(r, k, v)
        return r

    def dict_types(self, e):
        s = ("D",) + self.site(e)
        if s not in self.site_types:
            self.site_types[s] = (TVarT(), TVarT())
        return self.site_types[s]

    def litkey(self, v):
        """(python key,) for a literal key."""
        if isinstance(v, V):
            z = z3.simplify(v.z)
            if res(v.t).kind == "str" and is_lit_str(z):
                return (_unescape(z),)
            if res(v.t).kind == "int" and z3.is_int_value(z):
                return (z.as_long(),)
            if res(v.t).kind == "none":
                return (None,)
        return None

    def ex_JoinedStr(self, e):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(z3.StringVal(p.value))
            else:
                v = self.ev(p.value)
                spec = ""
                if p.format_spec is not None:
                    if not all(isinstance(x, ast.Constant) for x in p.format_spec.values):
                        raise Unsupported("format spec")
                    spec = "".join(x.value for x in p.format_spec.values)
                if p.conversion not in (-1, 115):
                    raise Unsupported("format conversion")
                parts.append(self.fmt(v, spec))
        return vstr(self.cat(parts))

    def cat(self, parts):
        parts = [p for p in parts if not (is_lit_str(p) and p.as_string() == "")]
        if not parts:
            return EMPTYSTR
        return z3.simplify(parts[0] if len(parts) == 1 else z3.Concat(*parts))

    def ex_Attribute(self, e): return self.getattr(self.ev(e.value), e.attr)
    def ex_Subscript(self, e):
        if isinstance(e.slice, ast.Slice):
            f = lambda x: None if x is None else self.ev(x)
            return self.getslice(self.ev(e.value), f(e.slice.lower), f(e.slice.upper), f(e.slice.step))
        return self.getitem(self.ev(e.value), self.ev(e.slice))

    def ex_IfExp(self, e):
        if self.merge_ifs:
            return self.merged_value(e, lambda: self.ev(e.body) if self.branch(self.test(e.test)) else self.ev(e.orelse))
        c = self.test(e.test)
        return self.ev(e.body) if self.branch(c) else self.ev(e.orelse)

    def merged_value(self, e, fn):
        """Evaluate an expression, joining the paths it splits into where their values can be joined."""
        n = "$mv%d" % id(e)

        def run():
            v = fn()
            self.st.frames[-1]["vars"][n] = v
        self.merged(run)
        return self.st.frames[-1]["vars"].pop(n)

    def ex_BoolOp(self, e):
        if self.merge_ifs:
            return self.merged_value(e, lambda: self.boolop(e))
        return self.boolop(e)

    def test(self, e):
        """The truth of a condition; only its truth is joined where it splits into paths."""
        if isinstance(e, ast.BoolOp) and self.merge_ifs:
            return self.truth(self.merged_value(e, lambda: vbool(z3.simplify(self.truth(self.boolop(e))))))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return z3.simplify(z3.Not(self.test(e.operand)))
        return self.truth(self.ev(e))

    def boolop(self, e):
        isand = isinstance(e.op, ast.And)
        # pure operands are combined without forking
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1:
                return v
            t = z3.simplify(self.truth(v))
            b = self.branch(t)
            if isand and not b:
                return v if not (isinstance(v, V) and res(v.t).kind == "bool") else vbool(False)
            if not isand and b:
                return v if not (isinstance(v, V) and res(v.t).kind == "bool") else vbool(True)
        return v

    def chars(self, z):
        """the characters of a string, as a sequence of strings of length one"""
        z = z3.simplify(z)
        if is_lit_str(z):
            return self.mkseq([z3.StringVal(c) for c in _unescape(z)], z3.StringSort())
        return uf("str_chars", z3.StringSort(), z3.SeqSort(z3.StringSort()))(z)

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return vbool(z3.simplify(z3.Not(self.truth(v))))
        if isinstance(e.op, ast.USub):
            v = self.force(v)
            return V(res(v.t) if res(v.t).kind != "enum" else Int, z3.simplify(-v.z))
        raise Unsupported("unary operator")

    def ex_Compare(self, e):
        left = self.ev(e.left)
        out = []
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c)
            out.append(self.compare(op, left, right))
            if len(e.ops) > 1 and i < len(e.ops) - 1:
                if not self.branch(out[-1]):
                    return vbool(False)
            left = right
        return vbool(z3.simplify(out[-1] if len(out) == 1 else z3.And(*out)))

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return z3.Not(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return z3.Not(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return z3.Not(self.contains(b, a))
        a, b = self.force(a), self.force(b)
        if not (isinstance(a, V) and isinstance(b, V)):
            raise Unsupported("ordering of containers")
        s, t = res(a.t), res(b.t)
        if s.kind == "str" and t.kind == "str":
            lt = lambda x, y: x < y
            le = lambda x, y: x <= y
        else:
            nums = ("int", "enum", "bool", "real")
            if s.kind == "yaml":
                a, s = V(Int, self.coerce(a, Int)), Int
            if t.kind == "yaml":
                b, t = V(Int, self.coerce(b, Int)), Int
            if s.kind not in nums or t.kind not in nums:
                if s.kind == "opaque" and t.kind == "opaque" and s.name == t.name:
                    f = uf("lt_" + s.name, sort(s), sort(s), z3.BoolSort())
                    x, y = a.z, b.z
                    return {ast.Lt: f(x, y), ast.Gt: f(y, x), ast.LtE: z3.Not(f(y, x)), ast.GtE: z3.Not(f(x, y))}[type(op)]
                raise Unsupported("ordering of %r and %r" % (s, t))
            ty = Real if "real" in (s.kind, t.kind) else Int
            a, b = V(ty, self.coerce(a, ty)), V(ty, self.coerce(b, ty))
            lt = lambda x, y: x < y
            le = lambda x, y: x <= y
        x, y = a.z, b.z
        return {ast.Lt: lambda: lt(x, y), ast.Gt: lambda: lt(y, x), ast.LtE: lambda: le(x, y), ast.GtE: lambda: le(y, x)}[type(op)]()

    def contains(self, c, x):
        c = self.force(c)
        if isinstance(c, MRef):
            m = self.m(c)
            if m["kind"] == "low":
                c = m["v"]
            elif m["kind"] == "list":
                return z3.simplify(z3.Or(*[self.eq(x, y) for y in m["items"]])) if m["items"] else z3.BoolVal(False)
            elif m["kind"] == "dict":
                k = self.litkey(x)
                if k is not None:
                    return z3.BoolVal(k[0] in m["pairs"])
                return z3.Or(*[self.eq(x, self.pylit(y)) for y in m["pairs"]]) if m["pairs"] else z3.BoolVal(False)
        if isinstance(c, Tup):
            return z3.Or(*[self.eq(x, y) for y in c.items]) if c.items else z3.BoolVal(False)
        if isinstance(c, Marker):
            if c.k == "iter":
                return z3.Contains(c.base, z3.Unit(self.coerce(x, c.et)))
            if c.k in ("keys", "dview"):
                return self.contains(c.d, x)
            if c.k == "class" and c.info.enum:
                raise Unsupported("in enum")
            if c.k == "ext" and c.path in self.schema.contains_stubs:
                return self.schema.contains_stubs[c.path](self, x)
            raise Unsupported("in %r" % (c,))
        t = res(c.t)
        if t.kind in ("list", "seq"):
            s = self.lget(c) if t.kind == "list" else c.z
            if s is None:
                return z3.BoolVal(False)
            x = self.forelem(x, t.args[0])
            if x is None:
                return z3.BoolVal(False)
            return z3.Contains(s, z3.Unit(self.coerce(x, t.args[0])))
        if t.kind == "set":
            x2 = self.forelem(x, t.args[0])
            if x2 is None:
                return z3.BoolVal(False)
            return z3.Select(self.sget(c), self.coerce(x2, t.args[0]))
        if t.kind == "dict":
            kt = res(t.args[0])
            if isinstance(x, V) and res(x.t).kind == "opt" and kt.kind != "opt":
                inner = res(x.t).args[0]
                return z3.And(z3.Not(self.isnone(x)), z3.Select(self.dget(c)[1], self.coerce(self.wrap(inner, opt_dt(res(inner)).the(x.z) if res(inner).kind not in REFKINDS else x.z, False), kt)))
            return self.member(self.dget(c)[1], self.coerce(x, kt))
        if t.kind == "str":
            return z3.Contains(c.z, self.coerce(self.force(x), Str))
        if t.kind == "yaml":
            # membership of a key in a mapping, or of an item in a list
            if isinstance(x, V) and res(x.t).kind in ("str", "yaml"):
                if self.branch(self.y_isnone(c.z)):
                    from .engine import PyRaise
                    raise PyRaise("TypeError")
                k = x.z if res(x.t).kind == "str" else self.coerce(x, Str)
                self.y_documented(c.z, k)
                return self.y_has(c.z, k)
        if t.kind == "opaque" and ("in:" + t.name) in self.schema.stubs:
            return self.schema.stubs["in:" + t.name](self, c, x)
        raise Unsupported("in %r" % t)

    def forelem(self, x, et):
        """x as a candidate element of a container of et; None if it cannot be one."""
        et = res(et)
        if isinstance(x, V):
            t = res(x.t)
            if et.kind == "opt" or t.kind == "yaml" or et.kind == "yaml":
                return x
            if t.kind == "none":
                return None
        return x

    def ex_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def islist(self, v):
        return (isinstance(v, MRef) and self.typeof(v).kind == "list") or (isinstance(v, V) and res(v.t).kind == "list")

    def isset(self, v):
        return (isinstance(v, MRef) and self.typeof(v).kind == "set") or (isinstance(v, V) and res(v.t).kind == "set")

    def seqof(self, v):
        """(element type, sequence term) of a list-like value."""
        if isinstance(v, MRef):
            m = self.m(v)
            if m["kind"] == "low":
                v = m["v"]
            elif m["kind"] == "list":
                t = self.typeof(v).args[0]
                t = res(t)
                if t.kind == "var":
                    return t, None
                return t, self.mkseq([self.coerce(x, t) for x in m["items"]], sort(t))
        if isinstance(v, Marker):
            it = self.iterate(v)
            if it[0] == "concrete":
                return self.seqof(self.new_list(it[1]))
            if v.k == "iter":
                return v.et, v.base
            raise Unsupported("sequence of %r" % (v,))
        if isinstance(v, Tup):
            return self.seqof(self.new_list(v.items))
        t = res(v.t)
        if t.kind == "list":
            return res(t.args[0]), self.lget(v)
        if t.kind == "seq":
            return res(t.args[0]), v.z
        if t.kind == "str":
            return Str, self.chars(v.z)
        if t.kind == "yaml":
            return Y, self.y_seq(v.z)
        raise Unsupported("sequence of %r" % t)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Add):
            if self.islist(a) or (isinstance(a, V) and res(a.t).kind == "seq"):
                if isinstance(a, MRef) and isinstance(b, MRef) and self.m(a)["kind"] == self.m(b)["kind"] == "list":
                    return self.new_list(self.m(a)["items"] + self.m(b)["items"])
                ta, za = self.seqof(a)
                tb, zb = self.seqof(b)
                if za is not None and zb is not None and za.sort() != zb.sort():
                    for k, x in enumerate((a, b)):
                        if isinstance(x, MRef) and self.m(x)["kind"] == "list":
                            y = self.new_list([self.force_opt(i) for i in self.m(x)["items"]])
                            a, b = (y, b) if k == 0 else (a, y)
                    ta, za = self.seqof(a)
                    tb, zb = self.seqof(b)
                t = self.join(ta, tb)
                if za is not None and zb is not None and za.sort() != zb.sort():
                    raise Unsupported("concatenation of lists of different types")
                if za is None and zb is None:
                    return self.new_list([])
                parts = [z for z in (za, zb) if z is not None]
                v = V(List(t), self.new_addr())
                self.lset(v, z3.simplify(parts[0] if len(parts) == 1 else z3.Concat(*parts)))
                return v
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            for x, y in ((a, b),):
                r = self.dunder(x, "__add__", [y])
                if r is not None:
                    return r
            if self.strish(a) and self.strish(b):
                return vstr(self.cat([self.coerce(a, Str), self.coerce(b, Str)]))
        if isinstance(op, ast.Mod) and isinstance(a, V) and res(a.t).kind == "str":
            return self.percent(a, b)
        if isinstance(op, ast.BitOr) and self.isset(a) and self.isset(b):
            return self.call_method(a, "union", [b], {})
        if isinstance(op, ast.BitAnd) and self.isset(a) and self.isset(b):
            return self.call_method(a, "intersection", [b], {})
        if isinstance(op, ast.Sub) and self.isset(a) and self.isset(b):
            return self.call_method(a, "difference", [b], {})
        if isinstance(op, ast.Mult) and isinstance(a, V) and res(a.t).kind == "str" and isinstance(b, V):
            n = z3.simplify(self.coerce(b, Int))
            if z3.is_int_value(n):
                return vstr(self.cat([a.z] * max(0, n.as_long())))
            return vstr(uf("str_repeat", z3.StringSort(), z3.IntSort(), z3.StringSort())(a.z, n))
        if not (isinstance(a, V) and isinstance(b, V)):
            raise Unsupported("operator on containers")
        s, t = res(a.t), res(b.t)
        if (s.kind in ("str", "none", "list") or t.kind in ("str", "none")):
            from .engine import PyRaise
            if s.kind != t.kind and "yaml" not in (s.kind, t.kind) and "opaque" not in (s.kind, t.kind):
                raise PyRaise("TypeError")
            raise Unsupported("operator on %r, %r" % (s, t))
        if s.kind == "opaque" or t.kind == "opaque":
            raise Unsupported("operator on opaque")
        ty = Real if "real" in (s.kind, t.kind) or isinstance(op, ast.Div) else Int
        x, y = self.coerce(a, ty), self.coerce(b, ty)
        if isinstance(op, ast.Add):
            return V(ty, z3.simplify(x + y))
        if isinstance(op, ast.Sub):
            return V(ty, z3.simplify(x - y))
        if isinstance(op, ast.Mult):
            return V(ty, z3.simplify(x * y))
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            from .engine import PyRaise
            if self.branch(y == 0):
                raise PyRaise("ZeroDivisionError")
            if isinstance(op, ast.Div):
                return V(Real, x / y)
            if isinstance(op, ast.FloorDiv) and z3.is_int_value(z3.simplify(y)) and z3.simplify(y).as_long() > 0:
                return V(Int, x / y)
            if isinstance(op, ast.Mod) and z3.is_int_value(z3.simplify(y)) and z3.simplify(y).as_long() > 0:
                return V(Int, x % y)
        raise Unsupported("operator " + type(op).__name__)

    def strish(self, v):
        return isinstance(v, V) and res(v.t).kind in ("str", "yaml")

    def dunder(self, v, name, args):
        if isinstance(v, V) and res(v.t).kind in ("ref", "val"):
            ci = self.cls_of(res(v.t).name)
        elif isinstance(v, MRef) and self.m(v)["kind"] == "obj":
            ci = self.cls_of(self.m(v)["cls"])
        else:
            return None
        f = self.find_method(ci, name) if ci else None
        return self.call_function(f, args, {}, selfv=v) if f else None

    def ex_Lambda(self, e):
        from .front import FuncInfo
        fr = self.frame()
        fi = FuncInfo((fr["func"].qual if fr["func"] else "?") + ".<lambda>", e, fr["mod"], None)
        return Marker(k="func", info=fi, clos=len(self.st.frames) - 1)

    # comprehensions are loops
    def ex_ListComp(self, e): return self.comp(e, "list")
    def ex_SetComp(self, e): return self.comp(e, "set")
    def ex_GeneratorExp(self, e): return self.comp(e, "list")

    def ex_DictComp(self, e): return self.comp(e, "dict")

    def comp(self, e, kind):
        fr = self.frame()
        self.st.frames.append({"vars": {}, "mod": fr["mod"], "func": fr["func"], "parent": len(self.st.frames) - 1,
                               "cls": fr["cls"]})
        depth = len(self.st.frames)
        try:
            if kind == "dict":
                acc = self.new_meta(kind="dict", pairs={}, lit=False, t=self.dict_types(e), site=self.site(e))
            else:
                acc = self.new_list([], self.site(e), isset=(kind == "set"))
            self.frame()["vars"]["$acc"] = acc

            def gen(i):
                if i == len(e.generators):
                    if kind == "dict":
                        self.setitem(self.getname("$acc"), self.ev(e.key), self.ev(e.value))
                    else:
                        self.call_method(self.getname("$acc"), "add" if kind == "set" else "append", [self.ev(e.elt)], {})
                    return
                g = e.generators[i]
                it = self.iterate(self.ev(g.iter))

                def body(v):
                    self.assign(g.target, v)
                    for c in g.ifs:
                        if not self.branch(self.test(c)):
                            return
                    gen(i + 1)
                self.for_loop(e, it, body, [], [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)])
            gen(0)
            return self.frame()["vars"]["$acc"]
        finally:
            del self.st.frames[depth - 1:]

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        """('concrete', [values]) or ('seq', term, wrap)."""
        r = self.iterate0(v)
        if r[0] == "seq" and z3.is_expr(r[1]):
            us = self.literal_units(r[1])
            if us is not None:
                return ("concrete", [r[2](u) for u in us])
        return r

    def literal_units(self, z):
        """the elements of a sequence of literal strings (such as the keys of a literal dictionary)"""
        z = z3.simplify(z)
        out = []
        for u in self.flat(z):
            if not (z3.is_app(u) and u.decl().kind() == z3.Z3_OP_SEQ_UNIT and is_lit_str(u.arg(0))):
                return None
            out.append(u.arg(0))
        return out if 0 < len(out) <= 40 else None

    def iterate0(self, v):
        v = self.force(v)
        if isinstance(v, Tup):
            return ("concrete", v.items)
        if isinstance(v, MRef):
            m = self.m(v)
            if m["kind"] == "list":
                if m.get("isset") and len(m["items"]) > 1:
                    return self.iterate(self.lower(v))
                return ("concrete", list(m["items"]))
            if m["kind"] == "dict":
                return ("concrete", [self.pylit(k) for k in m["pairs"]])
            v = m["v"]
        if isinstance(v, Marker):
            if v.k == "iter":
                return ("seq", v.base, v.wrapf)
            if v.k == "clist":
                return ("concrete", v.items)
            if v.k == "class" and v.info.enum:
                return ("concrete", [self.enum_member(v.info, n) for n, _ in v.info.enum])
            if v.k in ("items", "values", "keys"):
                d = v.d
                if isinstance(d, MRef) and self.m(d)["kind"] == "low":
                    d = self.m(d)["v"]
                if isinstance(d, MRef):
                    ps = self.m(d)["pairs"]
                    return ("concrete", [self.pylit(k) if v.k == "keys" else x if v.k == "values" else Tup([self.pylit(k), x])
                                         for k, x in ps.items()])
                if res(d.t).kind == "yaml":
                    ks = self.yuf("y_keys", z3.SeqSort(z3.StringSort()))(d.z)
                    wr = {"keys": lambda k: vstr(k), "values": lambda k: V(Y, self.y_get(d.z, k)),
                          "items": lambda k: Tup([vstr(k), V(Y, self.y_get(d.z, k))])}[v.k]
                    return ("seq", ks, wr)
                kt, vt = res(d.t).args
                o, dom, val = self.dget(d)

                def wr(k, val=val, dom=dom):
                    self.st.pc.append((z3.Select(dom, k), False))
                    kv = self.wrap(kt, k)
                    if v.k == "keys":
                        return kv
                    x = self.wrap(vt, z3.simplify(z3.Select(val, k)))
                    return x if v.k == "values" else Tup([kv, x])
                return ("seq", o, wr)
            if v.k == "enumerate":
                it = self.iterate(v.src)
                if it[0] == "concrete":
                    return ("concrete", [Tup([vint(i), x]) for i, x in enumerate(it[1])])
                base = it[1]
                n = V(Seq(Int), uf("indices", z3.IntSort(), z3.SeqSort(z3.IntSort()))(z3.Length(base)))

                def wr(i):
                    self.st.pc.append((z3.And(i >= 0, i < z3.Length(base)), False))
                    return Tup([vint(i), it[2](z3.simplify(base[i]))])
                return ("seq", n.z, wr)
            if v.k == "zip":
                its = [self.iterate(x) for x in v.srcs]
                if all(i[0] == "concrete" for i in its):
                    return ("concrete", [Tup(x) for x in zip(*[i[1] for i in its])])
                raise Unsupported("zip")
            if v.k == "reversed":
                it = self.iterate(v.src)
                if it[0] == "concrete":
                    return ("concrete", list(reversed(it[1])))
                b = it[1]
                return ("seq", uf("seq_rev", b.sort(), b.sort())(b), it[2])
            if v.k == "map":
                it = self.iterate(v.src)
                if it[0] == "concrete":
                    return ("concrete", [self.call(v.f, [x], {}) for x in it[1]])
                return ("seq", it[1], lambda x: self.call(v.f, [it[2](x)], {}))
            raise Unsupported("iteration over %r" % (v,))
        t = res(v.t)
        if t.kind == "str":
            return ("seq", self.chars(v.z), lambda x: vstr(x))
        if t.kind == "list":
            s = self.lget(v)
            if s is None:
                return ("concrete", [])
            return ("seq", s, lambda x: self.wrap(t.args[0], x))
        if t.kind == "seq":
            return ("seq", v.z, lambda x: self.wrap(t.args[0], x))
        if t.kind == "dict":
            return self.iterate(Marker(k="keys", d=v))
        if t.kind == "set":
            s = self.sget(v)
            et = res(t.args[0])
            o = uf("setorder_" + mangle(et), s.sort(), z3.SeqSort(sort(et)))(s)

            def wr(x):
                self.st.pc.append((z3.Select(s, x), False))
                return self.wrap(et, x)
            return ("seq", o, wr)
        if t.kind == "yaml":
            if not self.schema.y_lists and self.branch(self.y_isnone(v.z)):
                from .engine import PyRaise
                raise PyRaise("TypeError")
            return ("seq", self.y_seq(v.z), lambda x: V(Y, x))
        if t.kind == "opaque" and ("iter:" + t.name) in self.schema.stubs:
            return self.schema.stubs["iter:" + t.name](self, v)
        raise Unsupported("iteration over %r" % t)

    # ------------------------------------------------------------------ attributes
    def enum_member(self, ci, name):
        for n, x in ci.enum:
            if n == name:
                return V(Enum(ci.qual), z3.IntVal(x)) if isinstance(x, int) else self.pylit(x)
        raise Unsupported("enum member " + name)

    def class_attr(self, ci, name, self_or_cls=None):
        if ci.enum:
            for n, _ in ci.enum:
                if n == name:
                    return self.enum_member(ci, name)
        for c in self.mro(ci):
            if name in c.methods:
                f = c.methods[name]
                if f.classm:
                    return Marker(k="bound", info=f, selfv=Marker(k="class", info=ci))
                return Marker(k="func", info=f, clos=None)
            if name in c.nested:
                return Marker(k="class", info=c.nested[name])
            if name in c.consts:
                q = c.qual + "." + name
                if q in self.schema.class_state:
                    return self.schema.class_state[q](self)
                self.st.frames.append({"vars": {}, "mod": c.module, "func": None, "parent": None, "cls": c})
                try:
                    return self.ev(c.consts[name])
                finally:
                    self.st.frames.pop()
        return None

    def getattr(self, o, name):
        from .engine import PyRaise
        o = self.force(o, "AttributeError")
        if isinstance(o, Marker):
            if o.k == "class":
                if name == "__name__":
                    return vstr(o.info.node.name)
                r = self.class_attr(o.info, name)
                if r is None:
                    q = o.info.qual + "." + name
                    if q in self.schema.class_state:
                        return self.schema.class_state[q](self)
                    raise PyRaise("AttributeError")
                return r
            if o.k == "module":
                if name not in o.mod.names and self.prog.module(o.mod.name + "." + name) is not None:
                    return Marker(k="module", mod=self.prog.module(o.mod.name + "." + name))
                return self.modname(o.mod, name)
            if o.k == "ext":
                p = o.path + "." + name
                if p in self.schema.ext_values:
                    return self.schema.ext_values[p](self)
                return Marker(k="ext", path=p)
            if o.k == "excinst":
                if name == "args":
                    return Tup(o.args)
                return V(Y, z3.Const("exc_attr_%s_%s" % (o.cls.split(".")[-1], name), sort(Y)))
            if o.k in ("items", "values", "keys", "iter", "super", "match"):
                return Marker(k="bmeth", obj=o, name=name)
            raise Unsupported("attribute %s of %r" % (name, o))
        if isinstance(o, MRef):
            m = self.m(o)
            if m["kind"] == "obj":
                if name in m["fields"]:
                    return m["fields"][name]
                ci = self.cls_of(m["cls"])
                return self.inst_attr(o, ci, name)
            if m["kind"] == "lobj":
                if name in m["fields"]:
                    return m["fields"][name]
                for s in m["node"].body:
                    if isinstance(s, ast.FunctionDef) and s.name == name:
                        from .front import FuncInfo
                        fi = FuncInfo("local." + m["node"].name + "." + name, s, self.frame()["mod"], None)
                        return Marker(k="bound", info=fi, selfv=o, clos=m["frame"])
                raise PyRaise("AttributeError")
            return Marker(k="bmeth", obj=o, name=name)
        if isinstance(o, Tup):
            return Marker(k="bmeth", obj=o, name=name)
        t = res(o.t)
        if t.kind == "ref":
            if name == "__class__":
                ci = self.cls_of(t.name)
                return Marker(k="class", info=ci)
            f = self.schema.field(self, t.name, name)
            if f is not None:
                root, ft = f
                z = z3.Select(self.hget(("F", root, name), sort(ft)), o.z)
                dyn = (root, name) in self.schema.dynamic
                if dyn:
                    has = z3.Select(self.hget(("A", root, name), z3.BoolSort()), o.z)
                    if not self.branch(has):
                        raise PyRaise("AttributeError")
                return self.wrap(ft, z3.simplify(z))
            ci = self.cls_of(t.name)
            return self.inst_attr(o, ci, name)
        if t.kind == "val":
            for f, ft in VALCLASSES[t.name]:
                if f == name:
                    return self.wrap(ft, z3.simplify(getattr(val_dt(t), "f_" + f)(o.z)))
            return self.inst_attr(o, self.cls_of(t.name), name)
        if t.kind == "enum":
            ci = self.enum_info(t.name)
            if name == "value":
                return V(Int, o.z)
            if name == "name":
                z = EMPTYSTR
                for n, x in reversed(ci.enum):
                    z = z3.If(o.z == x, z3.StringVal(n), z)
                return vstr(z3.simplify(z))
            return self.inst_attr(o, ci, name)
        if t.kind == "opaque":
            k = "attr:%s.%s" % (t.name, name)
            if k in self.schema.stubs:
                return self.schema.stubs[k](self, o)
        return Marker(k="bmeth", obj=o, name=name)

    def inst_attr(self, o, ci, name):
        from .engine import PyRaise
        if ci is None:
            raise Unsupported("attribute %s of unknown class" % name)
        f = self.find_method(ci, name)
        if f is not None:
            if f.prop:
                return self.call_function(f, [], {}, selfv=o)
            if f.static:
                return Marker(k="func", info=f, clos=None)
            if f.classm:
                return Marker(k="bound", info=f, selfv=Marker(k="class", info=ci))
            return Marker(k="bound", info=f, selfv=o)
        r = self.class_attr(ci, name)
        if r is not None:
            return r
        if any(isinstance(b, (ast.Name, ast.Attribute)) and self.resolve_base(c, b) is None
               for c in self.mro(ci) for b in c.bases) and not ci.enum:
            raise Unsupported("attribute %s may come from an external base class" % name)
        # an attribute unknown to the schema: the class may set it in its own methods
        for c in self.mro(ci):
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                    raise Unsupported("attribute %s.%s is not in the schema" % (ci.qual, name))
        raise PyRaise("AttributeError")

    def setattr(self, o, name, v):
        from .engine import PyRaise
        o = self.force(o, "AttributeError")
        if isinstance(o, MRef):
            m = self.m(o)
            if m["kind"] in ("obj", "lobj"):
                if m.get("frozen"):
                    raise Unsupported("value object changed after use")
                m["fields"] = dict(m["fields"])
                m["fields"][name] = v
                return
        if isinstance(o, Marker) and o.k == "class":
            q = o.info.qual + "." + name
            if q in self.schema.class_state_set:
                return self.schema.class_state_set[q](self, v)
            raise Unsupported("class attribute assignment " + q)
        if isinstance(o, Marker):
            raise Unsupported("attribute assignment to %r" % (o,))
        if isinstance(o, V) and res(o.t).kind == "ref":
            f = self.schema.field(self, res(o.t).name, name)
            if f is None:
                if self.schema.ignore_fields(res(o.t).name, name):
                    return
                raise Unsupported("field %s of %s is not in the schema" % (name, res(o.t).name))
            root, ft = f
            self.hset(("F", root, name), sort(ft), o.z, self.coerce(v, ft))
            if (root, name) in self.schema.dynamic:
                self.hset(("A", root, name), z3.BoolSort(), o.z, z3.BoolVal(True))
            return
        if isinstance(o, V) and res(o.t).kind == "opaque":
            k = "setattr:%s.%s" % (res(o.t).name, name)
            if k in self.schema.stubs:
                return self.schema.stubs[k](self, o, v)
        raise Unsupported("attribute assignment to %r" % (o,))

    def delattr(self, o, name):
        from .engine import PyRaise
        if isinstance(o, V) and res(o.t).kind == "ref":
            f = self.schema.field(self, res(o.t).name, name)
            if f and (f[0], name) in self.schema.dynamic:
                has = z3.Select(self.hget(("A", f[0], name), z3.BoolSort()), o.z)
                if not self.branch(has):
                    raise PyRaise("AttributeError")
                self.hset(("A", f[0], name), z3.BoolSort(), o.z, z3.BoolVal(False))
                return
        raise Unsupported("del attribute")

    # ------------------------------------------------------------------ items
    def norm_index(self, s, i, n=None):
        from .engine import PyRaise
        L = z3.Length(s)
        i = z3.simplify(i)
        if z3.is_int_value(i) and i.as_long() < 0:
            i2 = z3.simplify(L + i)
        elif z3.is_int_value(i):
            i2 = i
        else:
            i2 = z3.simplify(z3.If(i < 0, L + i, i))
        if z3.is_int_value(i) and getattr(self.schema, "index_total", False):
            self.trusted.add("assumed: fields selected by a fixed position exist")
            return i2
        if not self.branch(z3.And(i2 >= 0, i2 < L)):
            raise PyRaise("IndexError")
        return i2

    def y_documented(self, z, k):
        """documents of the documented shape have one of two keys"""
        if is_lit_str(k) and _unescape(k) in getattr(self.schema, "y_either", {}):
            self.axiom(z3.Or(self.y_has(z, k), self.y_has(z, z3.StringVal(self.schema.y_either[_unescape(k)]))))

    def getitem(self, o, k):
        from .engine import PyRaise
        o = self.force(o)
        if isinstance(o, MRef) and self.m(o)["kind"] == "low":
            o = self.m(o)["v"]
        if isinstance(o, (Tup,)) or (isinstance(o, MRef) and self.m(o)["kind"] == "list"):
            items = o.items if isinstance(o, Tup) else self.m(o)["items"]
            z = z3.simplify(self.coerce(self.force(k), Int))
            if z3.is_int_value(z):
                i = z.as_long()
                if not -len(items) <= i < len(items):
                    raise PyRaise("IndexError")
                return items[i]
            for i, x in enumerate(items):
                if self.branch(z == i):
                    return x
            if self.branch(z >= len(items)):
                raise PyRaise("IndexError")
            raise Unsupported("symbolic index")
        if isinstance(o, MRef) and self.m(o)["kind"] == "dict":
            m = self.m(o)
            lk = self.litkey(k)
            if lk is not None:
                if lk[0] not in m["pairs"]:
                    raise PyRaise("KeyError")
                return m["pairs"][lk[0]]
            for kk, x in m["pairs"].items():
                if self.branch(self.eq(k, self.pylit(kk))):
                    return x
            raise PyRaise("KeyError")
        if isinstance(o, Marker):
            if o.k == "ext" and ("getitem:" + o.path) in self.schema.stubs:
                return self.schema.stubs["getitem:" + o.path](self, k)
            if o.k == "class" and o.info.enum:
                raise Unsupported("enum lookup by name")
            raise Unsupported("item of %r" % (o,))
        if isinstance(o, MRef):
            r = self.dunder(o, "__getitem__", [k])
            if r is not None:
                return r
            raise Unsupported("item of object")
        t = res(o.t)
        if t.kind in ("list", "seq"):
            s = self.lget(o) if t.kind == "list" else o.z
            if s is None:
                raise PyRaise("IndexError")
            i = self.norm_index(s, self.coerce(self.force(k), Int))
            z = z3.simplify(s[i])
            return self.wrap(t.args[0], z)
        if t.kind == "dict":
            if isinstance(k, V) and res(k.t).kind == "none" and res(t.args[0]).kind != "opt":
                raise PyRaise("KeyError")
            _, dom, val = self.dget(o)
            kz = self.coerce(k, t.args[0])
            if not self.branch(z3.Select(dom, kz)):
                raise PyRaise("KeyError")
            return self.wrap(t.args[1], z3.simplify(z3.Select(val, kz)))
        if t.kind == "str":
            i = self.norm_index(o.z, self.coerce(self.force(k), Int))
            return vstr(z3.simplify(z3.SubString(o.z, i, 1)))
        if t.kind == "yaml":
            if isinstance(k, V) and res(k.t).kind in ("int", "enum"):
                i = self.norm_index(self.y_seq(o.z), k.z)
                return V(Y, z3.simplify(self.y_seq(o.z)[i]))
            kz = k.z if res(k.t).kind == "str" else self.coerce(k, Str)
            if is_lit_str(kz) and _unescape(kz) in self.schema.y_total:
                return V(Y, self.y_get(o.z, kz))
            if self.branch(self.y_isnone(o.z)):
                raise PyRaise("TypeError")
            if not self.branch(self.y_has(o.z, kz)):
                raise PyRaise("KeyError")
            return V(Y, self.y_get(o.z, kz))
        r = self.dunder(o, "__getitem__", [k])
        if r is not None:
            return r
        if t.kind == "opaque" and ("getitem:" + t.name) in self.schema.stubs:
            return self.schema.stubs["getitem:" + t.name](self, o, k)
        if t.kind == "tuple":
            return self.getitem(self.wrap(t, o.z), k)
        raise Unsupported("item of %r" % t)

    def setitem(self, o, k, v):
        from .engine import PyRaise
        o = self.force(o)
        if isinstance(o, MRef):
            m = self.m(o)
            if m.get("frozen"):
                raise Unsupported("container changed after use in a value")
            if m["kind"] == "list":
                z = z3.simplify(self.coerce(k, Int))
                if z3.is_int_value(z):
                    i = z.as_long()
                    if not -len(m["items"]) <= i < len(m["items"]):
                        raise PyRaise("IndexError")
                    m["items"] = list(m["items"])
                    m["items"][i] = v
                    return
                raise Unsupported("symbolic list store")
            if m["kind"] == "dict":
                lk = self.litkey(k)
                if lk is not None and (m["lit"] or m["pairs"] or self.schema.literal_dicts):
                    m["pairs"] = dict(m["pairs"])
                    m["pairs"][lk[0]] = v
                    m["lit"] = True
                    return
                if m["lit"]:
                    raise Unsupported("symbolic key into a record")
                kt, vt = m["t"]
                kt = self.join(kt, self.typeof(k))
                vt = self.join(vt, self.typeof(v))
                m["t"] = (kt, vt)
                if m.get("site"):
                    self.site_types[("D",) + m["site"]] = (kt, vt)
                o = self.lower(o)
            elif m["kind"] == "low":
                o = m["v"]
            else:
                r = self.dunder(o, "__setitem__", [k, v])
                if r is not None:
                    return
                raise Unsupported("item assignment")
        if isinstance(o, Marker):
            if o.k == "ext" and ("setitem:" + o.path) in self.schema.stubs:
                return self.schema.stubs["setitem:" + o.path](self, k, v)
            raise Unsupported("item assignment to %r" % (o,))
        t = res(o.t)
        if t.kind == "dict":
            kz = self.coerce(k, t.args[0])
            vz = self.coerce(v, t.args[1])
            od, dom, val = self.dget(o)
            had = self.member(dom, kz)
            if z3.is_true(had):
                self.dset(o, [od, dom, z3.Store(val, kz, vz)])
                return
            app = z3.Concat(od, z3.Unit(kz))
            self.dset(o, [z3.simplify(z3.If(had, od, app)), z3.Store(dom, kz, z3.BoolVal(True)), z3.Store(val, kz, vz)])
            return
        if t.kind == "list":
            s = self.lget(o)
            i = self.norm_index(s, self.coerce(k, Int))
            self.lset(o, z3.simplify(z3.Concat(z3.SubSeq(s, 0, i), z3.Unit(self.coerce(v, t.args[0])),
                                               z3.SubSeq(s, i + 1, z3.Length(s) - i - 1))))
            return
        r = self.dunder(o, "__setitem__", [k, v])
        if r is not None:
            return
        if t.kind == "opaque" and ("setitem:" + t.name) in self.schema.stubs:
            return self.schema.stubs["setitem:" + t.name](self, o, k, v)
        raise Unsupported("item assignment to %r" % t)

    def member(self, dom, k):
        """whether k is in a set, decided where literal keys allow it"""
        k, d = z3.simplify(k), dom
        while z3.is_app(d):
            if d.decl().kind() == z3.Z3_OP_STORE:
                i = z3.simplify(d.arg(1))
                if i.eq(k):
                    return z3.simplify(d.arg(2))
                if is_lit_str(i) and is_lit_str(k):
                    d = d.arg(0)
                    continue
            elif d.decl().kind() == z3.Z3_OP_CONST_ARRAY:
                return z3.simplify(d.arg(0))
            elif d.decl().kind() == z3.Z3_OP_SELECT or d.decl().kind() == z3.Z3_OP_ITE:
                e = z3.simplify(d)
                if not e.eq(d):
                    d = e
                    continue
                if d.decl().kind() == z3.Z3_OP_ITE:
                    a, b = self.member(d.arg(1), k), self.member(d.arg(2), k)
                    if a.eq(b):
                        return a
            break
        return z3.simplify(z3.Select(dom, k))

    def delitem(self, o, k):
        from .engine import PyRaise
        o = self.force(o)
        if isinstance(o, MRef) and self.m(o)["kind"] == "low":
            o = self.m(o)["v"]
        if isinstance(o, V) and res(o.t).kind == "dict":
            od, dom, val = self.dget(o)
            kz = self.coerce(k, res(o.t).args[0])
            if not self.branch(z3.Select(dom, kz)):
                raise PyRaise("KeyError")
            self.dset(o, [self.seqdel(od, kz), z3.Store(dom, kz, z3.BoolVal(False)), val])
            return
        if isinstance(o, MRef) and self.m(o)["kind"] == "dict":
            lk = self.litkey(k)
            if lk is not None:
                m = self.m(o)
                if lk[0] not in m["pairs"]:
                    raise PyRaise("KeyError")
                m["pairs"] = {a: b for a, b in m["pairs"].items() if a != lk[0]}
                return
        raise Unsupported("del item")

    def seqdel(self, od, kz):
        return uf("seq_without_" + str(od.sort()).replace(" ", ""), od.sort(), kz.sort(), od.sort())(od, kz)

    def getslice(self, o, lo, hi, step):
        o = self.force(o)
        if isinstance(o, MRef) and self.m(o)["kind"] == "low":
            o = self.m(o)["v"]
        if step is not None:
            sz = z3.simplify(self.coerce(step, Int))
            if z3.is_int_value(sz) and sz.as_long() == -1 and lo is None and hi is None:
                return self.call_builtin("list", [Marker(k="reversed", src=o)], {})
            raise Unsupported("slice step")
        lit = lambda x: None if x is None else z3.simplify(self.coerce(x, Int))
        lo, hi = lit(lo), lit(hi)
        if isinstance(o, Tup) or (isinstance(o, MRef) and self.m(o)["kind"] == "list"):
            if all(x is None or z3.is_int_value(x) for x in (lo, hi)):
                f = lambda x: None if x is None else x.as_long()
                items = (o.items if isinstance(o, Tup) else self.m(o)["items"])[f(lo):f(hi)]
                return Tup(items) if isinstance(o, Tup) else self.new_list(items)
            raise Unsupported("symbolic slice")
        t = res(o.t)
        if t.kind == "yaml":
            o, t = vstr(self.coerce(o, Str)), Str
        if t.kind == "str" or t.kind in ("list", "seq"):
            s = o.z if t.kind in ("str", "seq") else self.lget(o)
            L = z3.Length(s)

            def clamp(x, dflt):
                if x is None:
                    return dflt
                if z3.is_int_value(x):
                    return z3.If(L >= x, x, L) if x.as_long() >= 0 else z3.If(L + x >= 0, L + x, z3.IntVal(0))
                return z3.If(x < 0, z3.If(L + x >= 0, L + x, z3.IntVal(0)), z3.If(L >= x, x, L))
            a, b = clamp(lo, z3.IntVal(0)), clamp(hi, L)
            z = z3.simplify(z3.SubSeq(s, a, z3.If(b - a > 0, b - a, z3.IntVal(0))) if t.kind != "str" else
                            z3.SubString(s, a, z3.If(b - a > 0, b - a, z3.IntVal(0))))
            if t.kind == "str":
                return vstr(z)
            v = V(List(t.args[0]), self.new_addr())
            self.lset(v, z)
            return v
        raise Unsupported("slice of %r" % t)

    # ------------------------------------------------------------------ calls
    def ex_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "set" and len(e.args) == 1 and not e.keywords and \
                isinstance(e.args[0], (ast.ListComp, ast.GeneratorExp)) and self.frame()["vars"].get("set") is None:
            return self.comp(e.args[0], "set")      # set([... for ...]) is {... for ...}
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                it = self.iterate(v)
                if it[0] != "concrete":
                    raise Unsupported("starred argument")
                args += it[1]
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("** argument")
            kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node=None):
        from .engine import PyRaise
        f = self.force(f)
        if isinstance(f, V) and res(f.t).kind == "opaque" and ("call:" + res(f.t).name) in self.schema.stubs:
            return self.schema.stubs["call:" + res(f.t).name](self, [f] + args, kw)
        if not isinstance(f, Marker):
            raise Unsupported("call of %r" % (f,))
        if f.k == "func":
            return self.call_function(f.info, args, kw, clos=f.clos)
        if f.k == "bound":
            return self.call_function(f.info, args, kw, selfv=f.selfv, clos=f.__dict__.get("clos"))
        if f.k == "class":
            return self.instantiate(f.info, args, kw)
        if f.k == "localclass":
            r = self.new_meta(kind="lobj", node=f.node, frame=f.frame, fields={})
            init = self.getattr(r, "__init__")
            self.call(init, args, kw)
            return r
        if f.k == "builtin":
            return self.call_builtin(f.name, args, kw)
        if f.k == "exc":
            return Marker(k="excinst", cls=f.name, args=args, eargs=args)
        if f.k == "bmeth":
            return self.call_method(f.obj, f.name, args, kw)
        if f.k == "ext":
            return self.call_ext(f.path, args, kw)
        raise Unsupported("call of %r" % (f,))

    def call_ext(self, path, args, kw):
        path = self.schema.ext_alias.get(path, path)
        if path in self.schema.stubs:
            self.trusted.add(path)
            return self.schema.stubs[path](self, args, kw)
        if path == "collections.deque" and not kw and len(args) <= 1:
            return self.call_builtin("list", args, kw)       # a deque is used as a list with operations at both ends
        if path in ("sys.stderr.write", "sys.stdout.write"):
            if self.schema.log_print:
                self.log(path.split(".")[1], "write", self.coerce(args[0], Str))
            return V(Int, z3.Length(self.coerce(args[0], Str)))
        if path in ("sys.stderr.flush", "sys.stdout.flush"):
            return NONE
        raise Unsupported("external function " + path)

    def instantiate(self, ci, args, kw):
        from .engine import PyRaise
        q = ci.qual
        if q in self.schema.models:
            self.trusted.add("assumed contract: " + q)
            return self.schema.models[q](self, args, kw)
        if ci.enum:
            v = self.force(args[0])
            z = self.coerce(v, Int)
            vals = [x for _, x in ci.enum]
            if not self.branch(z3.Or(*[z == x for x in vals])):
                raise PyRaise("ValueError")
            return V(Enum(q), z3.simplify(z))
        if "Exception" in self.exc_parents(q):
            return Marker(k="excinst", cls=q, args=args, eargs=args)
        init = self.find_method(ci, "__init__")
        if q in VALCLASSES:
            o = self.new_meta(kind="obj", cls=q, fields={})
        elif self.schema.known(q):
            o = V(Ref(q), self.new_addr())
            if self.schema.tagged(q):
                self.hset(("TAG", self.schema.root(q)), z3.IntSort(), o.z, z3.IntVal(self.schema.tag(q)))
            for (r, n) in self.schema.dynamic:
                if r == self.schema.root(q) or r == q:
                    self.hset(("A", r, n), z3.BoolSort(), o.z, z3.BoolVal(False))
        else:
            raise Unsupported("class %s is not in the schema" % q)
        if init:
            self.call_function(init, args, kw, selfv=o)
        elif args or kw:
            raise PyRaise("TypeError")
        return o

    def fmt(self, v, spec=""):
        """str.format of one value."""
        v0 = v
        if isinstance(v, MRef) and self.m(v)["kind"] == "low":
            v = self.m(v)["v"]
        if spec:
            if isinstance(v, V) and res(v.t).kind in ("int", "real", "enum", "bool"):
                z = self.coerce(v, Real)
                return uf("fmt_" + spec, z3.RealSort(), z3.StringSort())(z)
            raise Unsupported("format spec")
        return self.tostr(v)

    def tostr(self, v):
        from .engine import PyRaise
        if isinstance(v, MRef):
            m = self.m(v)
            if m["kind"] == "obj":
                r = self.dunder(v, "__str__", [])
                if r is not None:
                    return self.coerce(r, Str)
            raise Unsupported("str of a container")
        if isinstance(v, Marker):
            if v.k == "excinst":
                return uf("str_of_exc", z3.StringSort(), z3.StringSort())(z3.StringVal(v.cls))
            raise Unsupported("str of %r" % (v,))
        if isinstance(v, Tup):
            raise Unsupported("str of a tuple")
        t = res(v.t)
        if t.kind == "str":
            return v.z
        if t.kind == "yaml":
            return self.coerce(v, Str)
        if t.kind == "int":
            z = z3.simplify(v.z)
            if z3.is_int_value(z):
                return z3.StringVal(str(z.as_long()))
            return uf("str_of_int", z3.IntSort(), z3.StringSort())(z)
        if t.kind == "bool":
            b = z3.simplify(v.z)
            if z3.is_true(b) or z3.is_false(b):
                return z3.StringVal("True" if z3.is_true(b) else "False")
            z = uf("str_of_bool", z3.BoolSort(), z3.StringSort())(b)
            self.assume(z == z3.If(b, z3.StringVal("True"), z3.StringVal("False")))
            return z
        if t.kind == "none":
            return z3.StringVal("None")
        if t.kind == "enum":
            ci = self.enum_info(t.name)
            f = self.find_method(ci, "__str__")
            if f:
                return self.coerce(self.call_function(f, [], {}, selfv=v), Str)
            return uf("str_of_int", z3.IntSort(), z3.StringSort())(v.z)
        if t.kind == "opt":
            a = res(t.args[0])
            if a.kind in REFKINDS:
                raise Unsupported("str of optional reference")
            return z3.If(opt_dt(a).is_none(v.z), z3.StringVal("None"), self.tostr(self.wrap(a, opt_dt(a).the(v.z), False)))
        if t.kind in ("ref", "val"):
            r = self.dunder(v, "__str__", [])
            if r is not None:
                return self.coerce(r, Str)
            if t.kind == "ref":
                return uf("str_of_ref", z3.IntSort(), z3.StringSort())(v.z)
        if t.kind in ("opaque", "real"):
            return uf("str_of_" + mangle(t), sort(t), z3.StringSort())(v.z)
        raise Unsupported("str of %r" % t)

    def percent(self, a, b):
        z = z3.simplify(self.coerce(a, Str))
        if not is_lit_str(z):
            raise Unsupported("% formatting of a computed string")
        import re
        args = list(b.items) if isinstance(b, Tup) else [b]
        parts = []
        for p in re.split(r"(%.)", _unescape(z)):
            if p in ("%s", "%d"):
                if not args:
                    raise Unsupported("% formatting with too few arguments")
                parts.append(self.fmt(args.pop(0), ""))
            elif p == "%%":
                parts.append(z3.StringVal("%"))
            elif p.startswith("%"):
                raise Unsupported("% format " + p)
            elif p:
                parts.append(z3.StringVal(p))
        if args:
            raise Unsupported("% formatting with too many arguments")
        return vstr(self.cat(parts))

    def format(self, z, args, kw):
        z = z3.simplify(z)
        if not is_lit_str(z):
            raise Unsupported("format of a computed string")
        import string
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(_unescape(z)):
            if lit:
                parts.append(z3.StringVal(lit))
            if field is None:
                continue
            if conv not in (None, "s") or (spec and "{" in spec):
                raise Unsupported("format conversion")
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Unsupported("format field " + field)
            parts.append(self.fmt(v, spec or ""))
        return vstr(self.cat(parts))

    # ------------------------------------------------------------------ built-in functions
    def call_builtin(self, name, args, kw):
        f = getattr(self, "bi_" + name, None)
        if f is None:
            raise Unsupported("builtin " + name)
        return f(args, kw)

    def bi_len(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, Tup):
            return vint(len(v.items))
        if isinstance(v, MRef):
            m = self.m(v)
            if m["kind"] == "list":
                if m.get("isset"):
                    return self.bi_len([self.lower(v)], kw)
                return vint(len(m["items"]))
            if m["kind"] == "dict":
                return vint(len(m["pairs"]))
            if m["kind"] == "low":
                v = m["v"]
        if isinstance(v, Marker) and v.k in ("items", "values", "keys"):
            return self.bi_len([v.d], kw)
        if isinstance(v, Marker) and v.k == "iter":
            return vint(z3.Length(v.base))
        t = res(v.t)
        if t.kind == "list":
            s = self.lget(v)
            return vint(0) if s is None else vint(z3.simplify(z3.Length(s)))
        if t.kind in ("seq", "str"):
            return vint(z3.simplify(z3.Length(v.z)))
        if t.kind == "dict":
            return vint(z3.simplify(z3.Length(self.dget(v)[0])))
        if t.kind == "set":
            s = self.sget(v)
            n = uf("card_" + mangle(t), s.sort(), z3.IntSort())(s)
            self.assume(n >= 0)
            return vint(n)
        if t.kind == "yaml":
            return vint(z3.Length(self.y_seq(v.z)))
        raise Unsupported("len of %r" % t)

    def bi_isinstance(self, a, kw):
        v, c = self.force_opt(a[0]), a[1]
        if isinstance(c, Tup):
            z = z3.BoolVal(False)
            for x in c.items:
                z = z3.Or(z, self.bi_isinstance([v, x], kw).z)
            return vbool(z3.simplify(z))
        if isinstance(v, V):
            t = res(v.t)
            if t.kind == "none":
                return vbool(False)
            if t.kind == "ref" and isinstance(c, Marker) and c.k == "class":
                root = self.schema.root(t.name)
                subs = [q for q in self.schema.subclasses(root) if c.info.qual in [x.qual for x in self.mro(self.cls_of(q))]]
                if self.schema.tagged(t.name):
                    tag = z3.Select(self.hget(("TAG", root), z3.IntSort()), v.z)
                    all_ = [q for q in self.schema.subclasses(root) if q not in self.schema.abstract]
                    self.axiom(z3.Or(*[tag == self.schema.tag(q) for q in all_]))
                    return vbool(z3.simplify(z3.Or(*[tag == self.schema.tag(q) for q in subs])) if subs else False)
                return vbool(c.info.qual in [x.qual for x in self.mro(self.cls_of(t.name))])
            names = {"str": ("str",), "int": ("int",), "bool": ("bool", "int"), "list": ("list",), "dict": ("dict",),
                     "set": ("set",), "seq": ("list",), "enum": ("int",), "tuple": ("tuple",)}
            if isinstance(c, Marker) and c.k == "builtin" and t.kind in names:
                return vbool(c.name in names[t.kind])
            if isinstance(c, Marker) and c.k == "class" and t.kind in names:
                return vbool(t.kind == "enum" and t.name == c.info.qual)
        if isinstance(v, (Tup, MRef)) and isinstance(c, Marker) and c.k == "builtin":
            k = "tuple" if isinstance(v, Tup) else self.typeof(v).kind
            return vbool(c.name == k or (k == "yaml" and c.name == "dict"))
        if isinstance(v, V) and res(v.t).kind == "yaml" and isinstance(c, Marker) and c.k == "builtin" and c.name in ("dict", "list", "str", "int", "bool"):
            z = uf("y_is_" + c.name, sort(Y), z3.BoolSort())(v.z)
            self.assume(z3.Implies(z, z3.Not(self.y_isnone(v.z))))
            return vbool(z)
        raise Unsupported("isinstance")

    def force_opt(self, v):
        if isinstance(v, V) and res(v.t).kind == "opt":
            if self.branch(self.isnone(v)):
                return NONE
            return self.force(v)
        return v

    def seqbool(self, a):
        v = a[0]
        it = self.iterate(v)
        if it[0] == "concrete":
            return None, [self.truth(x) for x in it[1]]
        if isinstance(v, Marker) and v.k == "map":
            v = self.bi_list([v], {})
        t, s = self.seqof(v)
        if t.kind != "bool":
            # truth of each element
            r = self.map_seq(v, lambda x: vbool(self.truth(x)))
            t, s = self.seqof(r)
        return s, None

    def map_seq(self, v, f):
        """[f(x) for x in v] built through the loop machinery."""
        import types
        it = self.iterate(v)
        fr = self.frame()
        self.st.frames.append({"vars": {}, "mod": fr["mod"], "func": fr["func"], "parent": len(self.st.frames) - 1,
                               "cls": fr["cls"]})
        depth = len(self.st.frames)
        try:
            self.frame()["vars"]["$acc"] = self.new_list([], None)
            n = types.SimpleNamespace(lineno=0, col_offset=0)
            self.for_loop(n, it, lambda x: self.call_method(self.getname("$acc"), "append", [f(x)], {}), [])
            return self.frame()["vars"]["$acc"]
        finally:
            del self.st.frames[depth - 1:]

    def bi_any(self, a, kw):
        s, bs = self.seqbool(a)
        if s is None:
            return vbool(z3.simplify(z3.Or(*bs)) if bs else False)
        return vbool(z3.Contains(s, z3.Unit(z3.BoolVal(True))))

    def bi_all(self, a, kw):
        s, bs = self.seqbool(a)
        if s is None:
            return vbool(z3.simplify(z3.And(*bs)) if bs else True)
        return vbool(z3.Not(z3.Contains(s, z3.Unit(z3.BoolVal(False)))))

    def bi_sum(self, a, kw):
        it = self.iterate(a[0])
        if it[0] == "concrete":
            z = z3.IntVal(0)
            for x in it[1]:
                z = z + self.coerce(x, Int)
            return vint(z3.simplify(z))
        t, s = self.seqof(a[0] if not (isinstance(a[0], Marker)) else self.bi_list([a[0]], {}))
        return vint(uf("seq_sum", z3.SeqSort(z3.IntSort()), z3.IntSort())(s))

    def bi_max(self, a, kw): return self.minmax(a, kw, True)
    def bi_min(self, a, kw): return self.minmax(a, kw, False)

    def minmax(self, a, kw, mx):
        if kw:
            raise Unsupported("max with key")
        if len(a) == 1:
            it = self.iterate(a[0])
            if it[0] != "concrete" or not it[1]:
                raise Unsupported("max of a sequence")
            a = it[1]
        t = Real if any(res(x.t).kind == "real" for x in a) else Int
        r = self.coerce(a[0], t)
        for x in a[1:]:
            y = self.coerce(x, t)
            r = z3.If(y > r, y, r) if mx else z3.If(y < r, y, r)
        if all(res(x.t).kind == "enum" for x in a):
            t = res(a[0].t)
        return V(t, z3.simplify(r))

    def bi_list(self, a, kw):
        if not a:
            return self.new_list([])
        v = a[0]
        it = self.iterate(v)
        if it[0] == "concrete":
            return self.new_list(list(it[1]))
        if isinstance(v, Marker) and v.k in ("items", "values", "map", "enumerate") or \
                (isinstance(v, Marker) and v.k == "reversed" and isinstance(v.src, Marker)):
            return self.map_seq(v, lambda x: x)
        if isinstance(v, Marker) and v.k == "iter":
            t = v.et
        elif isinstance(v, Marker) and v.k == "keys":
            t = res(v.d.t).args[0]
        elif isinstance(v, Marker) and v.k == "reversed":
            t = self.seqof(v.src)[0]
        elif isinstance(v, V) and res(v.t).kind in ("set", "list", "seq", "dict"):
            t = res(v.t).args[0]
        elif isinstance(v, MRef):
            t = res(self.m(v)["v"].t).args[0]
        else:
            return self.map_seq(v, lambda x: x)
        r = V(List(t), self.new_addr())
        self.lset(r, it[1])
        return r

    def bi_tuple(self, a, kw):
        if not a:
            return Tup([])
        it = self.iterate(a[0])
        if it[0] == "concrete":
            return Tup(it[1])
        t, s = self.seqof(a[0])
        return V(Seq(t), s)

    def bi_set(self, a, kw):
        if not a:
            return self.new_list([], ("set0",) + (id(self.frame()["func"]),), isset=True)
        v = self.force(a[0])
        if isinstance(v, V) and res(v.t).kind == "set":
            r = V(res(v.t), self.new_addr())
            self.sset(r, self.sget(v))
            return r
        it = self.iterate(v)
        if it[0] == "concrete":
            return self.new_list(it[1], isset=True)
        t, s = self.seqof(self.bi_list([v], {}) if isinstance(v, Marker) else v)
        r = V(Set(t), self.new_addr())
        self.sset(r, self.setof(s, t))
        return r

    def setof(self, s, t):
        x = z3.Const("so_x", sort(t))
        f = uf("setof_" + mangle(t), s.sort(), z3.ArraySort(sort(t), z3.BoolSort()))
        ax = z3.ForAll([x], z3.Select(f(s), x) == z3.Contains(s, z3.Unit(x)), patterns=[z3.Select(f(s), x)])
        self.st.pc.append((ax, False))
        return f(s)

    def bi_frozenset(self, a, kw): return self.bi_set(a, kw)

    def bi_dict(self, a, kw):
        if a or kw:
            if len(a) == 1 and not kw and isinstance(a[0], V) and res(a[0].t).kind == "dict":
                r = V(res(a[0].t), self.new_addr())
                self.dset(r, self.dget(a[0]))
                return r
            raise Unsupported("dict(...)")
        return self.new_meta(kind="dict", pairs={}, lit=False, t=self.dict_types0(), site=None)

    def dict_types0(self):
        return (TVarT(), TVarT())

    def bi_str(self, a, kw):
        if not a:
            return vstr("")
        return vstr(self.tostr(a[0]))

    def bi_repr(self, a, kw):
        raise Unsupported("repr")

    def bi_int(self, a, kw):
        from .engine import PyRaise
        v = self.force(a[0])
        if res(v.t).kind in ("int", "enum", "bool"):
            return V(Int, self.coerce(v, Int))
        if res(v.t).kind == "yaml":
            return V(Int, self.coerce(v, Int))
        if res(v.t).kind == "real":
            return V(Int, z3.If(v.z >= 0, z3.ToInt(v.z), -z3.ToInt(-v.z)))
        if res(v.t).kind == "str":
            z = z3.simplify(v.z)
            if is_lit_str(z):
                try:
                    return vint(int(_unescape(z)))
                except ValueError:
                    raise PyRaise("ValueError")
            ok = uf("is_int_text", z3.StringSort(), z3.BoolSort())(z)
            if not getattr(self.schema, "int_total", False) and not self.branch(ok):
                raise PyRaise("ValueError")
            return vint(uf("int_of_text", z3.StringSort(), z3.IntSort())(z))
        raise Unsupported("int()")

    def bi_bool(self, a, kw): return vbool(z3.simplify(self.truth(a[0])))

    def bi_float(self, a, kw):
        v = a[0]
        if isinstance(v, V) and res(v.t).kind == "str":
            z = z3.simplify(v.z)
            return V(Real, z3.Real("float_" + _unescape(z)))
        return V(Real, self.coerce(v, Real))

    def bi_print(self, a, kw):
        if "print" in self.schema.stubs:
            return self.schema.stubs["print"](self, a, kw)
        if self.schema.log_print:
            self.log("out", "print", vstr(self.cat([self.tostr(x) for x in a])))
        return NONE

    def bi_enumerate(self, a, kw):
        if len(a) > 1 or kw:
            raise Unsupported("enumerate start")
        return Marker(k="enumerate", src=a[0])

    def bi_zip(self, a, kw): return Marker(k="zip", srcs=a)
    def bi_reversed(self, a, kw): return Marker(k="reversed", src=a[0])
    def bi_iter(self, a, kw): return a[0]

    def bi_map(self, a, kw):
        return Marker(k="map", f=a[0], src=a[1])

    def bi_filter(self, a, kw):
        raise Unsupported("filter")

    def bi_range(self, a, kw):
        zs = [z3.simplify(self.coerce(x, Int)) for x in a]
        if all(z3.is_int_value(z) for z in zs):
            return Marker(k="clist", items=[vint(i) for i in range(*[z.as_long() for z in zs])])
        lo, hi = (z3.IntVal(0), zs[0]) if len(zs) == 1 else (zs[0], zs[1])
        if len(zs) > 2:
            raise Unsupported("range step")
        n = uf("range_seq", z3.IntSort(), z3.IntSort(), z3.SeqSort(z3.IntSort()))(lo, hi)

        def wr(i):
            self.st.pc.append((z3.And(i >= lo, i < hi), False))
            return vint(i)
        return Marker(k="iter", base=n, et=Int, wrapf=wr)

    def bi_sorted(self, a, kw):
        key = kw.get("key")
        rev = kw.get("reverse")
        src = a[0]
        it = self.iterate(src)
        if it[0] == "concrete":
            if len(it[1]) <= 1:
                return self.new_list(it[1])
            src = self.new_list(it[1])
            t, s = self.seqof(src)
            wrapf = lambda x: self.wrap(t, x)
        elif isinstance(src, Marker) and src.k in ("items", "keys"):
            # sorting the items of a dictionary sorts its (distinct) keys
            t, s, wrapf = None, it[1], it[2]
        else:
            if isinstance(src, Marker):
                src = self.bi_list([src], {})
                it = self.iterate(src)
                if it[0] == "concrete":
                    return self.bi_sorted([src], kw)
            t, s = self.seqof(src)
            wrapf = it[2]
        tag = "sorted"
        if rev is not None:
            z = z3.simplify(self.truth(rev))
            if not (z3.is_true(z) or z3.is_false(z)):
                raise Unsupported("symbolic reverse")
            if z3.is_true(z):
                tag = "sorted_rev"
        if key is None or (isinstance(key, V) and res(key.t).kind == "none"):
            r = uf("%s_%s" % (tag, str(s.sort()).replace(" ", "")), s.sort(), s.sort())(s)
            # sorting does not add elements
            self.note_elems(r, s)
        else:
            lid = "%s!key%d" % (self.side, self.st.n)
            self.st.n += 1
            x = z3.Const("el!" + lid, s.sort().basis())

            def run():
                return self.call(key, [wrapf(x)], {})
            outs = self.explore(run, self.st)
            if any(o.kind != "normal" for o in outs):
                # keys that can fail: give up precision on the failing elements
                outs = [o for o in outs if o.kind == "normal"]
                if not outs:
                    raise Unsupported("sort key raises")
            saved = self.st
            zs, conds = [], []
            kt = None
            for o in outs:
                self.st = o.st
                kt = self.typeof(o.val) if kt is None else self.join(kt, self.typeof(o.val))
            for o in outs:
                self.st = o.st
                zs.append(self.coerce(o.val, kt))
                conds.append(o.cond)
            self.st = saved
            z = zs[-1]
            for c, y in zip(reversed(conds[:-1]), reversed(zs[:-1])):
                z = z3.If(c, y, z)
            facts = [z3.Implies(o.cond, f) for o in outs for f in o.facts]
            d = Desc("F!%s!%s" % (tag, lid), "sorted", tag, s, x, [], None, None, facts, self.side, res=z3.simplify(z))
            r = self.prover.mk(d, s.sort())
        if t is None:
            return Marker(k="iter", base=r, et=None, wrapf=wrapf)
        v = V(List(t), self.new_addr())
        self.lset(v, r)
        return v

    def note_elems(self, r, s):
        self.schema.same_elems[r.get_id()] = (r, s)

    def bi_next(self, a, kw):
        from .engine import PyRaise
        v = a[0]
        it = self.iterate(v)
        if it[0] == "concrete":
            if it[1]:
                return it[1][0]
            if len(a) > 1:
                return a[1]
            raise PyRaise("StopIteration")
        if self.branch(z3.Length(it[1]) > 0):
            return it[2](z3.simplify(it[1][0]))
        if len(a) > 1:
            return a[1]
        raise PyRaise("StopIteration")

    def bi_getattr(self, a, kw):
        lk = self.litkey(a[1])
        if lk is None:
            raise Unsupported("getattr")
        return self.getattr(a[0], lk[0])

    def bi_super(self, a, kw):
        fr = self.frame()
        return Marker(k="super", cls=fr["cls"], selfv=fr["vars"].get("self"))

    def bi_open(self, a, kw):
        return self.call_ext("open", a, kw)

    def bi_type(self, a, kw):
        if isinstance(a[0], V) and res(a[0].t).kind in ("ref", "val"):
            return Marker(k="class", info=self.cls_of(res(a[0].t).name))
        raise Unsupported("type()")

    # ------------------------------------------------------------------ methods of built-in types
    def call_method(self, o, name, args, kw):
        if name in ("append", "add") and len(args) == 1:
            args = [self.narrowed(args[0])]
        from .engine import PyRaise
        o = self.force(o, "AttributeError")
        if isinstance(o, MRef) and self.m(o)["kind"] == "low":
            o = self.m(o)["v"]
        if isinstance(o, Marker):
            if o.k == "super":
                for c in self.mro(o.cls)[1:]:
                    if name in c.methods:
                        return self.call_function(c.methods[name], args, kw, selfv=o.selfv)
                if name == "__init__":
                    return NONE
            raise Unsupported("method %s of %r" % (name, o))
        if isinstance(o, MRef):
            m = self.m(o)
            if m["kind"] == "list":
                return self.meta_list_method(o, m, name, args, kw)
            if m["kind"] == "dict":
                return self.meta_dict_method(o, m, name, args, kw)
            return self.call(self.getattr(o, name), args, kw)
        if isinstance(o, Tup):
            if name == "index" or name == "count":
                raise Unsupported("tuple." + name)
            raise PyRaise("AttributeError")
        t = res(o.t)
        if t.kind == "yaml":
            if name == "get":
                kz = self.coerce(args[0], Str)
                d = args[1] if len(args) > 1 else NONE
                return V(Y, z3.If(self.y_has(o.z, kz), self.y_get(o.z, kz), self.to_y(d)))
            if name in ("items", "values", "keys"):
                return Marker(k=name, d=o)
            if name in ("append", "extend", "update"):
                raise Unsupported("mutation of YAML data")
            if name == "replace" and len(args) == 1:
                raise Unsupported("datetime")
            o = vstr(self.coerce(o, Str))
            t = Str
        f = getattr(self, "m_%s_%s" % (t.kind, name), None)
        if f:
            return f(o, args, kw)
        if t.kind in ("ref", "val", "enum"):
            return self.call(self.getattr(o, name), args, kw)
        if t.kind == "opaque":
            k = "%s.%s" % (t.name, name)
            if k in self.schema.stubs:
                self.trusted.add(k)
                return self.schema.stubs[k](self, [o] + args, kw)
        raise Unsupported("method %s of %r" % (name, t))

    def meta_list_method(self, o, m, name, a, kw):
        from .engine import PyRaise
        if m.get("frozen") and name in ("append", "extend", "add", "pop", "insert", "remove", "clear", "update", "appendleft"):
            raise Unsupported("container changed after use in a value")
        m["items"] = list(m["items"])
        it = m["items"]
        if m.get("isset"):
            if name == "add":
                it.append(a[0])
                return NONE
            if name == "update" and not kw:
                src = self.iterate(a[0])
                if src[0] == "concrete":
                    it.extend(src[1])
                    return NONE
            return self.call_method(self.lower_typed(o, a), name, a, kw)
        if name == "append":
            it.append(a[0])
            return NONE
        if name == "appendleft":
            it.insert(0, a[0])
            return NONE
        if name == "extend":
            src = self.iterate(a[0])
            if src[0] == "concrete":
                it.extend(src[1])
                return NONE
            return self.call_method(self.lower_typed(o, a), name, a, kw)
        if name in ("pop", "popleft"):
            if not it:
                raise PyRaise("IndexError")
            if a:
                z = z3.simplify(self.coerce(a[0], Int))
                if not z3.is_int_value(z):
                    raise Unsupported("pop")
                return it.pop(z.as_long())
            return it.pop() if name == "pop" else it.pop(0)
        if name == "copy":
            return self.new_list(it)
        if name == "clear":
            it.clear()
            return NONE
        if name == "insert":
            z = z3.simplify(self.coerce(a[0], Int))
            if z3.is_int_value(z):
                it.insert(z.as_long(), a[1])
                return NONE
        return self.call_method(self.lower_typed(o, a), name, a, kw)

    def lower_typed(self, o, a):
        """lower a local list, taking the element type from the argument when it is still unknown."""
        t = self.typeof(o)
        if res(t.args[0]).kind == "var" and a:
            try:
                et = self.seqof(a[0])[0]
            except Unsupported:
                et = None
            if et is None and isinstance(a[0], V) and res(a[0].t).kind == "set":
                et = res(a[0].t).args[0]
            if et is not None and res(et).kind != "var":
                self.join(t.args[0], et)
        return self.lower(o)

    def meta_dict_method(self, o, m, name, a, kw):
        from .engine import PyRaise
        if name == "get":
            lk = self.litkey(a[0])
            if lk is not None:
                return m["pairs"].get(lk[0], a[1] if len(a) > 1 else NONE)
            for k, v in m["pairs"].items():
                if self.branch(self.eq(a[0], self.pylit(k))):
                    return v
            return a[1] if len(a) > 1 else NONE
        if name in ("items", "keys", "values"):
            return Marker(k=name, d=o)
        if name == "update" and len(a) == 1 and not kw:
            src = a[0]
            if isinstance(src, MRef) and self.m(src)["kind"] == "dict":
                if not m.get("frozen"):
                    m["pairs"] = dict(m["pairs"])
                    m["pairs"].update(self.m(src)["pairs"])
                    return NONE
            if isinstance(src, (V, MRef)) and not m["pairs"]:
                st = self.typeof(src)
                if st.kind == "dict":
                    m["t"] = (res(st.args[0]), res(st.args[1]))
                    return self.call_method(self.lower(o), "update", a, kw)
        if name == "copy":
            return self.new_meta(kind="dict", pairs=dict(m["pairs"]), lit=m["lit"], t=m["t"], site=m.get("site"))
        if name == "setdefault":
            lk = self.litkey(a[0])
            if lk is not None:
                if lk[0] not in m["pairs"]:
                    m["pairs"] = dict(m["pairs"])
                    m["pairs"][lk[0]] = a[1]
                return m["pairs"][lk[0]]
            if not m["pairs"]:
                self.setitem(o, a[0], a[1])
                return a[1]
        raise Unsupported("dict." + name)

    # lists
    def m_list_append(self, o, a, kw):
        t = res(o.t).args[0]
        zt = self.coerce(a[0], t) if res(t).kind != "var" else None
        if zt is None:
            self.join(t, self.typeof(a[0]))
            zt = self.coerce(a[0], t)
            self.assume_fresh_empty(o)
        s = self.lget(o)
        self.lset(o, z3.simplify(z3.Concat(s, z3.Unit(zt))))
        return NONE

    def assume_fresh_empty(self, o):
        if any(z.eq(o.z) for z, _ in self.st.fresh):
            self.st.pc.append((self.lget(o) == z3.Empty(self.lget(o).sort()), False))

    def m_list_appendleft(self, o, a, kw):
        self.lset(o, z3.Concat(z3.Unit(self.coerce(a[0], res(o.t).args[0])), self.lget(o)))
        return NONE

    def m_list_extend(self, o, a, kw):
        it = self.iterate(a[0])
        t = res(o.t).args[0]
        if it[0] == "concrete":
            for x in it[1]:
                self.m_list_append(o, [x], {})
            return NONE
        v = a[0]
        if isinstance(v, Marker):
            v = self.bi_list([v], {})
        et, s = self.seqof(v)
        if res(et) != res(t):
            self.join(et, t)
            v = self.map_seq(v, lambda x: self.wrap(t, self.coerce(x, t)))
            et, s = self.seqof(v)
        self.lset(o, z3.simplify(z3.Concat(self.lget(o), s)))
        return NONE

    def m_list_pop(self, o, a, kw):
        from .engine import PyRaise
        s = self.lget(o)
        if a:
            z = z3.simplify(self.coerce(a[0], Int))
            if not (z3.is_int_value(z) and z.as_long() in (0, -1)):
                raise Unsupported("pop(i)")
            if z.as_long() == 0:
                return self.m_list_popleft(o, [], {})
        if not self.branch(z3.Length(s) > 0):
            raise PyRaise("IndexError")
        n = z3.Length(s)
        self.lset(o, z3.SubSeq(s, 0, n - 1))
        return self.wrap(res(o.t).args[0], s[n - 1])

    def m_list_popleft(self, o, a, kw):
        from .engine import PyRaise
        s = self.lget(o)
        if not self.branch(z3.Length(s) > 0):
            raise PyRaise("IndexError")
        self.lset(o, z3.SubSeq(s, 1, z3.Length(s) - 1))
        return self.wrap(res(o.t).args[0], s[0])

    def m_list_copy(self, o, a, kw):
        r = V(res(o.t), self.new_addr())
        self.lset(r, self.lget(o))
        return r

    def m_list_clear(self, o, a, kw):
        s = self.lget(o)
        self.lset(o, z3.Empty(s.sort()))
        return NONE

    def m_list_insert(self, o, a, kw):
        z = z3.simplify(self.coerce(a[0], Int))
        if z3.is_int_value(z) and z.as_long() == 0:
            return self.m_list_appendleft(o, [a[1]], kw)
        raise Unsupported("insert")

    def m_list_index(self, o, a, kw):
        from .engine import PyRaise
        s = self.lget(o)
        x = z3.Unit(self.coerce(a[0], res(o.t).args[0]))
        if not self.branch(z3.Contains(s, x)):
            raise PyRaise("ValueError")
        return vint(z3.IndexOf(s, x, z3.IntVal(0)))

    # sets
    def m_set_add(self, o, a, kw):
        self.sset(o, z3.Store(self.sget(o), self.coerce(a[0], res(o.t).args[0]), z3.BoolVal(True)))
        return NONE

    def setarg(self, o, v):
        t = res(o.t).args[0]
        v = self.force(v)
        if isinstance(v, MRef) and self.m(v).get("isset") is not None and self.m(v)["kind"] == "list":
            s = z3.K(sort(t), z3.BoolVal(False))
            for x in self.m(v)["items"]:
                s = z3.Store(s, self.coerce(x, t), z3.BoolVal(True))
            return s
        if isinstance(v, MRef):
            v = self.m(v).get("v", v)
        if isinstance(v, V) and res(v.t).kind == "set":
            return self.sget(v)
        return self.sget(self.lower_any(self.bi_set([v], {}), Set(t)))

    def lower_any(self, v, t):
        return self.lower(v, t) if isinstance(v, MRef) else v

    def setop(self, o, z):
        r = V(res(o.t), self.new_addr())
        self.sset(r, z)
        return r

    def mapor(self, a, b):
        return z3.Map(z3.Or(z3.Bool("a_"), z3.Bool("b_")).decl(), a, b)

    def mapand(self, a, b):
        return z3.Map(z3.And(z3.Bool("a_"), z3.Bool("b_")).decl(), a, b)

    def mapnot(self, a):
        return z3.Map(z3.Not(z3.Bool("a_")).decl(), a)

    def m_set_union(self, o, a, kw): return self.setop(o, self.mapor(self.sget(o), self.setarg(o, a[0])))
    def m_set_intersection(self, o, a, kw): return self.setop(o, self.mapand(self.sget(o), self.setarg(o, a[0])))
    def m_set_difference(self, o, a, kw): return self.setop(o, self.mapand(self.sget(o), self.mapnot(self.setarg(o, a[0]))))

    def m_set_issubset(self, o, a, kw):
        z = self.sget(o)
        return vbool(self.mapand(z, self.mapnot(self.setarg(o, a[0]))) == z3.K(z.sort().domain(), z3.BoolVal(False)))

    def m_set_update(self, o, a, kw):
        self.sset(o, self.mapor(self.sget(o), self.setarg(o, a[0])))
        return NONE

    def m_set_discard(self, o, a, kw):
        self.sset(o, z3.Store(self.sget(o), self.coerce(a[0], res(o.t).args[0]), z3.BoolVal(False)))
        return NONE

    def m_set_copy(self, o, a, kw): return self.setop(o, self.sget(o))

    # dictionaries
    def m_dict_items(self, o, a, kw): return Marker(k="items", d=o)
    def m_dict_values(self, o, a, kw): return Marker(k="values", d=o)
    def m_dict_keys(self, o, a, kw): return Marker(k="keys", d=o)

    def m_dict_get(self, o, a, kw):
        t = res(o.t)
        if not self.branch(self.contains(o, a[0])):
            return a[1] if len(a) > 1 else NONE
        return self.wrap(t.args[1], z3.simplify(z3.Select(self.dget(o)[2], self.coerce(a[0], t.args[0]))))

    def m_dict_setdefault(self, o, a, kw):
        if not self.branch(self.contains(o, a[0])):
            self.setitem(o, a[0], a[1] if len(a) > 1 else NONE)
        return self.getitem(o, a[0])

    def m_dict_pop(self, o, a, kw):
        from .engine import PyRaise
        if not self.branch(self.contains(o, a[0])):
            if len(a) > 1:
                return a[1]
            raise PyRaise("KeyError")
        v = self.getitem(o, a[0])
        self.delitem(o, a[0])
        return v

    def m_dict_update(self, o, a, kw):
        src = self.force(a[0])
        sm = self.m(src)["v"] if isinstance(src, MRef) and self.m(src)["kind"] == "low" else src
        if isinstance(o, V) and isinstance(sm, V) and res(sm.t).kind == "dict" and mangle(res(sm.t)) == mangle(res(o.t)):
            order, dom, _ = self.dget(o)
            if z3.is_true(z3.simplify(z3.Length(order) == 0)) and z3.is_K(z3.simplify(dom)):
                self.dset(o, list(self.dget(sm)))       # an empty dictionary takes the other one over
                return NONE
        it = self.iterate(Marker(k="items", d=src))
        import types
        n = types.SimpleNamespace(lineno=0, col_offset=1)
        self.for_loop(n, it, lambda p: self.setitem(o, p.items[0], p.items[1]), [])
        return NONE

    # strings
    def sarg(self, v): return self.coerce(self.force(v), Str)

    def m_str_endswith(self, o, a, kw):
        if isinstance(a[0], Tup):
            return vbool(z3.simplify(z3.Or(*[z3.SuffixOf(self.sarg(x), o.z) for x in a[0].items])))
        return vbool(z3.simplify(z3.SuffixOf(self.sarg(a[0]), o.z)))

    def m_str_startswith(self, o, a, kw):
        if isinstance(a[0], Tup):
            return vbool(z3.simplify(z3.Or(*[z3.PrefixOf(self.sarg(x), o.z) for x in a[0].items])))
        return vbool(z3.simplify(z3.PrefixOf(self.sarg(a[0]), o.z)))

    def m_str_format(self, o, a, kw): return self.format(o.z, a, kw)

    def sf(self, name, o, *args):
        zs = [o.z] + [x if z3.is_expr(x) else x.z for x in args]
        return uf(name, *[z.sort() for z in zs], z3.StringSort())(*zs)

    def litfold(self, o, args, f):
        zs = [z3.simplify(o.z)] + [z3.simplify(self.sarg(x)) for x in args]
        if all(is_lit_str(z) for z in zs):
            return f(*[_unescape(z) for z in zs])
        return None

    def m_str_replace(self, o, a, kw):
        r = self.litfold(o, a[:2], lambda s, x, y: s.replace(x, y))
        if r is not None and len(a) == 2:
            return vstr(r)
        if len(a) > 2:
            n = z3.simplify(self.coerce(a[2], Int))
            if z3.is_int_value(n) and n.as_long() == 1:
                return vstr(z3.Replace(o.z, self.sarg(a[0]), self.sarg(a[1])))
            return vstr(self.sf("str_replace_n", o, self.sarg(a[0]), self.sarg(a[1]), n))
        return vstr(self.sf("str_replace_all", o, self.sarg(a[0]), self.sarg(a[1])))

    def strip(self, which, o, a):
        if not a:
            r = self.litfold(o, [], lambda s: getattr(s, which)())
            return vstr(r) if r is not None else vstr(self.sf("str_" + which, o))
        r = self.litfold(o, a, lambda s, c: getattr(s, which)(c))
        return vstr(r) if r is not None else vstr(self.sf("str_%s_c" % which, o, self.sarg(a[0])))

    def m_str_strip(self, o, a, kw): return self.strip("strip", o, a)
    def m_str_rstrip(self, o, a, kw): return self.strip("rstrip", o, a)
    def m_str_lstrip(self, o, a, kw): return self.strip("lstrip", o, a)

    def m_str_decode(self, o, a, kw):
        return vstr(self.sf("decode_" + "_".join(str(self.litkey(x)[0]) for x in a), o))

    def m_str_lower(self, o, a, kw):
        r = self.litfold(o, [], lambda s: s.lower())
        return vstr(r) if r is not None else vstr(self.sf("str_lower", o))

    def m_str_upper(self, o, a, kw): return vstr(self.sf("str_upper", o))
    def m_str_encode(self, o, a, kw):
        enc = "".join(self.litkey(x)[0] for x in a)
        b = Opaque("bytes")
        return V(b, uf("encode_" + enc, z3.StringSort(), sort(b))(o.z))

    def pred(self, name, o):
        r = self.litfold(o, [], lambda s: getattr(s, name)())
        return vbool(r) if r is not None else vbool(uf("str_" + name, z3.StringSort(), z3.BoolSort())(o.z))

    def m_str_isspace(self, o, a, kw): return self.pred("isspace", o)
    def m_str_isalpha(self, o, a, kw): return self.pred("isalpha", o)
    def m_str_isdigit(self, o, a, kw): return self.pred("isdigit", o)
    def m_str_isupper(self, o, a, kw): return self.pred("isupper", o)
    def m_str_isalnum(self, o, a, kw): return self.pred("isalnum", o)
    def m_str_isidentifier(self, o, a, kw): return self.pred("isidentifier", o)

    def strlist(self, z):
        v = V(List(Str), self.new_addr())
        self.lset(v, z)
        return v

    def m_str_split(self, o, a, kw):
        if kw:
            raise Unsupported("split keywords")
        r = self.litfold(o, a[:1], lambda s, *c: s.split(*c)) if len(a) < 2 else None
        if r is not None:
            return self.new_list([vstr(x) for x in r])
        ss = z3.SeqSort(z3.StringSort())
        if not a:
            z = uf("str_split_ws", z3.StringSort(), ss)(o.z)
        elif len(a) == 1:
            z = uf("str_split", z3.StringSort(), z3.StringSort(), ss)(o.z, self.sarg(a[0]))
            self.assume(z3.Length(z) >= 1)
            self.assume(z3.Implies(z3.Not(z3.Contains(o.z, self.sarg(a[0]))), z == z3.Unit(o.z)))
        else:
            z = uf("str_split_n", z3.StringSort(), z3.StringSort(), z3.IntSort(), ss)(o.z, self.sarg(a[0]), self.coerce(a[1], Int))
            self.assume(z3.Length(z) >= 1)
        return self.strlist(z)

    def m_str_splitlines(self, o, a, kw):
        tag = "_keep" if a and z3.is_true(z3.simplify(self.truth(a[0]))) else ""
        return self.strlist(uf("str_splitlines" + tag, z3.StringSort(), z3.SeqSort(z3.StringSort()))(o.z))

    def m_str_join(self, o, a, kw):
        it = self.iterate(a[0])
        if it[0] == "concrete":
            parts = []
            for i, x in enumerate(it[1]):
                if i:
                    parts.append(o.z)
                parts.append(self.sarg(x))
            return vstr(self.cat(parts))
        v = a[0]
        if isinstance(v, Marker):
            v = self.bi_list([v], {})
        t, s = self.seqof(v)
        if res(t).kind != "str":
            v = self.map_seq(v, lambda x: vstr(self.sarg(x)))
            t, s = self.seqof(v)
        return vstr(uf("str_join", z3.StringSort(), s.sort(), z3.StringSort())(o.z, s))

    def m_str_find(self, o, a, kw): return vint(z3.IndexOf(o.z, self.sarg(a[0]), z3.IntVal(0)))
    def m_str_rfind(self, o, a, kw):
        return vint(uf("str_rfind", z3.StringSort(), z3.StringSort(), z3.IntSort())(o.z, self.sarg(a[0])))

    def m_str_count(self, o, a, kw):
        return vint(uf("str_count", z3.StringSort(), z3.StringSort(), z3.IntSort())(o.z, self.sarg(a[0])))

    def m_str_rsplit(self, o, a, kw):
        if kw or len(a) != 2:
            raise Unsupported("rsplit")
        ss = z3.SeqSort(z3.StringSort())
        z = uf("str_rsplit_n", z3.StringSort(), z3.StringSort(), z3.IntSort(), ss)(o.z, self.sarg(a[0]), self.coerce(a[1], Int))
        self.assume(z3.Length(z) >= 1)
        return self.strlist(z)

    def m_seq_index(self, o, a, kw):
        raise Unsupported("index")

"""Relational contracts: the code and the specification function are executed symbolically from the same arbitrary initial
state; every path yields obligations (equal outcome, equal observations, equal event histories)."""
import time
import traceback
import z3
from .terms import *
from .engine import PyRaise, Infeasible, State
from .interp import Exec
from .schema import Schema
from .front import Program
from .prover import Prover


class Contract:
    """name: obligation group; code: what runs the code under verification; spec: qualified name of the specification.
    args: [(name, T)] symbolic arguments (or setup(interp) -> list of values). observe: qualified names of spec functions
    applied to the arguments afterwards (on both sides); logs: event channels compared."""
    def __init__(self, name, code, spec, args=(), setup=None, pre=None, observe=(), logs=(), frame=(), result=True,
                 schema=None, merge_ifs=False, same_exc=True, post=None, opts=None, nopath=False):
        self.__dict__.update(locals())


class Outcome:
    pass


class Obl:
    def __init__(self, contract, what, ok, path, detail="", trivial=False):
        self.contract, self.what, self.ok, self.path, self.detail, self.trivial = contract, what, ok, path, detail, trivial


class Runner:
    def __init__(self, extra=("/verif",), verbose=False):
        self.prog = Program(extra)
        self.prover = Prover()
        self.verbose = verbose
        self.functions, self.trusted = set(), set()
        self.obls, self.unsupported = [], []
        self.paths = 0

    # ------------------------------------------------------------------ running one contract
    def run(self, c, deadline=None):
        t0 = time.time()
        sch = c.schema(self.prog) if c.schema else Schema(self.prog)
        it = Exec(self.prog, sch, self.prover)
        it.merge_ifs = c.merge_ifs
        it.part = (c.opts or {}).get("part")
        it.name_merges, it.merge_names = bool((c.opts or {}).get("name_merges")), {}
        it.dbg = bool(__import__("os").environ.get("DBG"))
        it.deadline = deadline
        mine = []
        count = {"paths": 0}
        st0 = State()
        st0.pc.append((st0.alloc > 0, False))
        self.prover.deadline = deadline

        def path():
            if deadline and time.time() > deadline:
                raise Unsupported("time limit")
            st = it.st
            args = c.setup(it) if c.setup else [self.fresh(it, n, t) for n, t in c.args]
            kw = {}
            if isinstance(args, tuple):
                args, kw = args
            if c.pre:
                for p in ([c.pre] if isinstance(c.pre, str) or callable(c.pre) else c.pre):
                    it.side = "pre"
                    r = p(it, args) if callable(p) else vbool(it.truth(self.callq(it, p, args, kw)))
                    if r is not None:
                        if not it.branch(r.z):
                            raise Infeasible()
            init = it.st.copy()
            code = self.side(it, c, "code", c.code, args, kw)
            fin = it.st
            pc = fin.pc
            ns = init.copy()
            ns.pc, ns.n = pc, fin.n
            ns.frames = fin.frames
            it.st = ns
            spec = self.side(it, c, "spec", c.spec, args, kw)
            count["paths"] += 1
            self.compare(it, c, code, spec, mine)
        try:
            it.explore(path, st0)
            if not count["paths"]:
                raise Unsupported("no feasible path (vacuous)")
        except Unsupported as e:
            self.unsupported.append((c.name, str(e)))
            if self.verbose:
                traceback.print_exc()
            c.status = "unsupported"
        except z3.Z3Exception as e:
            self.unsupported.append((c.name, "z3: " + str(e)))
            if self.verbose:
                traceback.print_exc()
            c.status = "unsupported"
        except (RecursionError, AttributeError, KeyError, IndexError, TypeError, AssertionError, ValueError, NotImplementedError) as e:
            # an error of the verifier itself is never an alarm
            self.unsupported.append((c.name, "internal: %s: %s" % (type(e).__name__, e)))
            if self.verbose:
                traceback.print_exc()
            c.status = "unsupported"
        else:
            c.status = "ok" if all(o.ok for o in mine) else "failed"
        self.obls += mine
        self.paths += count["paths"]
        self.functions |= {q for q in it.inlined if not q.startswith("specs")}
        self.trusted |= it.trusted
        if self.verbose:
            print("%-40s %s paths=%d obligations=%d failed=%d %.1fs" % (c.name, c.status, count["paths"], len(mine),
                                                                      sum(not o.ok for o in mine), time.time() - t0))
        return c.status

    def fresh(self, it, name, t):
        t = res(t)
        if t.kind == "tuple":
            return Tup([self.fresh(it, "%s_%d" % (name, i), a) for i, a in enumerate(t.args)])
        if t.kind == "none":
            return NONE
        v = V(t, z3.Const("in!" + name, sort(t)))
        it.bound(v)
        return v

    def callq(self, it, q, args, kw):
        if callable(q):
            return q(it, args)
        r = self.prog.lookup(q)
        if r is None:
            raise Unsupported("%s not found" % q)
        if r[0] == "class":
            return it.instantiate(r[1], args, kw)
        fi = r[1]
        if fi.cls is not None and not fi.static and not fi.classm:
            return it.call_function(fi, args[1:], kw, selfv=args[0])
        if fi.classm:
            return it.call_function(fi, args, kw, selfv=Marker(k="class", info=fi.cls))
        return it.call_function(fi, args, kw)

    def side(self, it, c, side, q, args, kw):
        it.side = side
        o = Outcome()
        o.exc = None
        o.ret = None
        nf = len(it.st.frames)
        try:
            v = self.callq(it, q, args, kw)
            o.kind = "return"
            if c.result:
                o.ret = self.snap(it, v)
        except PyRaise as e:
            o.kind, o.exc = "raise", e.cls
            del it.st.frames[nf:]
            v = NONE
        o.obs = []
        for ob in c.observe:
            try:
                o.obs.append(self.snap(it, self.callq(it, ob, args + ([v] if c.nopath else []), kw)))
            except PyRaise as e:
                del it.st.frames[nf:]
                o.obs.append(("exc", e.cls))
        o.heap = {}
        for key in c.frame:
            o.heap[key] = it.st.heap.get(key)
        o.logs = {ch: it.getlog(ch) for ch in c.logs}
        return o

    # ------------------------------------------------------------------ observations as terms
    def snap(self, it, v):
        if isinstance(v, MRef) and it.m(v)["kind"] == "low":
            v = it.m(v)["v"]
        if isinstance(v, Tup):
            return ("tup", [self.snap(it, x) for x in v.items])
        if isinstance(v, MRef):
            m = it.m(v)
            if m["kind"] == "list" and not m.get("isset"):
                return ("items", [self.snap(it, x) for x in m["items"]])
            if m["kind"] == "list":
                v = it.lower(v)
                return self.snap(it, v)
            if m["kind"] == "dict":
                return ("rec", {k: self.snap(it, x) for k, x in m["pairs"].items()})
            if m["kind"] == "obj":
                return ("t", it.typeof(v), it.freeze(v))
            raise Unsupported("observation of %r" % m["kind"])
        if isinstance(v, Marker):
            if v.k in ("class", "func"):
                return ("lit", v.info.qual)
            if v.k == "ext":
                return ("lit", v.path)
            if v.k == "excinst":
                return ("exc", v.cls)
            r = it.bi_list([v], {})
            return self.snap(it, r)
        t = res(v.t)
        if t.kind == "list":
            s = it.lget(v)
            if s is None:
                return ("items", [])
            et = res(t.args[0])
            if et.kind in ("list", "set", "dict"):
                raise Unsupported("nested containers in an observation")
            return ("seq", et, s)
        if t.kind == "seq":
            return ("seq", res(t.args[0]), v.z)
        if t.kind == "set":
            return ("set", res(t.args[0]), it.sget(v))
        if t.kind == "dict":
            return ("dict", t, it.dget(v))
        if t.kind == "none":
            return ("none",)
        return ("t", t, v.z)

    def equal(self, it, a, b):
        """list of (what, goal)"""
        if a[0] == "none" and b[0] == "none":
            return [("", z3.BoolVal(True))]
        if a[0] in ("exc", "lit") or b[0] in ("exc", "lit"):
            return [("", z3.BoolVal(a == b))]
        if a[0] == "tup" and b[0] == "tup":
            if len(a[1]) != len(b[1]):
                return [("", z3.BoolVal(False))]
            return [("[%d]%s" % (i, w), g) for i, (x, y) in enumerate(zip(a[1], b[1])) for w, g in self.equal(it, x, y)]
        if a[0] == "rec" and b[0] == "rec":
            if set(a[1]) != set(b[1]):
                return [("keys", z3.BoolVal(False))]
            return [("[%r]%s" % (k, w), g) for k in a[1] for w, g in self.equal(it, a[1][k], b[1][k])]
        if a[0] in ("items", "seq") and b[0] in ("items", "seq"):
            if a[0] == b[0] == "items":
                if len(a[1]) != len(b[1]):
                    return [("", z3.BoolVal(False))]
                return [("[%d]%s" % (i, w), g) for i, (x, y) in enumerate(zip(a[1], b[1])) for w, g in self.equal(it, x, y)]
            if a[0] == "items":
                a, b = b, a
            if b[0] == "items":
                if not b[1]:
                    return [("", z3.Length(a[2]) == 0)]
                zs = [self.term(it, x, a[1]) for x in b[1]]
                return [("", a[2] == it.mkseq(zs, sort(a[1])))]
            if a[2].sort() != b[2].sort():
                raise Unsupported("observed lists of different types %r %r" % (a[1], b[1]))
            return [("", a[2] == b[2])]
        if a[0] == "set" and b[0] == "set":
            return [("", a[2] == b[2])]
        if a[0] == "dict" and b[0] == "dict":
            if mangle(a[1]) != mangle(b[1]):
                raise Unsupported("observed dictionaries of different types %r %r" % (a[1], b[1]))
            x, y = a[2], b[2]
            k = z3.Const("deq_k", x[1].sort().domain())
            return [("keys", x[1] == y[1]), ("order", x[0] == y[0]),
                    ("values", z3.Or(x[2] == y[2], z3.ForAll([k], z3.Implies(z3.Select(x[1], k), z3.Select(x[2], k) == z3.Select(y[2], k)))))]
        if a[0] in ("rec",) or b[0] in ("rec",):
            if a[0] != "rec":
                a, b = b, a
            if b[0] == "dict" and not a[1]:
                return [("", z3.Length(b[2][0]) == 0)]
            if b[0] == "t" and b[1].kind == "none":
                return [("", z3.BoolVal(False))]
            raise Unsupported("record compared with %r" % (b[0],))
        if a[0] in ("items", "seq", "set", "dict", "tup") and b[0] == "none" or b[0] in ("items", "seq", "set", "dict", "tup") and a[0] == "none":
            return [("", z3.BoolVal(False))]

        def val(s):
            return NONE if s[0] == "none" else Tup([val(x) for x in s[1]]) if s[0] == "tup" else V(s[1], s[2])
        if a[0] in ("t", "none", "tup") and b[0] in ("t", "none", "tup"):
            return [("", it.eq(val(a), val(b)))]
        raise Unsupported("observations %s and %s" % (a[0], b[0]))

    def term(self, it, s, t):
        if s[0] == "tup":
            return sort(t).mk(*[self.term(it, x, a) for x, a in zip(s[1], t.args)])
        if s[0] == "none":
            return it.coerce(NONE, t)
        if s[0] == "t":
            return it.coerce(V(s[1], s[2]), t)
        raise Unsupported("observation")

    def compare(self, it, c, a, b, mine):
        goals = []
        desc = "path[%s]" % "; ".join(str(z).replace("\n", " ")[:160] for z, d in it.st.pc if d)[-1500:]
        if a.kind != b.kind or (c.same_exc and a.exc != b.exc):
            goals.append(("outcome (%s %s; specified: %s %s)" % (a.kind, a.exc or "", b.kind, b.exc or ""), z3.BoolVal(False)))
        else:
            if a.kind == "return" and c.result:
                goals += [("result" + w, g) for w, g in self.equal(it, a.ret, b.ret)]
        for i, (x, y) in enumerate(zip(a.obs, b.obs)):
            n = c.observe[i] if isinstance(c.observe[i], str) else c.observe[i].__name__
            goals += [("state " + n.split(".")[-1] + w, g) for w, g in self.equal(it, x, y)]
        for key in c.frame:
            x, y = a.heap[key], b.heap[key]
            if x is None and y is None:
                continue
            r = (x if x is not None else y).sort().range()
            x = it.h0(key, r) if x is None else x
            y = it.h0(key, r) if y is None else y
            goals.append(("heap %s" % (key,), x == y))
        for ch in c.logs:
            goals.append(("history of " + ch, a.logs[ch] == b.logs[ch]))
        hyps = it.pcs()
        for what, g in goals:
            g = z3.simplify(g)
            triv = z3.is_true(g)
            t1 = time.time()
            ok = triv or self.prover.prove(hyps, g)
            if self.verbose and time.time() - t1 > 2:
                print("  %s %s: %.1fs %s" % (c.name, what, time.time() - t1, ok), flush=True)
            if not ok and self.prover.check(hyps) == "unsat":
                return               # infeasible path
            det = ""
            if not ok:
                det = "goal: %s\nsolver: %s\n" % (str(g)[:3000], getattr(self.prover, "last", "false"))
                if self.verbose:
                    print("FAILED", c.name, what, desc[:600])
                    print("   ", str(g)[:2500])
            mine.append(Obl(c.name, what, ok, desc, det, triv))
            if not ok and sum(not o.ok for o in mine) > 5:
                raise Infeasible()

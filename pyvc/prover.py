"""Discharging obligations with z3 (cvc5 as a second back end); equality of loop summaries by induction (pointwise lemma)."""
import itertools
import subprocess
import time
import z3
from .terms import Unsupported

_fs_cache = {}


_keep = []


def subterms(t, seen=None):
    """All subterms."""
    seen = {} if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            stack.extend(x.children())
    return seen


def free_syms(t):
    """ids -> consts of the local symbols (names containing '!') of a term."""
    i = t.get_id()
    if i not in _fs_cache:
        _keep.append(t)
        _fs_cache[i] = {k: x for k, x in subterms(t).items()
                        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name()
                        and not x.decl().name().startswith("F!")}
    return _fs_cache[i]


def subst(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


class Comp:
    def __init__(self, key, sym, entry, upd):
        self.key, self.sym, self.entry, self.upd = key, sym, entry, upd


class Desc:
    """A loop (or sort) summary: a function of its parameters with a defining recursion."""
    def __init__(self, name, op, out, base, x, comps, target, exit, facts, side, pieces=None, res=None):
        self.name, self.op, self.out, self.base, self.x, self.comps = name, op, out, base, x, comps
        self.target, self.exit, self.facts, self.side, self.pieces = target, exit, facts, side, pieces
        bound = {c.sym.get_id() for c in comps}
        if x is not None:
            bound.add(x.get_id())
        ps = {}
        for t in ([base] if base is not None else []) + [c.entry for c in comps] + [c.upd for c in comps] + \
                ([exit] if exit is not None else []) + facts + ([res] if res is not None else []):
            for k, s in free_syms(t).items():
                if k not in bound:
                    ps[k] = s
        self.res = res
        self.params = [ps[k] for k in sorted(ps, key=lambda k: ps[k].decl().name())]


QUICK = 200000
HYPDEPTH = 1


class Prover:
    def __init__(self, rlimit=6000000, timeout=20000):
        self.descs = {}
        self.rlimit, self.timeout = rlimit, timeout
        self.fcache, self.pcache, self.lcache = {}, {}, {}
        self.acache = {}
        self.tries = {}
        self.relcache = {}
        self.stats = {"z3_queries": 0, "z3_s": 0.0, "lemmas": 0, "cvc5_queries": 0, "cvc5_s": 0.0}
        self.hold = []
        self.dkeys = {}
        self.qcache = {}
        self.qlog = []
        self.last_model = None
        self.trace = False
        self.deadline = None

    # -------------------------------------------------------------- summaries
    def mk(self, desc, rng):
        i = lambda t: None if t is None else t.get_id()
        key = (desc.name, i(desc.base), i(desc.x), tuple((i(c.sym), i(c.entry), i(c.upd)) for c in desc.comps), desc.target,
               i(desc.exit), tuple(sorted(i(f) for f in desc.facts)), i(desc.res), str(rng))
        if key in self.dkeys:
            desc.name = self.dkeys[key]
        else:
            self.hold.append(desc)
            k = 0
            n = desc.name
            while n in self.descs:
                k += 1
                n = "%s~%d" % (desc.name, k)
            self.dkeys[key] = desc.name = n
        f = z3.Function(desc.name, *[p.sort() for p in desc.params], rng) if desc.params else None
        self.descs[desc.name] = desc
        return f(*desc.params) if f is not None else z3.Const(desc.name, rng)

    def desc_of(self, app):
        return self.descs.get(app.decl().name()) if z3.is_app(app) else None

    def apps(self, terms):
        out = {}
        for t in terms:
            i = t.get_id()
            if i not in self.acache:
                self.hold.append(t)
                self.acache[i] = [(x.get_id(), x) for x in subterms(t).values() if z3.is_app(x)
                                  and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.descs]
            for k, x in self.acache[i]:
                out[k] = x
        return list(out.values())

    # -------------------------------------------------------------- solving
    def check(self, fs, rlimit=None):
        key = tuple(sorted(f.get_id() for f in fs))
        lim = rlimit or self.rlimit
        if key in self.fcache:
            out, l = self.fcache[key]
            if out != "unknown" or l >= lim:
                return out
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit")
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.set("auto_config", False)
        s.set("mbqi", False)
        s.set("rlimit", rlimit or self.rlimit)
        s.add(*fs)
        t0 = time.time()
        r = s.check()
        self.stats["z3_queries"] += 1
        self.stats["z3_s"] += time.time() - t0
        if self.trace and time.time() - t0 > 1:
            print("  slow query %.1fs %s" % (time.time() - t0, r))
        self.hold.append(fs)
        out = str(r)
        if self.trace:
            self.qlog.append((time.time() - t0, out, fs))
        if out == "sat":
            self.last_model = s.model()
        self.fcache[key] = out, lim
        return out

    def feasible(self, pcs, c):
        fs = [f for f in pcs if not self.quantified(f)] + [c]
        return self.check(fs, rlimit=25000) != "unsat"

    def quantified(self, f):
        i = f.get_id()
        if i not in self.qcache:
            self.hold.append(f)
            self.qcache[i] = any(z3.is_quantifier(t) for t in subterms(f).values())
        return self.qcache[i]

    def cvc5(self, fs, secs=20):
        s = z3.Solver()
        s.add(*fs)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        t0 = time.time()
        try:
            p = subprocess.run(["cvc5", "--strings-exp", "--tlimit=%d" % (secs * 1000), "-q"], input=txt, capture_output=True,
                               text=True, timeout=secs + 10)
            r = p.stdout.strip().split("\n")[0]
        except Exception:
            r = "unknown"
        self.stats["cvc5_queries"] += 1
        self.stats["cvc5_s"] += time.time() - t0
        return r

    def prove(self, hyps, goal, depth=0, second=True):
        """True iff the obligation is discharged. self.last holds 'sat'/'unknown' otherwise."""
        if depth == 0:
            self.tries = {}
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_and(goal):
            return all(self.prove(hyps, g, depth, second) for g in goal.children())
        key = (tuple(sorted({h.get_id() for h in hyps})), goal.get_id())
        if key in self.pcache:
            return self.pcache[key]
        self.hold.append((list(hyps), goal))
        ok = self._prove(list(hyps), goal, depth, second)
        self.pcache[key] = ok
        return ok

    def _prove(self, hyps, goal, depth, second):
        neg = z3.Not(goal)
        full = self.rlimit if depth == 0 else self.rlimit // 4
        r = self.check(hyps + [neg], rlimit=QUICK)
        if r == "unsat":
            self.backend = "z3"
            return True
        self.last = r
        if depth > 5:
            return self.check(hyps + [neg], rlimit=full) == "unsat"
        if depth == 0:
            hyps = hyps + self.saturate(hyps, goal)
            if self.check(hyps + [neg], rlimit=QUICK) == "unsat":
                self.backend = "z3"
                return True
        gapps = self.apps([goal])
        happs = self.apps(hyps)
        ids = {a.get_id() for a in gapps}
        allapps = gapps + [a for a in happs if a.get_id() not in ids]
        pairs = []
        for i, a in enumerate(allapps):
            for b in allapps[i + 1:]:
                da, db = self.desc_of(a), self.desc_of(b)
                if a.sort() == b.sort() and da.op == db.op and da.out == db.out:
                    pr = (0 if da.side != db.side else 1) + (0 if (a.get_id() in ids and b.get_id() in ids) else 2)
                    pairs.append((pr, a, b))
        pairs.sort(key=lambda p: p[0])
        eqs = []
        n = 0
        mid = False
        for pr, a, b in pairs[:80]:
            if pr >= 2 and not mid:
                mid = True
                if n and self.check(hyps + eqs + [neg], rlimit=QUICK) == "unsat":
                    self.backend = "z3"
                    return True
            if pr >= 2 and depth > HYPDEPTH:
                break
            if self.lemma(hyps + eqs, a, b, depth + 1):
                eqs.append(a == b)
                n += 1
                if pr == 0 or n % 4 == 0:
                    if self.check(hyps + eqs + [neg], rlimit=QUICK) == "unsat":
                        self.backend = "z3"
                        return True
        self.last = r = self.check(hyps + eqs + [neg], rlimit=full)
        if r == "unsat":
            self.backend = "z3"
            return True
        if second and depth == 0 and self.last == "unknown":
            if self.cvc5(hyps + eqs + [neg]) == "unsat":
                self.backend = "cvc5"
                return True
        return False

    def saturate(self, hyps, goal):
        """Equalities of the loop results the goal is built from, innermost first: those a loop starts from before the loop itself."""
        order, seen = [], set()

        def visit(t, bound=()):
            for a in self.apps([t]):
                if a.get_id() in seen or bound and not bound.isdisjoint(subterms(a)):
                    continue
                seen.add(a.get_id())
                d, i = self.inst(a)
                for c in d.comps:
                    visit(i(c.entry))
                if d.base is not None:
                    visit(i(d.base))
                bs = {c.sym.get_id() for c in d.comps} | ({d.x.get_id()} if d.x is not None else set())
                for t in [c.upd for c in d.comps] + [z for z in (d.exit, d.res) if z is not None]:
                    visit(i(t), bs)
                order.append(a)
        for t in [goal] + hyps:
            visit(t)
        known = [h for h in hyps if not self.apps([h])]
        eqs = []
        for n, b in enumerate(order):
            db = self.desc_of(b)
            for a in order[:n]:
                da = self.desc_of(a)
                if da.side != db.side and a.sort() == b.sort() and da.op == db.op and da.out == db.out:
                    if self.lemma(known + eqs, a, b, 1):
                        eqs.append(a == b)
                        break
        return eqs

    # -------------------------------------------------------------- induction lemma
    def inst(self, app):
        d = self.desc_of(app)
        pairs = list(zip(d.params, app.children()))
        return d, lambda t: subst(t, pairs)

    def lemma(self, hyps, a, b, depth):
        """app a == app b by induction over the loop: equal base, equal entry values, equal bodies for arbitrary state."""
        sa, sb = self.desc_of(a).side, self.desc_of(b).side
        if (sb, b.decl().name(), b.get_id()) < (sa, a.decl().name(), a.get_id()):
            a, b = b, a
        key = (a.get_id(), b.get_id())
        hs = frozenset(h.get_id() for h in hyps)
        good, bad = self.lcache.setdefault(key, ([], []))
        if any(g <= hs for g in good):
            return True
        if any(hs <= g for g in bad) or self.tries.get((key, depth), 0) >= 2:
            return False
        self.hold.append((a, b, list(hyps)))
        r = self._lemma(hyps, a, b, depth)
        (good if r else bad).append(hs)
        if r:
            self.stats["lemmas"] += 1
        else:
            self.tries[key, depth] = self.tries.get((key, depth), 0) + 1
        return r

    def _lemma(self, hyps, a, b, depth):
        da, ia = self.inst(a)
        db, ib = self.inst(b)
        if a.decl().eq(b.decl()):
            return self.prove(hyps, z3.And(*[x == y for x, y in zip(a.children(), b.children())]), depth, False)
        if (da.base is None) != (db.base is None):
            return False
        if (da.exit is None) != (db.exit is None):
            return False
        if da.base is not None:
            if da.base.sort() != db.base.sort() or not self.prove(hyps, ia(da.base) == ib(db.base), depth, False):
                return False
        ra, rb = self.relevant(da), self.relevant(db)
        if len(ra) != len(rb):
            if self.trace:
                print("  lemma %s ~ %s: %s against %s" % (da.name, db.name, [da.comps[i].key for i in ra], [db.comps[i].key for i in rb]))
            return False
        fixed = {}
        if da.target is not None:
            fixed[da.target] = db.target
        # heap fields and histories have the same names on both sides
        kb = {db.comps[j].key: j for j in rb if db.comps[j].key and db.comps[j].key[0] in ("heap", "log", "alloc")}
        for i in ra:
            j = kb.get(da.comps[i].key)
            if i not in fixed and j is not None and j not in fixed.values():
                fixed[i] = j
        others_a = [i for i in ra if i not in fixed]
        others_b = [j for j in rb if j not in fixed.values()]
        cands = []
        for perm in itertools.permutations(others_b):
            m = dict(fixed)
            m.update(zip(others_a, perm))
            if all(da.comps[i].sym.sort() == db.comps[j].sym.sort() for i, j in m.items()):
                score = sum(1 for i, j in m.items() if da.comps[i].key != db.comps[j].key)
                cands.append((score, sorted(m.items())))
            if len(cands) > 200:
                break
        cands.sort(key=lambda c: c[0])
        for _, m in cands[:6]:
            if self._pointwise(hyps, da, ia, db, ib, m, depth):
                return True
        return False

    def relevant(self, d):
        """the components the result of the loop depends on"""
        if d.name not in self.relcache:
            ids = {c.sym.get_id(): i for i, c in enumerate(d.comps)}
            rel, todo = set(), []
            if d.target is not None:
                rel.add(d.target)
                todo.append(d.comps[d.target].upd)
            todo += [z for z in (d.exit, d.res) if z is not None]
            while todo:
                for t in subterms(todo.pop()):
                    i = ids.get(t)
                    if i is not None and i not in rel:
                        rel.add(i)
                        todo.append(d.comps[i].upd)
            self.relcache[d.name] = sorted(rel)
        return self.relcache[d.name]

    def why(self, da, db, what, x, y):
        if self.trace:
            print("  lemma %s ~ %s fails at %s\n     L %s\n     R %s" % (
                da.name, db.name, what, str(z3.simplify(x)).replace("\n", " ")[:6000], str(z3.simplify(y)).replace("\n", " ")[:1500]))

    def _pointwise(self, hyps, da, ia, db, ib, m, depth):
        for i, j in m:
            if not self.prove(hyps, ia(da.comps[i].entry) == ib(db.comps[j].entry), depth, False):
                self.why(da, db, "entry of %s / %s" % (da.comps[i].key, db.comps[j].key), ia(da.comps[i].entry), ib(db.comps[j].entry))
                return False
        # unify the bound symbols: b's are replaced by a's (fresh copies so nested instances do not clash)
        tag = "~%d" % depth
        pa, pb = [], []
        if da.x is not None:
            c = z3.Const(da.x.decl().name() + tag, da.x.sort())
            pa.append((da.x, c))
            pb.append((db.x, c))
        for i, j in m:
            c = z3.Const(da.comps[i].sym.decl().name() + tag, da.comps[i].sym.sort())
            pa.append((da.comps[i].sym, c))
            pb.append((db.comps[j].sym, c))
        # what the result does not depend on stays arbitrary, separately on the two sides
        for d, p, used in ((da, pa, [i for i, j in m]), (db, pb, [j for i, j in m])):
            for i, c in enumerate(d.comps):
                if i not in used:
                    p.append((c.sym, z3.Const(c.sym.decl().name() + tag + ("a" if d is da and p is pa else "b"), c.sym.sort())))
        fa, fb = (lambda t: ia(subst(t, pa))), (lambda t: ib(subst(t, pb)))
        h = hyps + [fa(f) for f in da.facts] + [fb(f) for f in db.facts]
        if da.exit is not None:
            ea, eb = fa(da.exit), fb(db.exit)
            if not self.prove(h, ea == eb, depth, False):
                return False
            h = h + [z3.Not(ea)]
        if da.res is not None:
            if not self.prove(h, fa(da.res) == fb(db.res), depth, False):
                return False
        for i, j in m:
            if not self.prove(h, fa(da.comps[i].upd) == fb(db.comps[j].upd), depth, False):
                self.why(da, db, "update of %s / %s" % (da.comps[i].key, db.comps[j].key), fa(da.comps[i].upd), fb(db.comps[j].upd))
                return False
        return True

import itertools
from .common import *

MOD = "diffkemp.llvm_ir.llvm_module.LlvmModule"
PARAM = "diffkemp.llvm_ir.llvm_module.LlvmParam"
SNAP = "diffkemp.snapshot.Snapshot"
CONF = "diffkemp.config.Config"
CACHE = "diffkemp.semdiff.caching.SimpLLCache"
TREE = "diffkemp.llvm_ir.source_tree.SourceTree"
NOTFOUND = "diffkemp.llvm_ir.source_tree.SourceNotFoundException"
FAIL = "diffkemp.simpll.simpll.SimpLLException"
FD = "diffkemp.semdiff.function_diff"


def not_none(it, base, x):
    """entries of the engine's lists are records"""
    if x.sort() == sort(Y):
        it.st.pc.append((x != z3.Const("y_none", sort(Y)), False))


def schema(prog):
    s = graph_schema(prog)
    s.cls(RES, kind=KIND, first=Val(ENTITY), second=Val(ENTITY), diff=Opt(Str), macro_diff=Opt(Opaque("MacroDiff")),
          graph=Opt(Ref(CG)), inner=Dict(Str, Ref(RES)), start_time=Opt(Real), stop_time=Opt(Real))
    s.cls(MOD, llvm=Str)
    s.cls(PARAM, name=Str)
    s.cls(TREE, source_dir=Str)
    s.cls(SNAP, created_time=Opt(Opaque("Time")), snapshot_tree=Ref(TREE), source_tree=Opt(Ref(TREE)))
    s.cls(CONF, verbosity=Int, full_diff=Bool, semdiff_tool=Opt(Str), snapshot_first=Ref(SNAP), snapshot_second=Ref(SNAP))
    s.cls(CACHE, directory=Str)
    s.stubs["Time.timestamp"] = ext("timestamp", Real, pure=True)

    def touch(name, ret=None, llvm=True):
        """an operation on a module: recorded; the module's file afterwards depends on everything done so far"""
        e = ext(name, ret, ch="mod")

        def f(it, args, kw):
            r = e(it, args, kw)
            if llvm:
                it.setattr(args[0], "llvm", V(Str, uf("llvm_after", z3.IntSort(), it.getlog("mod").sort(), z3.StringSort())(args[0].z, it.getlog("mod"))))
            return r
        return f
    s.models[MOD + ".link_modules"] = touch("link_modules", Bool)
    s.models[MOD + ".restore_unlinked_llvm"] = touch("restore")
    s.models[MOD + ".clean_module"] = touch("clean", llvm=False)
    s.models[TREE + ".get_module_for_symbol"] = ext("find_module", Opt(Ref(MOD)), ch="mod", raises=(NOTFOUND,))
    s.truthy |= {MOD, PARAM, CACHE}
    s.y_total |= {"first", "second"}
    s.elem_facts.append(not_none)

    def engine(it, args, kw):
        gives = ext("engine", Tuple(Str, Str), ch="mod", raises=(FAIL, "ValueError"),
                    names=("first", "second", "fun_first", "fun_second", "var", "config", "suffix", "cache_dir", "module_cache", "modules_to_cache"))
        files = gives(it, args, kw)
        h = it.getlog("mod")
        g = it.wrap(Ref(CG), uf("engine_graph", h.sort(), z3.IntSort())(h))
        m = it.wrap(Opt(Seq(Y)), uf("engine_missing", h.sort(), sort(Opt(Seq(Y))))(h))
        return Tup(list(it.unpack(files, 2)) + [g, m])
    s.models["diffkemp.simpll.simpll.run_simpll"] = engine

    def absorb(it, args, kw):
        it.log("mod", "absorb", args[0].z, args[1].z)
        h = it.getlog("mod")
        d = it.getattr(args[0], "vertices")
        it.dset(d, [uf("absorbed%d" % i, h.sort(), z.sort())(h) for i, z in enumerate(it.dget(d))])
        return NONE
    s.models[CG + ".absorb_graph"] = absorb
    s.models[CACHE + ".update"] = ext("cache_update", None, ch="mod")

    def pairs(it, args, kw):
        h = it.getlog("mod")
        zs = [args[0].z, args[1].z, args[2].z, args[3].z, h]
        so = [z.sort() for z in zs]
        t = Tuple(Val(ENTITY), Val(ENTITY), KIND)
        l = V(List(t), it.new_addr())
        it.lset(l, uf("pairs", *(so + [z3.SeqSort(sort(t))]))(*zs))
        out = [l]
        for n in ("lb", "rb"):
            t = Opaque("Bodies")
            out.append(V(t, uf("pairs_" + n, *(so + [sort(t)]))(*zs)))
        return Tup(out)
    s.models[CG + ".graph_to_fun_pair_list"] = pairs
    # every pair shown by its body has a body on both sides (C02)
    body = ext("body", Opt(Str), pure=True)
    s.stubs["getitem:Bodies"] = lambda it, o, k: body(it, [o, k], {})
    s.models["diffkemp.syndiff.function_syntax_diff.syntax_diff"] = ext("syntax_diff", Str, ch="mod", raises=("ValueError",))

    def semdiff(it, args, kw):
        k = ext("semdiff", KIND, ch="mod")(it, args, kw)
        return it.callq(RES, [k, args[2], args[3]]) if hasattr(it, "callq") else it.instantiate(it.prog.lookup(RES)[1], [k, args[2], args[3]], {})
    s.models[FD + ".functions_semdiff"] = semdiff
    return s


def driver(prog):
    s = schema(prog)
    s.models[FD + "._link_symbol_def"] = s.stubs["link"] = ext("link_def", Bool, ch="mod")
    return s


def case(*present):
    """with or without a variable, results of an earlier comparison, a cache"""
    def pre(it, args):
        from pyvc.engine import Infeasible
        for i, p in zip((4, 6, 7), present):
            if it.branch(it.truth(args[i])) != p:
                raise Infeasible()
    return pre


ARGS = [("mod_first", Ref(MOD)), ("mod_second", Ref(MOD)), ("fun_first", Str), ("fun_second", Str), ("glob_var", Opt(Ref(PARAM))), ("config", Ref(CONF)),
        ("prev_result_graph", Opt(Ref(CG))), ("function_cache", Opt(Ref(CACHE))), ("module_cache", Opt(Opaque("ModuleCache"))), ("modules_to_cache", Opt(Opaque("Preload")))]


def contracts():
    return [
        Contract("_link_symbol_def", FD + "._link_symbol_def", "specs.c08.link", [("snapshot", Ref(SNAP)), ("module", Ref(MOD)), ("symbol", Str)],
                 logs=["mod"], schema=schema),
    ] + [
        Contract("functions_diff (%svariable, %sprevious results, %scache)" % tuple("" if x else "no " for x in p), FD + ".functions_diff", "specs.c08.compare", ARGS,
                 pre=case(*p), observe=["specs.c08.verdict", "specs.c08.parts"], logs=["mod"], result=False, schema=driver, merge_ifs=True, nopath=True)
        for p in itertools.product((False, True), repeat=3)
    ]

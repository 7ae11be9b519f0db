from .snap import *

D = "diffkemp.diffkemp."
CONF = "diffkemp.config.Config"
CACHE = "diffkemp.semdiff.caching.SimpLLCache"
PARAM = "diffkemp.llvm_ir.llvm_module.LlvmParam"
YAML = "diffkemp.output.YamlOutput"
ARGS = "specs.c09.Args"


def schema(prog):
    s = file_system(snap_schema(prog))
    s.cls(CONF, snapshot_first=Ref(SNAP), snapshot_second=Ref(SNAP), full_diff=Bool, show_diff=Bool)
    s.cls(ARGS, stdout=Bool, output_dir=Opt(Str), snapshot_dir_old=Str, snapshot_dir_new=Str, enable_module_cache=Bool, regex_filter=Opt(Str),
          report_stat=Bool, extended_stat=Bool, show_errors=Bool)
    del s.classes[RES]
    s.cls(RES, kind=KIND, first=Val(ENTITY), second=Val(ENTITY), diff=Opt(Str), macro_diff=Opt(Opaque("MacroDiff")), graph=Opt(Opaque("Graph")),
          inner=Dict(Str, Ref(RES)), start_time=Opt(Real), stop_time=Opt(Real))
    s.val(PARAM, ("name", Str))
    s.cls(CACHE)
    s.cls(YAML)
    s.truthy |= {CONF, CACHE}
    nothing = lambda it, a, kw: NONE

    def leave(it, args, kw):
        from pyvc.engine import PyRaise
        raise PyRaise("SystemExit")
    s.stubs["sys.exit"] = leave
    s.stubs["tempfile.mkdtemp"] = ext("mkdtemp", Str, ch="tmp")
    s.stubs["timeit.default_timer"] = ext("clock", Real, ch="clock")
    s.stubs["re.compile"] = ext("re_compile", Opaque("Pattern"), pure=True)
    s.stubs["Pattern.search"] = ext("re_search", Bool, pure=True)
    s.models[CONF + ".from_args"] = lambda it, a, kw: it.wrap(Ref(CONF), z3.Int("configuration"))
    s.models[CACHE + ".__init__"] = nothing
    s.models[MOD + ".clean_module"] = s.models[MOD + ".clean_all"] = s.models[SNAP + ".finalize"] = nothing
    s.models[D + "default_output_dir"] = ext("default_output_dir", Str, reads=("fs",), pure=True)
    s.models[D + "_get_modules_to_cache"] = lambda it, a, kw: ext("preload", Set(Str), pure=True)(it, [a[1], a[3]], kw)
    s.models[YAML + ".__init__"] = nothing
    s.models[YAML + ".save"] = ext("save_yaml", None, ch="fs", names=("self", "output_dir", "file_name"))
    s.models[RES + ".report_stat"] = lambda it, a, kw: (it.log("out", "statistics", *[it.coerce(x, Bool) for x in a[1:]]), NONE)[1]

    def diff(it, args, kw):
        assert not args
        g = kw["prev_result_graph"]
        it.log("cmp", "functions_diff", it.coerce(kw["mod_first"], Ref(MOD)), it.coerce(kw["mod_second"], Ref(MOD)), it.coerce(kw["fun_first"], Str),
               it.coerce(kw["fun_second"], Str), it.coerce(kw["glob_var"], Opt(Val(PARAM))))
        h = it.getlog("cmp")
        return it.wrap(Ref(RES), uf("result_of", h.sort(), z3.IntSort())(h))
    s.models["diffkemp.semdiff.function_diff.functions_diff"] = diff

    def verdict(it, args, kw):
        r = args[1]
        n = [it.getattr(it.getattr(r, x), "name") for x in ("first", "second")]
        it.log("cmp", "verdict", it.coerce(it.getattr(r, "kind"), KIND), *[it.coerce(x, Str) for x in n])
        return NONE
    s.models[RES + ".add_inner"] = verdict

    def show(it, args, kw):
        assert not args
        r = kw["fun_result"]
        it.log("out", "show", *[it.coerce(kw[k], t) for k, t in (("snapshot_dir_old", Str), ("snapshot_dir_new", Str), ("fun", Str), ("fun_tag", Opt(Str)),
               ("output_dir", Opt(Str)), ("show_diff", Bool), ("full_diff", Bool), ("initial_indent", Int))], it.coerce(r, Ref(RES)))
        return NONE
    s.models[D + "print_syntax_diff"] = show
    return s


def printing(prog):
    s = file_system(snap_schema(prog))
    del s.classes[RES]
    s.cls(RES, kind=KIND, first=Val(ENTITY), second=Val(ENTITY), diff=Str, macro_diff=Opt(Seq(Opaque("MacroDiff"))), graph=Opt(Opaque("Graph")),
          inner=Dict(Str, Ref(RES)), start_time=Opt(Real), stop_time=Opt(Real))
    s.models[CALLSTACK + ".as_str_with_rel_paths"] = ext("stack_text", Str, pure=True)
    s.stubs["open"] = opener(raises=("OSError",))
    s.stubs["sys.stdout.write"] = ext("write_out", None, ch="out")
    s.stubs["str:MacroDiff"] = ext("macro_text", Str, pure=True)
    return s


def terminal(prog):
    """the indentation itself is proved where the output goes to a file"""
    s = printing(prog)
    s.models[D + "print_syntax_diff.<locals>.text_indent"] = s.models["specs.c09.indented"] = ext("indented", Str, pure=True)
    return s


def into(file):
    def pre(it, args):
        from pyvc.engine import Infeasible
        if it.branch(it.truth(args[5])) != file:
            raise Infeasible()
    return pre


def to(kind):
    """where differences go: standard output, a named directory, one named after the snapshots; with or without regular expression filter"""
    def pre(it, args):
        from pyvc.engine import Infeasible
        for n, p in (("stdout", kind == "stdout"), ("output_dir", kind == "given")):
            if n == "output_dir" and kind == "stdout":
                continue
            if it.branch(it.truth(it.getattr(args[0], n))) != p:
                raise Infeasible()
    return pre


def contracts():
    return [Contract("compare (output to %s)" % n, D + "compare", "specs.c09.run", [("args", Ref(ARGS))], pre=to(k), logs=["cmp", "out", "fs"], schema=schema, merge_ifs=True)
            for k, n in (("stdout", "standard output"), ("given", "the given directory"), ("default", "the default directory"))] + [
        Contract("print_syntax_diff (into a %s)" % n, D + "print_syntax_diff", "specs.c09.show", [("snapshot_dir_old", Str), ("snapshot_dir_new", Str), ("fun", Str),
                 ("fun_result", Ref(RES)), ("fun_tag", Opt(Str)), ("output_dir", Opt(Str)), ("show_diff", Bool), ("full_diff", Bool), ("initial_indent", Int)],
                 pre=into(n == "file"), logs=["fs", "out"], result=False, schema=printing if n == "file" else terminal, merge_ifs=True) for n in ("file", "terminal")]

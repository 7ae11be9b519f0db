from .common import *

S = "diffkemp.simpll.simpll."
L = "diffkemp.simpll.library."
FFI = "diffkemp.simpll.simpll_lib."
MOD = "diffkemp.llvm_ir.llvm_module.LlvmModule"
SMOD = L + "SimpLLModule"
CONF, BP = "diffkemp.config.Config", "diffkemp.config.BuiltinPatterns"
CPC = "diffkemp.semdiff.custom_pattern_config.CustomPatternConfig"
PTR = Opaque("Pointer")
PS, ES = "specs.c20.PatternStruct", "specs.c20.EngineStruct"
SW = ["StructAlignment", "FunctionSplits", "UnusedReturnTypes", "KernelPrints", "DeadCode", "NumericalMacros", "Relocations", "TypeCasts", "ControlFlowOnly",
      "InverseConditions", "ReorderedBinOps", "GroupVars"]
NAMES = ["struct_alignment", "function_splits", "unused_return_types", "kernel_prints", "dead_code", "numerical_macros", "relocations", "type_casts",
         "control_flow_only", "inverse_conditions", "reordered_bin_ops", "group_vars"]
REQ = "specs.c20.Request"
BYTES = Opaque("bytes")
FIELDS = dict(CacheDir=BYTES, CustomPatterns=BYTES, Variable=BYTES, OutputLlvmIR=Bool, PrintAsmDiffs=Bool, PrintCallStacks=Bool, ExtendedStat=Bool, Verbosity=Int)


def schema(prog):
    s = file_system(graph_schema(prog))
    s.cls(MOD, llvm=Str, source=Opt(Str), llvm_module=Opt(Ref(SMOD)), unlinked_llvm=Opt(Str), linked_modules=Set(Str))
    s.cls(SMOD, pointer=PTR)
    s.cls(BP, settings=Dict(Str, Bool))
    s.cls(CPC, path=Str)
    s.cls(REQ, custom=Opt(Ref(CPC)), output_llvm_ir=Bool, print_asm_diffs=Bool, extended_stat=Bool, verbosity=Int, use_ffi=Bool, **{n: Bool for n in NAMES})
    s.cls(CONF, verbosity=Int, use_ffi=Bool, builtin_patterns=Ref(BP), custom_pattern_config=Opt(Ref(CPC)), output_llvm_ir=Bool, print_asm_diffs=Bool, extended_stat=Bool, snapshot_first=Opt(Opaque('Snap')), snapshot_second=Opt(Opaque('Snap')), show_diff=Bool, full_diff=Bool, semdiff_tool=Opt(Str), timeout=Int)
    s.cls(PS, **{n: Bool for n in SW})
    s.cls(ES, BuiltinPatterns=Ref(PS), **FIELDS)
    s.cls("specs.c20.Args", snapshot_dir_old=Str, snapshot_dir_new=Str, function=Opt(Str), custom_patterns=Opt(Str), output_llvm_ir=Bool, print_asm_diffs=Bool, extended_stat=Bool, verbose=Int,
          disable_simpll_ffi=Bool, semdiff_tool=Opt(Str), no_show_diff=Bool, show_diff=Bool, full_diff=Bool, enable_pattern=List(Str), disable_pattern=List(Str))
    s.models["diffkemp.snapshot.Snapshot.load_from_dir"] = ext("load_snapshot", Opaque("Snap"), ch="engine", raises=("Damaged",))
    s.models[CPC + ".create_from_file"] = ext("custom_patterns", Ref(CPC), pure=True)
    s.stubs["Snap.filter"] = ext("filter", None, ch="engine")
    s.truthy |= {MOD, CPC, SMOD, PS}
    s.log_print = False

    def new(it, args, kw):
        kind = it.litkey(args[0])[0]
        if kind in ("struct config *", "struct builtin_patterns *"):
            return it.instantiate(prog.lookup(ES if "config" in kind else PS)[1], [], {})
        return args[1] if len(args) > 1 else vstr(z3.StringVal(kind))

    def flat(it, x):
        """a structure passed to the library is passed by its contents"""
        for q, fs in ((PS, SW), (ES, list(FIELDS))):
            t = res(x.t) if isinstance(x, V) else None
            if t is not None and t.kind == "ref" and t.name == q or isinstance(x, MRef) and it.m(x).get("cls") == q:
                vs = [it.getattr(x, f) for f in fs]
                return vs + (flat(it, it.getattr(x, "BuiltinPatterns")) if q == ES else [])
        return [x]

    def call(name, ret=None, **k):
        e = ext(name, ret, ch="engine", **k)
        return lambda it, args, kw: e(it, [y for x in args for y in flat(it, x)], kw)
    for n, ret in (("preprocessModuleC", None), ("loadModule", PTR), ("runSimpLL", None), ("parseAndRunSimpLL", None), ("freeModule", None)):
        s.stubs["lib." + n] = call(n, ret)
    s.stubs["lib.shutdownSimpLL"] = lambda it, a, kw: NONE
    for n in ("lib", "ffi"):
        s.ext_values[FFI + n] = (lambda n: lambda it: Marker(k="ext", path=n))(n)
    s.stubs["ffi.new"] = new
    s.stubs["ffi.string"] = lambda it, a, kw: V(Str, z3.Const("text", z3.StringSort()))
    s.ext_values["ffi.NULL"] = lambda it: V(PTR, z3.Const("null", sort(PTR)))
    s.stubs["os.path.isfile"] = ext("path_isfile", Bool, pure=True)
    s.stubs["os.pipe"] = ext("pipe", Tuple(Int, Int), pure=True)
    s.stubs["os.fork"] = ext("fork", Int, pure=True)
    s.stubs["os.close"] = lambda it, a, kw: NONE
    s.stubs["os.write"] = ext("send", None, ch="engine")
    s.stubs["os.fdopen"] = ext("reader", FILE, pure=True)
    s.stubs["File.read"] = ext("received", Str, pure=True)
    s.stubs["os.waitpid"] = lambda it, a, kw: Tup([NONE, V(Int, z3.Const("status", z3.IntSort()))])

    def once(name, ret=None, raises=None):
        """done once in a run: recorded; its outcome is arbitrary"""
        def f(it, a, kw):
            from pyvc.engine import PyRaise
            from pyvc.schema import logarg
            it.log("engine", name, *[z for x in a for z in logarg(it, x)])
            if raises and it.branch(z3.Bool("fails_" + name)):
                raise PyRaise(raises)
            return V(ret, z3.Const("outcome_" + name, sort(ret))) if ret else NONE
        return f

    def tidy(it, a, kw):
        """cleaning a file: recorded; its outcome depends on the command only"""
        from pyvc.engine import PyRaise
        from pyvc.schema import logarg
        zs = [z for x in a for z in logarg(it, x)]
        it.log("engine", "command", *zs)
        if it.branch(uf("fails_command", *([z.sort() for z in zs] + [z3.BoolSort()]))(*zs)):
            raise PyRaise("subprocess.CalledProcessError")
        return NONE

    def leave(it, a, kw):
        from pyvc.engine import PyRaise
        it.log("engine", "exit", it.coerce(a[0], Int))
        raise PyRaise("ProcessEnd")
    s.stubs["os._exit"] = leave
    s.stubs["subprocess.check_output"] = once("program", Str, "subprocess.CalledProcessError")
    s.stubs["subprocess.check_call"] = tidy
    s.models["diffkemp.utils.get_simpll_build_dir"] = ext("build_dir", Str, pure=True)
    s.models["diffkemp.utils.get_llvm_version"] = ext("llvm_version", Int, pure=True)
    s.stubs["yaml.safe_load"] = ext("safe_load", Y, pure=True, raises=("yaml.YAMLError",))
    s.models[VERTEX + ".from_yaml"] = lambda it, a, kw: ext("vertex", Ref(VERTEX), pure=True)(it, [x for x in a if not isinstance(x, Marker)][:1], {})
    for n in ("normalize", "populate_predecessor_lists", "mark_uncachable_from_assumed_equal"):
        s.models[CG + "." + n] = (lambda n: lambda it, a, kw: (it.log("graph", n), NONE)[1])(n)
    s.models["specs.c20.any_name"] = ext("any_name", Str, pure=True)
    return s


def route(ffi, cachedm=None):
    def pre(it, args):
        from pyvc.engine import Infeasible
        if it.branch(it.truth(it.getattr(args[5], "use_ffi"))) != ffi:
            raise Infeasible()
    return pre


ARGS = [("first", Str), ("second", Str), ("fun_first", Str), ("fun_second", Str), ("var", Opt(Str)), ("request", Ref(REQ)), ("suffix", Opt(Str)),
        ("cache_dir", Opt(Str)), ("module_cache", Dict(Str, Ref(SMOD))), ("modules_to_cache", Opt(List(Str)))]


def no_tool(it, args):
    """no external difference tool is asked for (its choice is another property)"""
    from pyvc.engine import Infeasible
    if not it.branch(it.isnone(it.getattr(args[0], "semdiff_tool"))):
        raise Infeasible()


def contracts():
    cs = [Contract("run_simpll (as a %s)" % n, "specs.c20.code", "specs.c20.engine", ARGS, pre=route(n == "library"), logs=["engine", "graph"], schema=schema, merge_ifs=True, opts={"name_merges": True})
          for n in ("program", "library")]
    cs.append(Contract("Config.from_args", "specs.c20.parsed", "specs.c20.request", [("args", Ref("specs.c20.Args"))], pre=no_tool, logs=["engine"], schema=schema, merge_ifs=True))
    return cs

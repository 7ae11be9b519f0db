from .snap import *

M = "diffkemp.llvm_ir.kernel_llvm_source_builder."
B = M + "KernelLlvmSourceBuilder"


def schema(prog):
    s = file_system(snap_schema(prog))
    s.index_total = True        # a line of the index has a file and a scope
    s.cls(B, source_dir=Str)
    s.models[B + "._cscope_run"] = ext("cscope", List(Str), ch="cscope", raises=(M + "BuildException",))
    s.stubs["os.getcwd"] = ext("getcwd", Str, reads=("cwd",), pure=True)
    s.stubs["os.chdir"] = ext("chdir", None, ch="cwd")
    s.models[MOD + ".__init__"] = lambda it, a, kw: (it.setattr(a[0], "llvm", a[1]), NONE)[1]
    s.models[MOD + ".has_function"] = ext("has_function", Bool, ch="mod")
    s.models[MOD + ".has_global"] = ext("has_global", Bool, ch="mod")
    s.models[B + "._build_source_to_llvm"] = ext("build", Str, ch="mod", raises=(M + "BuildException",))
    return s


def users(prog):
    s = schema(prog)
    s.models[B + "._find_tracepoint_macro_use"] = ext("tracepoints", List(Str), ch="cscope", raises=(M + "BuildException",))
    return s


def finder(prog):
    s = schema(prog)
    s.models[B + "._find_srcs_with_symbol_def"] = ext("candidates", List(Str), ch="cscope", raises=(NOTFOUND,))
    return s


KINDS = ("parameter accessor", "tracepoint", "rcu_barrier", "vfree", "any other")


def kind(k):
    def pre(it, args):
        from pyvc.engine import Infeasible
        z = args[1].z
        tests = [z3.Or(*[z3.PrefixOf(z3.StringVal(p), z) for p in ("param_get_", "param_set_", "param_ops_")]), z3.PrefixOf(z3.StringVal("__tracepoint_"), z),
                 z == z3.StringVal("rcu_barrier"), z == z3.StringVal("vfree"), z3.BoolVal(True)]
        for i in range(k + 1):
            if it.branch(tests[i]) != (i == k):
                raise Infeasible()
    return pre


def contracts():
    me = [("self", Ref(B)), ("symbol", Str)]
    return [
        Contract("_find_tracepoint_macro_use", B + "._find_tracepoint_macro_use", "specs.c17.tracepoint_uses", me, logs=["cscope"], schema=schema),
        Contract("find_llvm_with_symbol_def", B + ".find_llvm_with_symbol_def", "specs.c17.definition", me, logs=["cscope", "mod"], schema=finder),
    ] + [
        Contract("_find_srcs_with_symbol_def (%s)" % n, B + "._find_srcs_with_symbol_def", "specs.c17.candidates", me, pre=kind(k), logs=["cscope", "cwd"], schema=users)
        for k, n in enumerate(KINDS)
    ]

from .common import *
from .c25 import L, MOD, TREE, NOTFOUND, FINDER, PARSED

SYS = L + "llvm_sysctl_module.LlvmSysctlModule"
KTREE = L + "kernel_source_tree.KernelSourceTree"
SNAP = "diffkemp.snapshot.Snapshot"
PARAM = L + "llvm_module.LlvmParam"
TABLE = Opaque("Table")


def schema(prog):
    s = file_system(Schema(prog))
    s.cls(MOD, llvm=Str, llvm_module=Opt(PARSED))
    s.cls(PARAM, name=Str, indices=Seq(Int))
    s.cls(SYS, mod=Ref(MOD), ctl_table=Str, table_object=TABLE)
    s.cls(KTREE, source_dir=Str, source_finder=Opt(FINDER))
    s.truthy |= {MOD, SYS, PARAM}
    s.models[MOD + ".parse_module"] = ext("parse", None, ch="fs", raises=("ValueError",))
    s.models["diffkemp.simpll.library.SimpLLSysctlTable"] = ext("table", TABLE, ch="fs", pure=True)
    s.models[TREE + ".get_module_for_symbol"] = ext("find_module", Ref(MOD), ch="fs", raises=(NOTFOUND,))
    for f in ("get_child", "get_data"):
        s.stubs["Table." + f] = ext(f, Opt(Tuple(Str, Seq(Int))), pure=True)
    return s


def build(prog):
    s = schema(prog)
    s.cls(SNAP, source_tree=Ref(KTREE))
    s.truthy |= {SNAP, KTREE}
    s.log_print = False
    s.models[KTREE + ".get_sysctl_module"] = ext("sysctl_module", Ref(SYS), ch="fs", raises=(NOTFOUND,))
    s.models[TREE + ".get_modules_using_symbol"] = ext("users", Seq(Ref(MOD)), ch="fs", raises=(NOTFOUND,))
    s.models[SYS + ".parse_sysctls"] = ext("entries", Seq(Str), ch="fs")
    s.models[SYS + ".get_proc_fun"] = ext("handler", Opt(Str), ch="fs")
    s.models[SYS + ".get_data"] = ext("variable", Opt(Ref(PARAM)), ch="fs")
    s.models[MOD + ".get_functions_using_param"] = ext("functions", Seq(Str), ch="fs")
    s.models[SNAP + ".add_fun"] = ext("add", None, ch="fs", names=("self", "name", "llvm_mod", "glob_var", "tag", "group"))
    return s


def contracts():
    me = [("self", Ref(SYS)), ("sysctl_name", Str)]
    return [
        Contract("matches", L + "llvm_sysctl_module.matches", "specs.c22.means", [("name", Str), ("pattern", Str)], schema=schema),
        Contract("get_sysctl_module", KTREE + ".get_sysctl_module", "specs.c22.definition", [("self", Ref(KTREE)), ("sysctl", Str)],
                 observe=["specs.c22.found"], result=False, logs=["fs"], schema=schema, nopath=True),
        Contract("get_child", "specs.c22.code_child", "specs.c22.child", me, schema=schema),
        Contract("get_data", "specs.c22.code_data", "specs.c22.data", me, schema=schema),
        Contract("generate_from_sysctl_list", "diffkemp.diffkemp.generate_from_sysctl_list", "specs.c22.record", [("snapshot", Ref(SNAP)), ("sysctl_list", List(Str))],
                 logs=["fs"], schema=build, merge_ifs=True),
    ]

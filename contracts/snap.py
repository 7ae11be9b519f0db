from .common import *

SNAP = "diffkemp.snapshot.Snapshot"
DESC, GROUP = SNAP + ".FunctionDesc", SNAP + ".FunctionGroup"
MOD = "diffkemp.llvm_ir.llvm_module.LlvmModule"
TREE = "diffkemp.llvm_ir.source_tree.SourceTree"
NOTFOUND = "diffkemp.llvm_ir.source_tree.SourceNotFoundException"


def snap_schema(prog):
    s = graph_schema(prog)
    s.cls(MOD, llvm=Str)
    s.cls(DESC, mod=Opt(Ref(MOD)), glob_var=Opt(Str), tag=Opt(Str))
    s.cls(GROUP, functions=Dict(Str, Ref(DESC)))
    s.cls(TREE, source_dir=Str)
    s.cls(SNAP, source_tree=Ref(TREE), snapshot_tree=Ref(TREE), list_kind=Opt(Str), fun_groups=Dict(Opt(Str), Ref(GROUP)), created_time=Opt(Opaque("Time")),
          llvm_version=Opt(Int), store_source_dir=Bool)
    s.truthy |= {MOD, DESC, GROUP, TREE}
    return s

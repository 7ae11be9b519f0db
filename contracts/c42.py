from .common import *
from .c25 import L, NOTFOUND, FINDER, FAILS

B = L + "kernel_llvm_source_builder.KernelLlvmSourceBuilder"
TREE, KTREE = L + "source_tree.SourceTree", L + "kernel_source_tree.KernelSourceTree"
SNAP = "diffkemp.snapshot.Snapshot"
D = "diffkemp.diffkemp."


def schema(prog):
    s = file_system(Schema(prog))
    s.cls(B, source_dir=Str, compiler_headers=List(Str))
    s.exc_bases[FAILS] = ("Exception",)
    s.stubs["subprocess.check_call"] = ext("run", None, ch="fs", names=("cmd", "stderr"), raises=(FAILS,))
    return s


def trees(prog):
    s = file_system(Schema(prog))
    s.cls(TREE, source_dir=Str, source_finder=Opt(FINDER))
    s.cls(SNAP, source_tree=Opt(Ref(TREE)), snapshot_tree=Opt(Ref(TREE)))
    s.truthy |= {TREE, SNAP}
    for f in ("initialize", "finalize"):
        s.stubs["Finder." + f] = ext(f, None, ch="fs")
    return s


def driver(prog):
    s = file_system(Schema(prog))
    s.cls(KTREE, source_dir=Str, source_finder=FINDER, modules=Dict(Str, Int))
    s.cls(SNAP, list_kind=Str, source_tree=Ref(KTREE), snapshot_tree=Ref(KTREE))
    s.truthy |= {KTREE, SNAP}
    anything = ("OSError", "ValueError", "SystemExit", NOTFOUND)
    s.models[B] = ext("prepare", FINDER, ch="fs")
    create = ext("create", Ref(SNAP), ch="fs", raises=anything, names=("source_tree", "output_dir", "list_kind", "store_source_dir"))

    def created(it, args, kw):
        if args and args[0] is not None and type(args[0]).__name__ == "Marker":
            args = args[1:]
        r = create(it, args, kw)
        it.setattr(r, "source_tree", args[0] if args else kw["source_tree"])
        return r
    s.models[SNAP + ".create_from_source"] = created
    s.models[D + "read_symbol_list"] = ext("symbols", Seq(Str), ch="fs", raises=anything)
    s.models[D + "generate_from_sysctl_list"] = ext("sysctls", None, ch="fs", raises=anything)
    s.models[D + "generate_from_function_list"] = ext("functions", None, ch="fs", raises=anything)
    s.models[SNAP + ".generate_snapshot_dir"] = ext("write", None, ch="fs", raises=anything)
    s.stubs["Finder.finalize"] = ext("restore", None, ch="fs")
    s.stubs["sys.stderr.write"] = ext("stderr", None, pure=True)
    s.cls("specs.c42.Args", source_dir=Str, output_dir=Str, symbol_list=Str, sysctl=Bool, no_source_dir=Bool)
    return s


def contracts():
    me = [("self", Ref(B))]
    return [
        Contract("_disable_asm_features", B + "._disable_asm_features", "specs.c42.disable", me, logs=["fs"], schema=schema, merge_ifs=True),
        Contract("_enable_asm_features", B + "._enable_asm_features", "specs.c42.enable", me, logs=["fs"], schema=schema, merge_ifs=True),
        Contract("initialize", B + ".initialize", "specs.c42.disable", me, logs=["fs"], schema=schema, merge_ifs=True),
        Contract("finalize", B + ".finalize", "specs.c42.enable", me, logs=["fs"], schema=schema, merge_ifs=True),
        Contract("SourceTree.initialize", TREE + ".initialize", "specs.c42.prepared", [("self", Ref(TREE))], logs=["fs"], schema=trees),
        Contract("Snapshot.finalize", SNAP + ".finalize", "specs.c42.restored", [("self", Ref(SNAP))], logs=["fs"], schema=trees),
        Contract("build_kernel", D + "build_kernel", "specs.c42.build", [("args", Ref("specs.c42.Args"))], logs=["fs"], schema=driver),
    ]

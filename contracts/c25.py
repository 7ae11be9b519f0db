from .common import *

L = "diffkemp.llvm_ir."
MOD = L + "llvm_module.LlvmModule"
TREE = L + "source_tree.SourceTree"
NOTFOUND = L + "llvm_source_finder.SourceNotFoundException"
FINDER, PARSED = Opaque("Finder"), Opaque("Parsed")
FAILS = "subprocess.CalledProcessError"


def schema(prog):
    s = file_system(Schema(prog))
    s.cls(MOD, llvm=Str, source=Opt(Str), llvm_module=Opt(PARSED), unlinked_llvm=Opt(Str), linked_modules=Set(Ref(MOD)))
    s.cls(TREE, source_dir=Str, source_finder=Opt(FINDER), modules=Dict(Str, Ref(MOD)))
    s.truthy |= {MOD}
    s.exc_bases[FAILS] = ("Exception",)
    s.stubs["subprocess.check_call"] = ext("run", None, ch="fs", names=("cmd", "stdout", "stderr"), raises=(FAILS, "OSError"))
    s.stubs["os.replace"] = ext("replace", None, ch="fs", raises=("OSError",))
    s.models["diffkemp.simpll.library.SimpLLModule"] = s.stubs["SimpLLModule"] = ext("load", PARSED, ch="fs", raises=("ValueError",))
    s.models["diffkemp.utils.get_opt_command"] = ext("opt_command", Seq(Str), pure=True)
    s.stubs["Finder.find_llvm_with_symbol_def"] = ext("find_def", Opt(Str), ch="fs", raises=(NOTFOUND,))
    s.stubs["Finder.find_llvm_with_symbol_use"] = ext("find_use", Seq(Str), ch="fs", raises=(NOTFOUND,))
    s.stubs["os.path.getmtime"] = ext("mtime", Real, ch="fs", raises=("OSError",))
    return s


def contracts():
    me, others = [("self", Ref(MOD))], [("modules", List(Ref(MOD)))]
    files = [("F", MOD, f) for f in ("llvm", "unlinked_llvm", "llvm_module")]
    k = dict(schema=schema, observe=["specs.c25.whole"], frame=files)
    find = dict(schema=schema, observe=["specs.c25.known"], frame=files, logs=["fs"], merge_ifs=True)
    tree = [("self", Ref(TREE)), ("symbol", Str)]
    return [
        Contract("link_modules", MOD + ".link_modules", "specs.c25.link", me + others, logs=["fs"], **k),
        Contract("link_modules keeps the original file", MOD + ".link_modules", "specs.c25.same", me + others, observe=["specs.c25.original"], result=False, schema=schema),
        Contract("restore_unlinked_llvm", MOD + ".restore_unlinked_llvm", "specs.c25.restore", me, logs=["fs"], **k),
        Contract("clean_module", MOD + ".clean_module", "specs.c25.clean", me, **k),
        Contract("parse_module", MOD + ".parse_module", "specs.c25.parse", me + [("force", Bool)], logs=["fs"], **k),
        Contract("get_module_for_symbol", TREE + ".get_module_for_symbol", "specs.c25.lookup", tree + [("created_before", Opt(Real))], **find),
        Contract("get_modules_using_symbol", TREE + ".get_modules_using_symbol", "specs.c25.users", tree, **dict(find, frame=[])),
    ]

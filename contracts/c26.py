from .common import *
from .c25 import MOD, TREE, FINDER, PARSED


def schema(prog):
    s = file_system(Schema(prog))
    s.cls(MOD, llvm=Str, source=Opt(Str), llvm_module=Opt(PARSED), unlinked_llvm=Opt(Str), linked_modules=Set(Ref(MOD)))
    s.cls(TREE, source_dir=Str, source_finder=Opt(FINDER), modules=Dict(Str, Ref(MOD)))
    s.truthy |= {MOD}
    s.stubs["File.readlines"] = ext("readlines", Seq(Str), ch="fs", raises=("UnicodeDecodeError",))
    s.stubs["shutil.copyfile"] = ext("copyfile", None, ch="fs", names=("src", "dst"), raises=("OSError",))
    s.stubs["re.compile"] = ext("regex", Opaque("Regex"), pure=True)
    s.stubs["Regex.search"] = s.stubs["Regex.match"] = ext("search", Opt(Opaque("Match")), pure=True)
    s.stubs["Match.group"] = ext("group", Str, pure=True)
    return s


def users(prog):
    s = schema(prog)
    s.models[MOD + ".get_included_sources"] = ext("included", Set(Str), ch="fs", raises=("UnicodeDecodeError",))
    e = ext("move", None, ch="fs", names=("self", "old_root", "new_root"), raises=("OSError", "UnicodeDecodeError"))

    def move(it, args, kw):
        e(it, args, kw)
        h = it.getlog("fs")
        it.setattr(args[0], "llvm", V(Str, uf("moved", z3.IntSort(), h.sort(), z3.StringSort())(args[0].z, h)))
        return NONE
    s.models[MOD + ".move_to_other_root_dir"] = move
    return s


def contracts():
    me = [("self", Ref(MOD))]
    f = [("F", MOD, x) for x in ("llvm", "source")]
    return [
        Contract("move_to_other_root_dir", MOD + ".move_to_other_root_dir", "specs.c26.move", me + [("old_root", Str), ("new_root", Str)],
                 frame=f, logs=["fs"], schema=schema, merge_ifs=True),
        Contract("get_included_sources", MOD + ".get_included_sources", "specs.c26.included", me, frame=f, logs=["fs"], schema=schema, merge_ifs=True),
        Contract("copy_source_files", TREE + ".copy_source_files", "specs.c26.copy", [("self", Ref(TREE)), ("modules", Set(Ref(MOD))), ("target_source_tree", Ref(TREE))],
                 frame=f, logs=["fs"], schema=users, merge_ifs=True),
    ]

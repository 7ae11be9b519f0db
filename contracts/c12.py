from .snap import *


def schema(prog):
    s = file_system(snap_schema(prog))
    s.stubs["open"] = opener(raises=("OSError",))
    s.stubs["File.readlines"] = ext("readlines", Seq(Str), ch="fs", raises=("UnicodeDecodeError",), pure=True)
    s.models[TREE + ".get_module_for_symbol"] = ext("find_module", Ref(MOD), ch="mod", raises=(NOTFOUND,))
    s.models[MOD + ".has_function"] = ext("has_function", Bool, ch="mod")
    s.log_print = False
    return s


def contracts():
    return [
        Contract("read_symbol_list", "diffkemp.diffkemp.read_symbol_list", "specs.c12.symbols", [("list_path", Str)], logs=["fs"], schema=schema),
        Contract("generate_from_function_list", "diffkemp.diffkemp.generate_from_function_list", "specs.c12.record",
                 [("snapshot", Ref(SNAP)), ("fun_list", List(Str))], logs=["mod"], observe=["specs.c12.groups", "specs.c12.entries"], result=False,
                 schema=schema, merge_ifs=True),
    ]

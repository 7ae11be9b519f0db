from .common import *

CACHE = "diffkemp.semdiff.caching.SimpLLCache"


def schema(prog):
    s = file_system(graph_schema(prog, files=V2(Str)))
    s.cls(CACHE + ".CacheFile", left_module=Str, right_module=Str, filename=Str)
    s.cls(CACHE, directory=Str, cache_map=Dict(V2(Str), Ref(CACHE + ".CacheFile")))
    return s


def contracts():
    return [
        Contract("CacheFile.__init__", "specs.c07.name_of", "specs.c07.name", [("directory", Str), ("left", Str), ("right", Str)], schema=schema),
        Contract("SimpLLCache.update", CACHE + ".update", "specs.c07.update", [("self", Ref(CACHE)), ("vertices", List(Ref(VERTEX)))],
                 logs=["fs"], observe=["specs.c07.files"], result=False, schema=schema, merge_ifs=True),
        Contract("SimpLLCache.clear", CACHE + ".clear", "specs.c07.clear", [("self", Ref(CACHE))], logs=["fs"], result=False, schema=schema),
    ]

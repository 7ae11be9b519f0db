from .common import *


def schema(prog):
    return opaque_stacks(graph_schema(prog, entity=("name", "filename", "line", "diff_kind", "covered")))


def files(prog):
    return graph_schema(prog, files=V2(Str))


def contracts():
    return [
        Contract("ComparisonGraph.reachable_from", "specs.c02.reported_by_walk", "specs.c02.reached",
                 [("self", Ref(CG)), ("side", SIDE), ("start", Str)], pre="specs.c02.present", schema=files, merge_ifs=True),
        Contract("ComparisonGraph.graph_to_fun_pair_list", CG + ".graph_to_fun_pair_list", "specs.c02.differences",
                 [("self", Ref(CG)), ("fun_first", Str), ("fun_second", Str), ("full_diff", Bool)], pre="specs.c02.known", schema=schema, merge_ifs=True),
    ]

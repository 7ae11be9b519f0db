from .common import *


def schema(prog):
    return opaque_stacks(graph_schema(prog, entity=("name", "callstack")))


def plain(prog):
    return graph_schema(prog, entity=("name", "callstack"))


def files(prog):
    return graph_schema(prog, files=V2(Str))


def parents(prog):
    s = graph_schema(prog, files=V2(Str))
    s.classes[EDGE]["parent_vertex"] = Ref(VERTEX)
    return s


def contracts():
    return [
        Contract("ComparisonGraph.reachable_from (recorded edges)", "specs.c02.reported_paths", "specs.c02.paths",
                 [("self", Ref(CG)), ("side", SIDE), ("start", Str)], pre="specs.c02.present", schema=files, merge_ifs=True),
        Contract("_get_callstack", "diffkemp.semdiff.caching._get_callstack", "specs.c02.call_path",
                 [("backtracking_map", Dict(Ref(VERTEX), Ref(EDGE))), ("start_vertex", Ref(VERTEX)), ("end_vertex", Ref(VERTEX))], schema=parents),
        Contract("Callstack.from_edge_objects", CALLSTACK + ".from_edge_objects", "specs.c03.stack_of_edges",
                 setup=lambda it: [V(Seq(Ref(EDGE)), z3.Const("in!edges", sort(Seq(Ref(EDGE)))))], schema=plain),
        Contract("Callstack.from_simpll_yaml", CALLSTACK + ".from_simpll_yaml", "specs.c03.stack_of_yaml",
                 setup=lambda it: [V(Y, z3.Const("in!calls", sort(Y)))], schema=plain),
        Contract("ComparisonGraph.graph_to_fun_pair_list (stacks)", "specs.c03.code", "specs.c03.stacks",
                 [("self", Ref(CG)), ("fun_first", Str), ("fun_second", Str), ("full_diff", Bool)], pre="specs.c03.known", schema=schema, merge_ifs=True),
    ]

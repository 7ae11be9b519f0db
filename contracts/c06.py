from .common import *


def schema(prog):
    return graph_schema(prog, files=V2(Str))


def contracts():
    F = [("F", VERTEX, "cachable")]
    return [
        Contract("ComparisonGraph.populate_predecessor_lists", CG + ".populate_predecessor_lists", "specs.c06.callers", [("self", Ref(CG))],
                 frame=[("L", mangle(Ref(VERTEX)))], result=False, schema=schema, merge_ifs=True),
        Contract("ComparisonGraph.mark_uncachable_from_assumed_equal", CG + ".mark_uncachable_from_assumed_equal", "specs.c06.mark", [("self", Ref(CG))],
                 frame=F + [("L", mangle(Ref(VERTEX)))], result=False, schema=schema, merge_ifs=True),
        Contract("ComparisonGraph.absorb_graph (reuse marks)", CG + ".absorb_graph", "specs.c06.merge", [("self", Ref(CG)), ("graph", Ref(CG))],
                 pre="specs.c06.separate", frame=F, observe=["specs.c06.results"], result=False, schema=schema, merge_ifs=True),
    ]

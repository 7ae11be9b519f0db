from .common import *


def contracts():
    return [
        Contract("Vertex.compare_vertex_priority", VERTEX + ".compare_vertex_priority", "specs.c04.replaced_by",
                 [("self", Ref(VERTEX)), ("other", Ref(VERTEX))], schema=graph_schema),
        Contract("ComparisonGraph.absorb_graph", CG + ".absorb_graph", "specs.c04.merge", [("self", Ref(CG)), ("graph", Ref(CG))],
                 pre="specs.c04.separate", observe=["specs.c04.results"], result=False, schema=graph_schema, merge_ifs=True),
    ]

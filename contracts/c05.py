from .common import *


def contracts():
    return [
        Contract("ComparisonGraph.normalize", CG + ".normalize", "specs.c05.fold", [("self", Ref(CG))],
                 observe=["specs.c05.results"], frame=[("F", EDGE, "kind"), ("F", EDGE, "target_name"), ("F", VERTEX, "names"), ("F", VERTEX, "result")],
                 result=False, schema=graph_schema, merge_ifs=True),
    ]

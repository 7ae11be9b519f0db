"""C05: functions stripped of unused returns are folded back into their originals."""
from diffkemp.semdiff.caching import ComparisonGraph
from diffkemp.semdiff.result import Result

WEAK = ComparisonGraph.DependencyKind.WEAK


def fold(graph):
    for e in graph._normalize_edge_cache:
        base = e.target_name[:-5]
        if graph.vertices[e.target_name].result == Result.Kind.EQUAL:
            e.kind = WEAK
            if e.parent_vertex:
                for side in (0, 1):
                    for o in e.parent_vertex.successors[side]:
                        if o.target_name == base:
                            o.kind = WEAK
        e.target_name = base
    for v in graph._weak_vertex_cache:
        name = v.names[1]
        if v.names[0].endswith(".void"):
            name = v.names[0]
        base = name[:-5]
        del graph.vertices[name]
        if base not in graph.vertices:
            v.names = (base, base)
            if v.result == Result.Kind.EQUAL:
                v.result = Result.Kind.ASSUMED_EQUAL
            graph[base] = v


def results(graph):
    return graph.vertices

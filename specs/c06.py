"""C06: only results that cannot change later are offered for reuse."""
from collections import deque
from diffkemp.semdiff.caching import ComparisonGraph
from diffkemp.semdiff.result import Result


def callers(graph):
    """every known callee records its callers, per version, in the order of the calls"""
    for v in graph.vertices.values():
        for side in (0, 1):
            for e in v.successors[side]:
                if e.target_name in graph.vertices:
                    graph.vertices[e.target_name].predecessors[side].append(v)


def merge(graph, other):
    for name, v in other.vertices.items():
        if name not in graph.vertices or graph.vertices[name].compare_vertex_priority(v):
            if name in graph.vertices and graph.vertices[name].result == Result.Kind.ASSUMED_EQUAL \
                    and v.result != Result.Kind.ASSUMED_EQUAL:
                for u in graph.vertices[name].prevents_caching_of:
                    u.cachable = True
            graph[name] = v
    for v in graph.vertices.values():
        if v.result == Result.Kind.ASSUMED_EQUAL:
            for u in v.prevents_caching_of:
                u.cachable = False


def separate(graph, other):
    return graph.vertices is not other.vertices


def mark(graph):
    for vertex in graph.vertices.values():
        if vertex.result == Result.Kind.ASSUMED_EQUAL and not vertex.files[0].endswith(".h"):
            todo = deque()
            done = set()
            todo.appendleft(vertex)
            while todo:
                v = todo.pop()
                done.add(v)
                for p in v.predecessors[0]:
                    if p not in done and p.files[0].endswith(".h"):
                        todo.appendleft(p)
                        p.cachable = False
                        vertex.prevents_caching_of.append(p)


def results(graph, other=None):
    return graph.vertices


def vertices(graph):
    return graph.vertices

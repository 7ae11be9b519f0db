"""C04: merging never loses or degrades known results."""
from diffkemp.semdiff.caching import ComparisonGraph
from diffkemp.semdiff.result import Result

LEFT = ComparisonGraph.Side.LEFT
RIGHT = ComparisonGraph.Side.RIGHT


def replaced_by(old, new):
    if old.result == Result.Kind.ASSUMED_EQUAL or old.result == Result.Kind.UNKNOWN:
        return True
    if old.result == Result.Kind.NOT_EQUAL and old.files[0] != old.files[1] and new.result == Result.Kind.EQUAL:
        return True
    return len(new.successors[0]) > len(old.successors[0]) or len(new.successors[1]) > len(old.successors[1])


def merge(graph, other):
    for name, v in other.vertices.items():
        if name not in graph.vertices or replaced_by(graph.vertices[name], v):
            graph[name] = v


def results(graph, other):
    return graph.vertices


def separate(graph, other):
    return graph.vertices is not other.vertices

"""C03: call stacks of reported differences are genuine call paths."""
from diffkemp.semdiff.caching import ComparisonGraph, _get_callstack
from diffkemp.semdiff.result import Result

LEFT = ComparisonGraph.Side.LEFT
RIGHT = ComparisonGraph.Side.RIGHT


def stack_of_yaml(callstack):
    return Result.Callstack([{"name": c["function"], "file": c["file"], "line": c["line"]} for c in callstack])


def stack_of_edges(edges):
    return Result.Callstack([{"name": e.target_name, "file": e.filename, "line": e.line} for e in edges])


def joined(a, b):
    return Result.Callstack(a.calls + b.calls)


def stack_of_function(graph, back, start, v, side):
    if v.names[side] == start:
        return None
    return Result.Callstack.from_edge_objects(_get_callstack(back, graph.vertices[start], v))


def stack_of_object(graph, back, start, v, d, side):
    own = Result.Callstack.from_simpll_yaml(d.callstack[side])
    if d.parent_fun == start:
        return own
    return Result.Callstack.from_edge_objects(_get_callstack(back, graph.vertices[start], v)) + own


def reported(v, full):
    if v.result == Result.Kind.ASSUMED_EQUAL:
        return False
    return full or v.result != Result.Kind.EQUAL


def stacks(graph, first, second, full):
    left, lback = graph.reachable_from(LEFT, first)
    right, rback = graph.reachable_from(RIGHT, second)
    out = []
    for v in set(left) & set(right):
        if not reported(v, full):
            continue
        out.append((Result.Entity(v.names[0], None, None, stack_of_function(graph, lback, first, v, LEFT), "function", False),
                    Result.Entity(v.names[1], None, None, stack_of_function(graph, rback, second, v, RIGHT), "function", False),
                    v.result))
        for d in v.nonfun_diffs:
            ls = stack_of_object(graph, lback, first, v, d, LEFT)
            rs = stack_of_object(graph, rback, second, v, d, RIGHT)
            out.append((Result.Entity(d.name, None, None, ls, "", False), Result.Entity(d.name, None, None, rs, "", False),
                        Result.Kind.NOT_EQUAL))
    return out


def code(graph, first, second, full):
    return graph.graph_to_fun_pair_list(first, second, full)[0]


def known(graph, first, second, full):
    return first in graph.vertices and second in graph.vertices

"""C02: exactly the differing functions reachable from both versions are reported."""
from collections import deque
from diffkemp.semdiff.caching import ComparisonGraph
from diffkemp.semdiff.result import Result

LEFT = ComparisonGraph.Side.LEFT
RIGHT = ComparisonGraph.Side.RIGHT


def walk(graph, side, start):
    """Breadth-first reference: functions that depend on the start function, and how each walked function was reached."""
    first = graph.vertices[start]
    walked = set()
    todo = deque()
    found = [first]
    back = {}
    todo.appendleft(first)
    while todo:
        v = todo.pop()
        walked.add(v)
        for e in v.successors[side]:
            if e.target_name in graph.vertices:
                t = graph.vertices[e.target_name]
                if not (t.files[side].endswith(".c") and t.files[side] != first.files[side]):
                    if t not in walked:
                        todo.appendleft(t)
                        if t not in back:
                            back[t] = e
                    if e.kind != ComparisonGraph.DependencyKind.WEAK:
                        found.append(t)
    return found, back


def reached(graph, side, start):
    return set(walk(graph, side, start)[0])


def reported_by_walk(graph, side, start):
    return set(graph.reachable_from(side, start)[0])


def paths(graph, side, start):
    return walk(graph, side, start)[1]


def reported_paths(graph, side, start):
    return graph.reachable_from(side, start)[1]


def call_path(back, start, end):
    """edges from the start to the end function, following the recorded edges backwards"""
    if start == end:
        return []
    edges = [back[end]]
    while edges[-1].parent_vertex is not start:
        edges.append(back[edges[-1].parent_vertex])
    return list(reversed(edges))


def present(graph, side, start):
    return start in graph.vertices


def reported(v, full):
    if v.result == Result.Kind.ASSUMED_EQUAL:
        return False
    return full or v.result != Result.Kind.EQUAL


def differences(graph, first, second, full):
    """Pairs of reported entities; which vertices are reachable is decided by reached()."""
    left = graph.reachable_from(LEFT, first)[0]
    right = graph.reachable_from(RIGHT, second)[0]
    out = []
    lbodies = {}
    rbodies = {}
    for v in set(left) & set(right):
        if not reported(v, full):
            continue
        covered = len(v.nonfun_diffs) > 0
        out.append((Result.Entity(v.names[0], v.files[0], v.lines[0], None, "function", covered),
                    Result.Entity(v.names[1], v.files[1], v.lines[1], None, "function", covered),
                    v.result))
        for d in v.nonfun_diffs:
            if isinstance(d, ComparisonGraph.SyntaxDiff):
                out.append((Result.Entity(d.name, None, None, None, "syntactic", False),
                            Result.Entity(d.name, None, None, None, "syntactic", False), Result.Kind.NOT_EQUAL))
                lbodies[d.name] = d.body[0]
                rbodies[d.name] = d.body[1]
            else:
                out.append((Result.Entity(d.name, d.file[0], d.line[0], None, "type", False),
                            Result.Entity(d.name, d.file[1], d.line[1], None, "type", False), Result.Kind.NOT_EQUAL))
    return out, lbodies, rbodies


def known(graph, first, second, full):
    return first in graph.vertices and second in graph.vertices

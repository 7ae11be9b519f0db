"""C21: what the comparison engine prints is taken over into the comparison graph."""
from diffkemp.semdiff.caching import ComparisonGraph
from diffkemp.semdiff.result import Result

Vertex = ComparisonGraph.Vertex
STRONG = ComparisonGraph.DependencyKind.STRONG
WEAK = ComparisonGraph.DependencyKind.WEAK


def vertex_parts(names, result, files, lines, stats):
    v = Vertex(names, result, files, lines, stats)
    return (v.names, v.result, v.files, v.lines, v.stats, v.cachable, len(v.nonfun_diffs), len(v.successors[0]), len(v.successors[1]),
            len(v.prevents_caching_of), len(v.predecessors[0]), len(v.predecessors[1]))


def new_vertex_parts(names, result, files, lines, stats):
    return names, result, files, lines, stats, True, 0, 0, 0, 0, 0, 0


def edge_parts(callee):
    e = ComparisonGraph.Edge.from_yaml(callee)
    return e.target_name, e.filename, e.line, e.kind, e.parent_vertex


def call(callee):
    return text(callee["function"]), opt_text(callee["file"]), int(callee["line"]), WEAK if callee["weak"] else STRONG, None


def syntax_parts(d):
    x = ComparisonGraph.SyntaxDiff.from_yaml(d)
    return x.name, x.parent_fun, x.callstack, x.body


def syntax(d):
    return text(d["name"]), text(d["function"]), (d["stack-first"], d["stack-second"]), (opt_text(d["body-first"]), opt_text(d["body-second"]))


def type_parts(d):
    x = ComparisonGraph.TypeDiff.from_yaml(d)
    return x.name, x.parent_fun, x.callstack, x.file, x.line


def type_(d):
    return (text(d["name"]), text(d["function"]), (d["stack-first"], d["stack-second"]), (opt_text(d["file-first"]), opt_text(d["file-second"])),
            (opt_number(d["line-first"]), opt_number(d["line-second"])))


def stats_parts(left, right):
    s = ComparisonGraph.FunctionStats(left, right)
    return s.inst_cnt, s.inst_equal_cnt, s.lines_cnt


def counted(side, what):
    return number(side.get(what, 0))


def stats(left, right):
    return ((counted(left, "inst-cnt"), counted(right, "inst-cnt")), (counted(left, "inst-equal-cnt"), counted(right, "inst-equal-cnt")),
            (counted(left, "lines-cnt"), counted(right, "lines-cnt")))


def from_yaml(fun_result, graph):
    return view(Vertex.from_yaml(fun_result, graph), graph)


def view(v, graph):
    """the entry as seen from outside: its fields, its lists and an arbitrary call and difference object"""
    e = any_call()
    s = any_syntax()
    t = any_type()
    return (v.names, v.result, v.files, v.lines, v.stats.inst_cnt, v.stats.inst_equal_cnt, v.stats.lines_cnt, v.cachable, v.successors[0], v.successors[1], v.nonfun_diffs,
            graph._normalize_edge_cache if graph is not None else None,
            e.target_name, e.filename, e.line, e.kind, e.parent_vertex is v,
            s.name, s.parent_fun, s.callstack, s.body, t.name, t.parent_fun, t.callstack, t.file, t.line)


def any_call():
    """an arbitrary call object"""


def any_syntax():
    """an arbitrary syntactic difference"""


def any_type():
    """an arbitrary type difference"""


def taken(fun_result, graph):
    return view(entry(fun_result, graph), graph)


def entry(fun_result, graph):
    left = fun_result["first"]
    right = fun_result["second"]
    v = Vertex((left["function"], right["function"]), Result.Kind.from_string(fun_result["result"]),
               (left.get("file", None), right.get("file", None)),
               (left.get("line", None), right.get("line", None)),
               ComparisonGraph.FunctionStats(left.get("stats", {}), right.get("stats", {})))
    if "calls" in left:
        for c in left["calls"]:
            take(v, v.successors[0], c, graph)
        for c in right["calls"]:
            take(v, v.successors[1], c, graph)
    if "differing-objects" in fun_result:
        for d in fun_result["differing-objects"]:
            if "body-first" in d:
                v.nonfun_diffs.append(ComparisonGraph.SyntaxDiff.from_yaml(d))
            else:
                v.nonfun_diffs.append(ComparisonGraph.TypeDiff.from_yaml(d))
    return v


def take(v, calls, c, graph):
    e = ComparisonGraph.Edge.from_yaml(c)
    e.parent_vertex = v
    calls.append(e)
    if graph is not None and e.target_name.endswith(".void"):
        graph._normalize_edge_cache.append(e)


def text(x):
    return x


def opt_text(x):
    return x


def number(x):
    return x


def opt_number(x):
    return x


def alone(fun_result):
    return view(Vertex.from_yaml(fun_result), None)


def taken_alone(fun_result):
    return view(entry(fun_result, None), None)

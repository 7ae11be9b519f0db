from .common import *

K = [("names", V2(Str)), ("result", KIND), ("files", V2(Opt(Str))), ("lines", V2(Opt(Int))), ("stats", Opt(Ref(STATS)))]


def schema(prog):
    s = graph_schema(prog)
    s.truthy |= {CG}
    s.models[RES + ".Kind.from_string"] = ext("kind_of", KIND, pure=True)      # C01
    s.y_total |= {"first", "second", "result", "weak", "stack-first", "stack-second", "body-first", "body-second", "file-first", "file-second", "line-first", "line-second"}
    # values of the documented shape have the type of the field they are kept in
    for n, t in (("text", Str), ("opt_text", Opt(Str)), ("number", Int), ("opt_number", Opt(Int))):
        s.models["specs.c21." + n] = (lambda t: lambda it, a, kw: V(t, it.coerce(a[0], t)))(t)
    for n, q in (("any_call", EDGE), ("any_syntax", SYND), ("any_type", TYPD)):
        s.models["specs.c21." + n] = (lambda n, q: lambda it, a, kw: V(Ref(q), z3.Const(n, z3.IntSort())))(n, q)
    s.y_either = {"file-first": "body-first"}      # an attached difference has bodies or files
    return s


def yaml_args(*names):
    return lambda it: [V(Y, z3.Const("in!" + n, sort(Y))) for n in names]


def contracts():
    from . import c20
    return [c for c in c20.contracts() if "program" in c.name] + [
        Contract("Vertex", "specs.c21.vertex_parts", "specs.c21.new_vertex_parts", K, schema=schema),
        Contract("Edge.from_yaml", "specs.c21.edge_parts", "specs.c21.call", setup=yaml_args("callee"), schema=schema),
        Contract("SyntaxDiff.from_yaml", "specs.c21.syntax_parts", "specs.c21.syntax", setup=yaml_args("diff"), schema=schema),
        Contract("TypeDiff.from_yaml", "specs.c21.type_parts", "specs.c21.type_", setup=yaml_args("diff"), schema=schema),
        Contract("FunctionStats", "specs.c21.stats_parts", "specs.c21.stats", setup=yaml_args("left", "right"), schema=schema),
        Contract("Vertex.from_yaml", "specs.c21.from_yaml", "specs.c21.taken", [("fun_result", Y), ("graph", Ref(CG))], schema=schema),
        Contract("Vertex.from_yaml (without a graph)", "specs.c21.alone", "specs.c21.taken_alone", [("fun_result", Y)], schema=schema),
    ]

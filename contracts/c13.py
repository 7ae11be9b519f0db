from .common import *

OUT = "diffkemp.output.YamlOutput"


def schema(prog):
    s = graph_schema(prog)
    s.cls(ENTITY, name=Str, filename=Opt(Str), line=Opt(Int), callstack=Opt(Val(CALLSTACK)), diff_kind=Str, covered=Bool)
    s.cls(RES, kind=KIND, first=Ref(ENTITY), second=Ref(ENTITY), diff=Opt(Str), macro_diff=Opt(Opaque("MacroDiff")),
          graph=Opt(Ref(CG)), inner=Dict(Str, Ref(RES)), start_time=Opt(Real), stop_time=Opt(Real))
    s.val(OUT, ("old_dir", Str), ("new_dir", Str))
    s.truthy |= {CALLSTACK, CG}
    s.models[CALLSTACK + ".to_output_yaml_with_rel_path"] = ext("relative_stack", Y, pure=True)
    s.models[CALLSTACK + ".get_symbol_names"] = ext("symbols", Tuple(Set(Str), Set(Str), Set(Tuple(Str, Str))), pure=True)
    s.models["diffkemp.utils.get_end_line"] = ext("end_line", Int, pure=True, raises=("UnicodeDecodeError", "diffkemp.utils.EndLineNotFound"))
    s.stubs["os.path.relpath"] = ext("relpath", Str, pure=True)
    s.models["specs.c13.any_name"] = ext("any_name", Str, pure=True)
    return s


A = [("old", Str), ("new", Str), ("result", Ref(RES))]


def listing(prog):
    """the definitions have contracts of their own"""
    s = schema(prog)
    for n, m in (("functions", "_create_function_defs"), ("types", "_create_type_defs")):
        s.models[OUT + "." + m] = s.models["specs.c13.add_" + n] = (lambda n: lambda it, a, kw: (it.log("defs", n), NONE)[1])(n)
    return s


def blank(prog):
    """an output to which nothing was added yet"""
    s = schema(prog)
    s.models[OUT + "._create_output"] = lambda it, a, kw: NONE
    return s


def plain(prog):
    return graph_schema(prog)


def stack(it, more):
    return [V(Val(CALLSTACK), z3.Const("in!stack", sort(Val(CALLSTACK)))), V(Str, z3.String("in!" + more))]


def contracts():
    return [
        Contract("Callstack.to_output_yaml_with_rel_path", CALLSTACK + ".to_output_yaml_with_rel_path", "specs.c13.relative_stack",
                 setup=lambda it: stack(it, "prefix"), schema=plain),
        Contract("Callstack.get_symbol_names", CALLSTACK + ".get_symbol_names", "specs.c13.symbols", setup=lambda it: stack(it, "fun"), schema=plain),
        Contract("YamlOutput (results)", "specs.c13.code", "specs.c13.lists", A, logs=["defs"], schema=listing),
        Contract("YamlOutput._create_function_defs", "specs.c13.code_functions", "specs.c13.of_functions", A + [("functions", Set(Str))], schema=blank),
        Contract("YamlOutput._create_type_defs", "specs.c13.code_types", "specs.c13.of_types", A + [("types", Set(Tuple(Str, Str)))], schema=blank),
    ]

"""C13: the result file describes exactly the found differences."""
import os
from diffkemp.output import YamlOutput
from diffkemp.semdiff.caching import ComparisonGraph
from diffkemp.semdiff.result import Result
from diffkemp.utils import get_end_line, EndLineNotFound


def relative_stack(callstack, prefix):
    if callstack.calls is None:
        return []
    return [{"name": c["name"], "file": c["file"].replace(prefix, ""), "line": c["line"]} for c in callstack.calls]


def symbols(callstack, compared_fun):
    functions = set()
    macros = set()
    types = set()
    if callstack.calls:
        for i, c in enumerate(callstack.calls):
            name = c["name"]
            kind = "function"
            if " " in name:
                name, kind = name.split(" ")
            if kind == "function":
                functions.add(name)
            elif kind == "(macro)":
                macros.add(name)
            elif kind == "(type)":
                types.add((name, callstack.calls[i - 1]["name"] if i > 0 else compared_fun))
    return functions, macros, types


def code(old, new, result):
    o = YamlOutput(old, new, result)
    return o.output["old-snapshot"], o.output["new-snapshot"], o.output["results"], o.function_names, o.type_names, o.output["definitions"]


def code_functions(old, new, result, functions):
    o = YamlOutput(old, new, result)
    o.function_names = functions
    o.output["definitions"] = {}
    o._create_function_defs()
    return o.output["definitions"].get(any_name())


def code_types(old, new, result, types):
    o = YamlOutput(old, new, result)
    o.type_names = types
    o.output["definitions"] = {}
    o._create_type_defs()
    return o.output["definitions"].get(any_name())


def any_name():
    """an arbitrary name"""


def stack(entity, snapshot):
    return entity.callstack.to_output_yaml_with_rel_path(snapshot) if entity.callstack else []


def shown(difference):
    return not (difference.diff == "" and difference.first.covered)


def results(old, new, result):
    functions = set()
    macros = set()
    types = set()
    out = []
    for name, r in result.inner.items():
        if r.kind == Result.Kind.NOT_EQUAL:
            functions.add(name)
            diffs = []
            for d in sorted(r.inner.values(), key=lambda x: x.first.name):
                if shown(d):
                    diffs.append({"function": d.first.name, "old-callstack": stack(d.first, old), "new-callstack": stack(d.second, new)})
                    if d.first.callstack:
                        f, m, t = d.first.callstack.get_symbol_names(name)
                        functions.update(f)
                        macros.update(m)
                        types.update(t)
            out.append({"function": name, "diffs": diffs})
    return out, functions, types


def place(line, file, snapshot, kind):
    info = {"line": line, "file": os.path.relpath(file, snapshot)}
    try:
        info["end-line"] = get_end_line(file, line, kind)
    except (UnicodeDecodeError, EndLineNotFound):
        pass
    return info


def function_definition(v, old, new):
    d = {"kind": "function", "old": place(v.lines[0], v.files[0], old, "function"), "new": place(v.lines[1], v.files[1], new, "function")}
    if v.names[0] != v.names[1]:
        d["new"]["name"] = v.names[1]
    return d


def type_definition(t, old, new):
    return {"kind": "type", "old": place(t.line[0], t.file[0], old, "type"), "new": place(t.line[1], t.file[1], new, "type")}


def lists(old, new, result):
    listed, functions, types = results(old, new, result)
    add_functions()
    add_types()
    return old, new, listed, functions, types, {}


def add_functions():
    """the definitions of functions are added"""


def add_types():
    """the definitions of types are added"""


def of_functions(old, new, result, functions):
    g = result.graph
    found = {}
    if g is not None:
        definitions = {}
        for name in functions:
            if name in g.vertices:
                definitions[name] = function_definition(g.vertices[name], old, new)
        found.update(definitions)
    return found.get(any_name())


def of_types(old, new, result, types):
    g = result.graph
    found = {}
    if g is not None:
        definitions = {}
        for name, parent in types:
            if parent in g.vertices:
                for t in g.vertices[parent].nonfun_diffs:
                    if t.name == name and isinstance(t, ComparisonGraph.TypeDiff):
                        definitions[name] = type_definition(t, old, new)
                        break
        found.update(definitions)
    return found.get(any_name())

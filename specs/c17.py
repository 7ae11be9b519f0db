"""C17: candidate sources of a symbol are complete and ordered by priority."""
import os
from diffkemp.llvm_ir.kernel_llvm_source_builder import BuildException
from diffkemp.llvm_ir.llvm_module import LlvmModule
from diffkemp.llvm_ir.source_tree import SourceNotFoundException


def priority(item):
    """drivers, x86, other architectures after the rest"""
    if item.startswith("drivers/"):
        return "}" + item
    if item.startswith("arch/x86"):
        return "}}" + item
    if item.startswith("arch/"):
        return "}}}" + item
    return item


def tracepoint_uses(builder, symbol):
    wanted = "(" + symbol[len("__tracepoint_"):] + ");"
    return [c for c in builder._cscope_run("EXPORT_TRACEPOINT_SYMBOL", False) if c.endswith(wanted)]


def candidates(builder, symbol):
    cwd = os.getcwd()
    os.chdir(builder.source_dir)
    try:
        defs = builder._cscope_run(symbol, True)
        uses = builder._cscope_run(symbol, False)
        if any([symbol.startswith(s) for s in ["param_get_", "param_set_", "param_ops_"]]):
            defs = ["kernel/params.c"] + defs
        elif symbol.startswith("__tracepoint_"):
            defs = builder._find_tracepoint_macro_use(symbol) + defs
        elif symbol == "rcu_barrier":
            defs = ["kernel/rcutree.c"] + defs
        if len(defs) == 0 and len(uses) == 0:
            raise SourceNotFoundException(symbol)
    except SourceNotFoundException:
        if symbol != "vfree":
            raise
        uses = []
        defs = ["mm/vmalloc.c"]
    finally:
        os.chdir(cwd)
    seen = set()
    first = []
    for f in [line.split()[0] for line in defs]:
        if f not in seen:
            seen.add(f)
            first.append(f)
    first = sorted(first, key=priority)
    for wide in (True, False):
        group = []
        for f, scope in [(line.split()[0], line.split()[1]) for line in uses]:
            if (scope == "<global>") == wide and f not in seen:
                seen.add(f)
                group.append(f)
        first.extend(sorted(group, key=priority))
    return first


def definition(builder, symbol):
    """the module of the first candidate that can be built and defines the symbol"""
    found = None
    for src in builder._find_srcs_with_symbol_def(symbol):
        try:
            found = builder._build_source_to_llvm(os.path.join(builder.source_dir, src))
            if os.path.isfile(found):
                m = LlvmModule(found)
                if m.has_function(symbol) or m.has_global(symbol):
                    break
        except BuildException:
            pass
        found = None
    return found

"""C20: the comparison engine receives the requested configuration by either route."""
import os
import yaml
from subprocess import check_call, check_output, CalledProcessError
from diffkemp.semdiff.caching import ComparisonGraph
from diffkemp.simpll.simpll import run_simpll, SimpLLException
from diffkemp.simpll.simpll_lib import ffi, lib
from diffkemp.simpll.library import SimpLLModule
from diffkemp.utils import get_simpll_build_dir, get_llvm_version
from diffkemp.snapshot import Snapshot
from diffkemp.config import Config, BuiltinPatterns, ConfigException
from diffkemp.semdiff.custom_pattern_config import CustomPatternConfig


class Request:
    """What the user asked for."""


def config_of(r):
    return Config(output_llvm_ir=r.output_llvm_ir, custom_pattern_config=r.custom, print_asm_diffs=r.print_asm_diffs, extended_stat=r.extended_stat,
                  verbosity=r.verbosity, use_ffi=r.use_ffi, builtin_patterns=BuiltinPatterns(
                      struct_alignment=r.struct_alignment, function_splits=r.function_splits, unused_return_types=r.unused_return_types,
                      kernel_prints=r.kernel_prints, dead_code=r.dead_code, numerical_macros=r.numerical_macros, relocations=r.relocations,
                      type_casts=r.type_casts, control_flow_only=r.control_flow_only, inverse_conditions=r.inverse_conditions,
                      reordered_bin_ops=r.reordered_bin_ops, group_vars=r.group_vars))


class PatternStruct:
    """Stand-in for the C structure of pattern switches (zero-initialised)."""
    def __init__(self):
        self.StructAlignment = False
        self.FunctionSplits = False
        self.UnusedReturnTypes = False
        self.KernelPrints = False
        self.DeadCode = False
        self.NumericalMacros = False
        self.Relocations = False
        self.TypeCasts = False
        self.ControlFlowOnly = False
        self.InverseConditions = False
        self.ReorderedBinOps = False
        self.GroupVars = False

    def __getitem__(self, i):
        return self


class EngineStruct:
    """Stand-in for the C structure of the engine's configuration (zero-initialised)."""
    def __init__(self):
        self.CacheDir = b""
        self.CustomPatterns = b""
        self.BuiltinPatterns = PatternStruct()
        self.Variable = b""
        self.OutputLlvmIR = False
        self.PrintAsmDiffs = False
        self.PrintCallStacks = False
        self.ExtendedStat = False
        self.Verbosity = 0

    def __getitem__(self, i):
        return self


def switches(config):
    p = PatternStruct()
    s = config.builtin_patterns.settings
    p.StructAlignment = s["struct-alignment"]
    p.FunctionSplits = s["function-splits"]
    p.UnusedReturnTypes = s["unused-return-types"]
    p.KernelPrints = s["kernel-prints"]
    p.DeadCode = s["dead-code"]
    p.NumericalMacros = s["numerical-macros"]
    p.Relocations = s["relocations"]
    p.TypeCasts = s["type-casts"]
    p.ControlFlowOnly = s["control-flow-only"]
    p.InverseConditions = s["inverse-conditions"]
    p.ReorderedBinOps = s["reordered-bin-ops"]
    p.GroupVars = s["group-vars"]
    return p


def suffixed(path, suffix):
    name, ext = os.path.splitext(path)
    return "{}-{}{}".format(name, suffix, ext)


def wanted(config, var, cache_dir, patterns):
    """The engine's configuration by the library route."""
    e = EngineStruct()
    e.CacheDir = cache_dir.encode("ascii") if cache_dir else b""
    e.CustomPatterns = config.custom_pattern_config.path.encode("ascii") if config.custom_pattern_config else b""
    e.Variable = var.encode("ascii") if var else b""
    e.BuiltinPatterns = patterns
    e.OutputLlvmIR = config.output_llvm_ir
    e.PrintAsmDiffs = config.print_asm_diffs
    e.ExtendedStat = config.extended_stat
    e.PrintCallStacks = True
    e.Verbosity = config.verbosity
    return e


def command(first, second, fun_first, fun_second, var, config, suffix, cache_dir):
    """The engine's command line by the program route."""
    program = get_simpll_build_dir() + "/diffkemp/simpll/diffkemp-simpll"
    if not os.path.isfile(program):
        program = "diffkemp-simpll"
    c = [program, first, second, "--print-callstacks"]
    c.append("--fun")
    if fun_first != fun_second:
        c.append(fun_first + "," + fun_second)
    else:
        c.append(fun_first)
    if var:
        c.extend(["--var", var])
    if suffix and config.output_llvm_ir:
        c.extend(["--suffix", suffix])
    if cache_dir:
        c.extend(["--cache-dir", cache_dir])
    if config.custom_pattern_config:
        c.extend(["--custom-pattern-config", config.custom_pattern_config.path])
    for name, on in config.builtin_patterns.settings.items():
        c.append("--" + name + "=" + str(on))
    if config.output_llvm_ir:
        c.append("--output-llvm-ir")
    if config.print_asm_diffs:
        c.append("--print-asm-diffs")
    if config.extended_stat:
        c.append("--extended-stat")
    if config.verbosity > 0:
        c.extend(["--verbosity", str(config.verbosity)])
    return c


def cached(module_cache, modules_to_cache, module, patterns):
    if module not in module_cache and module in modules_to_cache:
        module_cache[module] = SimpLLModule(module)
        lib.preprocessModuleC(module_cache[module].pointer, patterns)


def by_library(first, second, out_first, out_second, fun_first, fun_second, var, config, cache_dir, module_cache, modules_to_cache):
    patterns = switches(config)
    wish = [] if modules_to_cache is None else modules_to_cache
    cached(module_cache, wish, first, patterns)
    cached(module_cache, wish, second, patterns)
    e = wanted(config, var, cache_dir, patterns)
    output = ffi.new("char [1000000]")
    if module_cache and first in module_cache and second in module_cache:
        r, w = os.pipe()
        if os.fork() == 0:
            lib.runSimpLL(module_cache[first].pointer, module_cache[second].pointer, out_first.encode("ascii"), out_second.encode("ascii"),
                          fun_first.encode("ascii"), fun_second.encode("ascii"), e, output)
            os.write(w, ffi.string(output))
            os._exit(0)
        text = os.fdopen(r).read()
        if ended():
            raise SimpLLException("failed")
        return text
    lib.parseAndRunSimpLL(first.encode("ascii"), second.encode("ascii"), out_first.encode("ascii"), out_second.encode("ascii"),
                          fun_first.encode("ascii"), fun_second.encode("ascii"), e, output)
    return ffi.string(output)


def ended():
    """Whether the engine's process failed."""
    return os.waitpid(0, 0)[1] != 0


def by_program(first, second, fun_first, fun_second, var, config, suffix, cache_dir):
    try:
        return check_output(command(first, second, fun_first, fun_second, var, config, suffix, cache_dir))
    except CalledProcessError:
        raise SimpLLException("failed")


def clean_up(path):
    passes = "-passes=module(deadargelim)" if get_llvm_version() >= 16 else "-deadargelim"
    check_call(["opt", path, passes, "-S", "-o", path])


def engine(first, second, fun_first, fun_second, var, request, suffix, cache_dir, module_cache, modules_to_cache):
    config = config_of(request)
    out_first = suffixed(first, suffix) if suffix else first
    out_second = suffixed(second, suffix) if suffix else second
    if config.use_ffi:
        text = by_library(first, second, out_first, out_second, fun_first, fun_second, var, config, cache_dir, module_cache, modules_to_cache)
    else:
        text = by_program(first, second, fun_first, fun_second, var, config, suffix, cache_dir)
    if config.output_llvm_ir:
        clean_up(out_first)
        clean_up(out_second)
    graph = ComparisonGraph()
    try:
        data = yaml.safe_load(text)
    except yaml.YAMLError:
        raise SimpLLException("invalid")
    if not isinstance(data, dict):
        raise SimpLLException("invalid")
    if "function-results" in data:
        for r in data["function-results"]:
            v = ComparisonGraph.Vertex.from_yaml(r, graph)
            if "." in v.names[0]:
                graph.vertices[v.names[0]] = v
            else:
                graph.vertices[v.names[1]] = v
    graph.normalize()
    graph.populate_predecessor_lists()
    graph.mark_uncachable_from_assumed_equal()
    missing = data["missing-defs"] if "missing-defs" in data else None
    return out_first, out_second, graph.vertices.get(any_name()), missing


def any_name():
    """An arbitrary name."""


def code(first, second, fun_first, fun_second, var, request, suffix, cache_dir, module_cache, modules_to_cache):
    a, b, graph, missing = run_simpll(first, second, fun_first, fun_second, var, config_of(request), suffix, cache_dir, module_cache, modules_to_cache)
    return a.llvm, b.llvm, graph.vertices.get(any_name()), missing


class Args:
    """Parsed command line."""


def parsed(args):
    c = Config.from_args(args)
    p = c.builtin_patterns.settings
    return (c.snapshot_first, c.snapshot_second, c.custom_pattern_config, c.output_llvm_ir, c.print_asm_diffs, c.extended_stat, c.verbosity, c.use_ffi,
            p["struct-alignment"], p["function-splits"], p["unused-return-types"], p["kernel-prints"], p["dead-code"], p["numerical-macros"],
            p["relocations"], p["type-casts"], p["control-flow-only"], p["inverse-conditions"], p["reordered-bin-ops"], p["group-vars"])


def chosen(args, name, default):
    """Whether a pattern is on: its own options win over those for all; off wins over on."""
    general = "all" not in args.disable_pattern and (default or "all" in args.enable_pattern)
    return name not in args.disable_pattern and (general or name in args.enable_pattern)


def request(args):
    first = Snapshot.load_from_dir(args.snapshot_dir_old)
    second = Snapshot.load_from_dir(args.snapshot_dir_new)
    if args.function:
        first.filter([args.function])
        second.filter([args.function])
    custom = CustomPatternConfig.create_from_file(args.custom_patterns) if args.custom_patterns else None
    flow = chosen(args, "control-flow-only", False)
    return (first, second, custom, args.output_llvm_ir, args.print_asm_diffs, args.extended_stat, args.verbose, not args.disable_simpll_ffi,
            chosen(args, "struct-alignment", True), chosen(args, "function-splits", True), chosen(args, "unused-return-types", True),
            chosen(args, "kernel-prints", True), chosen(args, "dead-code", True), chosen(args, "numerical-macros", True),
            chosen(args, "relocations", True), flow or chosen(args, "type-casts", False), flow,
            chosen(args, "inverse-conditions", True), chosen(args, "reordered-bin-ops", True), chosen(args, "group-vars", True))

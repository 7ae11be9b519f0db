"""C08: a function is reported equal only if nothing differs; failures become errors."""
from diffkemp.llvm_ir.source_tree import SourceNotFoundException
from diffkemp.semdiff.function_diff import functions_semdiff, _link_symbol_def
from diffkemp.semdiff.result import Result
from diffkemp.simpll.simpll import run_simpll, SimpLLException
from diffkemp.syndiff.function_syntax_diff import syntax_diff

K = Result.Kind


def link(snapshot, module, symbol):
    since = None
    if snapshot.created_time:
        since = snapshot.created_time.timestamp()
    found = None
    try:
        found = snapshot.snapshot_tree.get_module_for_symbol(symbol, since)
    except SourceNotFoundException:
        if snapshot.source_tree is not None:
            try:
                found = snapshot.source_tree.get_module_for_symbol(symbol, since)
            except SourceNotFoundException:
                found = None
    if not found:
        return False
    linked = module.link_modules([found])
    found.clean_module()
    return linked


def link_missing(config, first, second, missing):
    again = False
    for pair in missing:
        if "first" in pair:
            if _link_symbol_def(config.snapshot_first, first, pair["first"]):
                again = True
        if "second" in pair:
            if _link_symbol_def(config.snapshot_second, second, pair["second"]):
                again = True
    return again


def decided(known, fun):
    """an earlier comparison gave a verdict for this function in this file"""
    return known is not None and fun in known.vertices and known.vertices[fun].result != K.ASSUMED_EQUAL \
        and known.vertices[fun].same_file()


def listed(r, config):
    """the textual diff of a pair (None: not made); a pair without any difference is not listed"""
    if r.kind != K.NOT_EQUAL and not config.full_diff:
        return True
    return r.kind == K.NOT_EQUAL or r.diff != ""


def text(r, pair, lb, rb, config):
    if not (r.kind == K.NOT_EQUAL or config.full_diff):
        return r.diff
    kind = pair[0].diff_kind
    if kind == "function" or kind == "type":
        return syntax_diff(pair[0].filename, pair[1].filename, pair[0].name, kind, pair[0].line, pair[1].line)
    if kind == "syntactic":
        return "  {}\n\n  {}\n".format(lb[pair[0].name], rb[pair[1].name])
    return "unknown\n"


def compare(first, second, fun_first, fun_second, var, config, known, cache, modules, preload):
    result = Result(K.NONE, fun_first, fun_second)
    graph = None
    try:
        again = True
        while again:
            again = False
            if decided(known, fun_first):
                left = right = ""
                graph = known
            else:
                left, right, graph, missing = run_simpll(
                    first=first.llvm, second=second.llvm, fun_first=fun_first, fun_second=fun_second,
                    var=var.name if var is not None else None, config=config, suffix=var.name if var is not None else "simpl",
                    cache_dir=cache.directory if cache is not None else None, module_cache=modules, modules_to_cache=preload)
                if missing:
                    again = link_missing(config, first, second, missing)
                if known is not None and not again:
                    known.absorb_graph(graph)
                    graph = known
                    if cache is not None:
                        cache.update([v for v in graph.vertices.values() if v.result != K.UNKNOWN and v.result != K.ASSUMED_EQUAL])
        pairs, lb, rb = graph.graph_to_fun_pair_list(fun_first, fun_second, config.full_diff)
        first.restore_unlinked_llvm()
        second.restore_unlinked_llvm()
        if not pairs:
            result.kind = K.EQUAL
        else:
            for pair in pairs:
                if pair[0].diff_kind != "function" and config.semdiff_tool is not None:
                    r = functions_semdiff(left, right, pair[0].name, pair[1].name, config)
                else:
                    r = Result(pair[2], fun_first, fun_second)
                r.first = pair[0]
                r.second = pair[1]
                r.diff = text(r, pair, lb, rb, config)
                result.kind = max(result.kind, r.kind)
                if listed(r, config):
                    result.inner[r.first.name] = r
    except (ValueError, SimpLLException):
        result.kind = K.ERROR
    result.graph = graph if graph is not None else known
    return result


def verdict(first, second, fun_first, fun_second, var, config, known, cache, modules, preload, r):
    return r.kind, r.graph


def parts(first, second, fun_first, fun_second, var, config, known, cache, modules, preload, r):
    return [(k, x.kind, x.first, x.second, x.diff) for k, x in r.inner.items()]

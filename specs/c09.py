"""C09: every function present in both snapshots gets exactly one verdict."""
import os
import re
import sys
import errno
from timeit import default_timer
from tempfile import mkdtemp
from diffkemp.config import Config
from diffkemp.diffkemp import default_output_dir, print_syntax_diff, _get_modules_to_cache
from diffkemp.llvm_ir.llvm_module import LlvmModule, LlvmParam
from diffkemp.output import YamlOutput
from diffkemp.semdiff.caching import SimpLLCache
from diffkemp.semdiff.function_diff import functions_diff
from diffkemp.semdiff.result import Result


class Args:
    pass


def destination(args):
    """where differences are written, if they are"""
    if args.stdout:
        return None
    if args.output_dir:
        if os.path.isdir(args.output_dir):
            sys.stderr.write("Error: output directory exists\n")
            sys.exit(errno.EEXIST)
        return args.output_dir
    return default_output_dir(args.snapshot_dir_old, args.snapshot_dir_new)


def filtered(args, r):
    """only a difference none of whose diffs matches is turned into equal"""
    if args.regex_filter is not None and r.kind == Result.Kind.NOT_EQUAL:
        pattern = re.compile(args.regex_filter)
        for d in r.inner.values():
            if d.diff is not None and pattern.search(d.diff):
                break
        else:
            r.kind = Result.Kind.EQUAL


def run(args):
    out = destination(args)
    config = Config.from_args(args)
    result = Result(Result.Kind.NONE, args.snapshot_dir_old, args.snapshot_dir_old, start_time=default_timer())
    for group_name, group in sorted(config.snapshot_first.fun_groups.items()):
        titled = False
        where = os.path.join(out, group_name) if out is not None and group_name is not None else None
        graph = None
        cache = SimpLLCache(mkdtemp())
        loaded = {}
        wanted = _get_modules_to_cache(group.functions.items(), group_name, config.snapshot_second, 2) if args.enable_module_cache else set()
        for fun, old in sorted(group.functions.items()):
            new = config.snapshot_second.get_by_name(fun, group_name)
            if not new:
                continue
            if old.mod is None or new.mod is None:
                result.add_inner(Result(Result.Kind.UNKNOWN, fun, fun))
                if group_name is not None and not titled:
                    print("{}:".format(group_name))
                    titled = True
                print("{}: unknown".format(fun))
                continue
            r = functions_diff(mod_first=old.mod, mod_second=new.mod, fun_first=fun, fun_second=fun,
                               glob_var=LlvmParam(old.glob_var) if old.glob_var else None, config=config,
                               prev_result_graph=graph, function_cache=cache, module_cache=loaded, modules_to_cache=wanted)
            graph = r.graph
            filtered(args, r)
            result.add_inner(r)
            if r.kind == Result.Kind.NOT_EQUAL or config.full_diff:
                if out is not None:
                    if not os.path.isdir(out):
                        os.mkdir(out)
                if where is not None:
                    if not os.path.isdir(where):
                        os.mkdir(where)
                elif group_name is not None and not titled:
                    print("{}:".format(group_name))
                    titled = True
                print_syntax_diff(snapshot_dir_old=args.snapshot_dir_old, snapshot_dir_new=args.snapshot_dir_new, fun=fun, fun_result=r,
                                  fun_tag=old.tag, output_dir=where if where else out, show_diff=config.show_diff,
                                  full_diff=config.full_diff, initial_indent=2 if group_name is not None and where is None else 0)
            elif r.kind == Result.Kind.UNKNOWN or r.kind == Result.Kind.ERROR:
                if group_name is not None and not titled:
                    print("{}:".format(group_name))
                    titled = True
                print("{}: {}".format(fun, str(r.kind)))
            old.mod.clean_module()
            new.mod.clean_module()
            LlvmModule.clean_all()
    if out is not None and os.path.isdir(out):
        YamlOutput(snapshot_dir_old=os.path.join(os.path.abspath(args.snapshot_dir_old), ""),
                   snapshot_dir_new=os.path.join(os.path.abspath(args.snapshot_dir_new), ""), result=result).save(output_dir=out, file_name="diffkemp-out.yaml")
    config.snapshot_first.finalize()
    config.snapshot_second.finalize()
    if out is not None and os.path.isdir(out):
        print("Differences stored in {}/".format(out))
    if args.report_stat or args.extended_stat:
        print("")
        print("Statistics")
        print("----------")
        result.stop_time = default_timer()
        result.report_stat(args.show_errors, args.extended_stat)
    return 0


def indented(text, width):
    return "".join([" " * width + line for line in text.splitlines(True)])


def show(snapshot_dir_old, snapshot_dir_new, fun, fun_result, fun_tag, output_dir, show_diff, full_diff, initial_indent):
    """every difference that is not empty and covered is written with its call stacks"""
    old = os.path.join(os.path.abspath(snapshot_dir_old), "")
    new = os.path.join(os.path.abspath(snapshot_dir_new), "")
    if not (fun_result.kind == Result.Kind.NOT_EQUAL or full_diff and any([x.diff for x in fun_result.inner.values()])):
        return
    if output_dir:
        out = open(os.path.join(output_dir, "{}.diff".format(fun)), "w")
        out.write("Found differences in functions called by {}".format(fun))
        if fun_tag is not None:
            out.write(" ({})".format(fun_tag))
        out.write("\n\n")
        indent = initial_indent + 2
    else:
        out = sys.stdout
        if fun_tag is not None:
            out.write(indented("{} ({}):\n".format(fun, fun_tag), initial_indent))
        else:
            out.write(indented("{}:\n".format(fun), initial_indent))
        indent = initial_indent + 4
    for r in sorted(fun_result.inner.values(), key=lambda r: r.first.name):
        if r.diff == "" and r.first.covered:
            continue
        out.write(indented("{} differs:\n".format(r.first.name), indent - 2))
        if not output_dir:
            out.write(indented("{{{\n", indent - 2))
        if r.first.callstack:
            out.write(indented("Callstack ({}):\n".format(snapshot_dir_old), indent))
            out.write(indented(r.first.callstack.as_str_with_rel_paths(old), indent))
            out.write("\n\n")
        if r.second.callstack:
            out.write(indented("Callstack ({}):\n".format(snapshot_dir_new), indent))
            out.write(indented(r.second.callstack.as_str_with_rel_paths(new), indent))
            out.write("\n\n")
        if show_diff:
            if r.diff.strip() == "" and r.macro_diff is not None:
                out.write(indented("\n".join(map(str, r.macro_diff)), indent))
            else:
                out.write(indented("Diff:\n", indent))
                out.write(indented(r.diff, indent))
        if not output_dir:
            out.write(indented("}}}\n", indent - 2))
        out.write("\n")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text of the properties lives here; run after editing."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": list(observe), "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


D = "diffkemp/"
prop("C01", "A composite verdict is the worst verdict of its parts",
     """The verdict of a composite comparison result (a function with its inner differences, a group, a whole run) is
     always the most severe verdict among its own initial verdict and those of all parts added to it, on the scale none
     < equal < assumed equal < not equal < unknown < timeout < error, whatever the order and number of additions. Every
     part added under a distinct name stays listed, the most recently added one wins among equal names, and each
     textual verdict produced by the comparator maps to the verdict of the same name (any other text is refused).""",
     ["inputs", "histories"], "all sequences of added inner results, all initial verdicts, all verdict texts",
     "Tests add one or two inner results in one fixed order; the aggregate must hold for every order and multiset.",
     [D + "semdiff/result.py"],
     [("join of inner results", "Result.add_inner"), ("verdict scale", "Result.Kind"),
      ("verdict text mapping", "Result.Kind.from_string")],
     [("Result.kind", "verdict", "diffkemp/semdiff/result.py"), ("Result.inner", "parts", "diffkemp/semdiff/result.py")])

prop("C02", "Exactly the differing functions reachable from both versions are reported",
     """For a compared function, the reported function differences are exactly the function pairs that the comparison found
     not to be equal (or, when full diffs are requested, all that are not assumed equal) and that are reached from the
     compared function in both versions by following calls: the function itself, or the target of an ordinary (strong)
     call made by a function reached through any mix of weak and strong calls, where calls into another C source file
     than the compared function's are not followed. Each such pair is reported exactly once with its own verdict, names,
     files and lines, and with each of its attached syntactic and type differences, and nothing else is reported.""",
     ["inputs"], "all comparison graphs (any shape, including cycles, weak/strong parallel paths, dangling calls) and all start functions",
     "The unit tests walk three fixed small graphs without weak/strong conflicts; reachability must be right on every graph.",
     [D + "semdiff/caching.py"],
     [("breadth-first walk", "ComparisonGraph.reachable_from"),
      ("report extraction", "ComparisonGraph.graph_to_fun_pair_list")],
     [("successors", "calls per side", "ComparisonGraph.Vertex")])

prop("C03", "Reported call stacks are genuine call paths",
     """Every call stack attached to a reported function difference is a genuine path in the comparison graph of its
     version: the first call is made by the compared function, each following call is made by the function the previous
     call targets, and the last call targets the reported function; no call stack is attached exactly when the reported
     function is the compared one. The path of a syntactic or type difference is the path to the function containing it
     followed by the path recorded for the difference itself.""",
     ["inputs"], "all comparison graphs and start functions",
     "Tests compare one call stack of length at most two against a fixed string.",
     [D + "semdiff/caching.py", D + "semdiff/result.py"],
     [("backtracking map", "ComparisonGraph.reachable_from"), ("path reconstruction", "_get_callstack"),
      ("conversion", "Result.Callstack.from_edge_objects / from_simpll_yaml")])

prop("C04", "Merging comparison results never loses or degrades known results",
     """After merging the results of one comparison into the accumulated ones, every function known before or newly
     compared is still present. An accumulated result is replaced only by a newly obtained result for the same function,
     and only if the accumulated one is assumed equal or unknown, or is a difference across different files that the new
     one refutes, or the new one records more calls in one of the versions; otherwise it is kept unchanged, so a known
     definitive verdict is never replaced by an unknown or assumed one that carries no additional calls.""",
     ["histories", "inputs"], "all pairs of graphs and all merge sequences",
     "Tests merge two fixed graphs; the outcome for every combination of verdicts, files and call lists is not sampled.",
     [D + "semdiff/caching.py"],
     [("merge", "ComparisonGraph.absorb_graph"), ("priority", "Vertex.compare_vertex_priority")])

prop("C05", "Functions stripped of unused returns are folded back into their originals",
     """After the raw results of a comparison are normalised, no result and no call refers to a generated void-returning
     variant: a variant's result is dropped if the original function has its own result, and otherwise becomes the
     original's result, with equal weakened to assumed equal and any other verdict kept. Calls to a variant lead to the
     original, and are weak exactly if they were weak already or the variant (or a variant with the same base called from
     the same function) was found equal; all other results and calls are unchanged.""",
     ["inputs"], "all raw comparison graphs whose variant calls have results",
     "One test normalises one hand-built graph; the relation must hold for all graphs and all mixes of variants.",
     [D + "semdiff/caching.py"], [("normalisation", "ComparisonGraph.normalize"), ("registration", "ComparisonGraph.add_edge, __setitem__")])

prop("C06", "Only results that cannot change later are offered for reuse",
     """A result is offered for reuse in later comparisons (written to the function cache) only if it is a definitive
     verdict (neither unknown nor assumed equal) and is reusable. In a freshly analysed result graph exactly the
     functions defined in headers that call, possibly through other functions defined in headers, a function outside of
     headers whose verdict is assumed equal are not reusable; and after merging, a result stays non-reusable as long as
     one of the assumed-equal results that made it so is still in place.""",
     ["inputs", "histories"], "all graphs, all sequences of merges",
     "Tests mark and reset one fixed chain; the dependency closure and its undo over several causes are never sampled.",
     [D + "semdiff/caching.py", D + "semdiff/function_diff.py"],
     [("marking", "mark_uncachable_from_assumed_equal"), ("predecessors", "populate_predecessor_lists"),
      ("reset", "absorb_graph"), ("filter", "SimpLLCache.update, functions_diff")])

prop("C07", "The function cache lists each reusable pair under its source-file pair",
     """After any sequence of updates, the cache directory holds one file per pair of source files of the reusable results
     passed so far, each with one "left:right" line per passed reusable result of that file pair in the order passed,
     and nothing else; results that are not reusable leave no trace. Clearing the cache removes exactly these files and
     the directory.""",
     ["inputs", "histories"], "all sequences of updates and clears, all name and file combinations",
     "One test writes one pair of files once; append-over-many-updates and grouping are sampled once.",
     [D + "semdiff/caching.py"], [("grouping", "SimpLLCache.update"), ("writing", "SimpLLCache.CacheFile.add_function_pairs"),
                                  ("clearing", "SimpLLCache.clear")])

prop("C08", "A function is reported equal only if nothing differs; failures become errors",
     """The comparison of one function ends with equal exactly when its comparison graph contains no difference to report
     for it; a failure of the comparison engine or an input that cannot be read ends with error, never with equal. Both
     modules are back in their unlinked form after a completed comparison, a missing definition that can be found and
     linked leads to a renewed comparison before any verdict is given, and only differences (or, with full diffs, results
     with a non-empty diff) are listed.""",
     ["inputs", "fault_sequences"], "all comparison graphs, all outcomes (including failures) of the comparison engine, the linker and the differ",
     "All tests of this path need kernel sources that are not available; every engine outcome and failure must be handled.",
     [D + "semdiff/function_diff.py", D + "simpll/simpll.py"],
     [("driver", "functions_diff"), ("linking", "_link_symbol_def"), ("engine call", "run_simpll")])

prop("C09", "Every function present in both snapshots gets exactly one verdict",
     """A comparison run gives a verdict for every function that both snapshots list in the same group and for no other;
     the verdict is unknown when one of the snapshots has no module for it and otherwise it is the one its comparison
     produced, except that a regular-expression filter may only turn a difference none of whose diffs matches into
     equal. In particular an error or unknown result is never turned into equal, and each difference is written or
     printed.""",
     ["inputs", "configurations"], "all snapshot pairs, comparison outcomes and command-line options",
     "compare() is exercised only by regression tests that need kernel sources which are not available.",
     [D + "diffkemp.py", D + "snapshot.py"], [("driver", "compare"), ("lookup", "Snapshot.get_by_name"), ("printing", "print_syntax_diff")])

prop("C10", "A stored snapshot lists the functions it was created with",
     """Writing a snapshot's function list and reading it back gives the same groups and, in each, the same functions with
     the same global variable and tag, with a module at the same place relative to the snapshot directory exactly for the
     functions that had one. Adding a function to a group changes only that entry, looking one up returns the entry last
     added under that name and group or nothing, the module set is exactly the modules of the listed functions, and
     filtering keeps exactly the requested functions of the group with their entries.""",
     ["inputs", "histories"], "all snapshots, list kinds, groups and function descriptions",
     "Tests round-trip two fixed lists; names, groups and missing modules combine freely.",
     [D + "snapshot.py"], [("writing", "Snapshot.to_yaml"), ("reading", "Snapshot._from_yaml"),
                           ("list", "add_fun, get_by_name, filter, modules")])

prop("C12", "Symbol lists are taken over completely and each symbol recorded once",
     """Reading a symbol list yields, in file order, every line stripped of surrounding whitespace whose first character is
     a letter or an underscore, and no other line. Building a snapshot from such a list records every symbol, with the
     module found for it exactly if that module defines the function, and with no module if the symbol is not a
     function there or no source is found; a symbol whose source cannot be found never aborts the remaining ones.""",
     ["inputs"], "all symbol lists and all outcomes of looking up each symbol",
     "No unit test reads a symbol list or fails a lookup in the middle of one.",
     [D + "diffkemp.py"], [("reading", "read_symbol_list"), ("recording", "generate_from_function_list")])

prop("C13", "The result file describes exactly the found differences",
     """The machine-readable result lists exactly the compared functions that are not equal, each with its differences in
     name order except those that are empty and covered by an attached difference, with the old and new call stacks made
     relative to their snapshot directories. Definitions are given for every function that is listed or occurs on a listed
     old call stack and has a known result (with its files, start lines, end lines where they can be determined, and
     its new name where that differs), and for every type on such a call stack recorded with its parent function.""",
     ["inputs"], "all comparison results",
     "The existing tests never build this output.",
     [D + "output.py", D + "semdiff/result.py"],
     [("results", "YamlOutput._create_results"), ("definitions", "YamlOutput._create_function_defs, _create_type_defs"),
      ("symbols", "Result.Callstack.get_symbol_names")])

prop("C14", "Shown diffs carry the line numbers of the original files",
     """A diff of two code fragments is computed from exactly the lines from the start to the end line (inclusive) of each
     file, and every line number shown in it is the number of that line in the original file: the fragment-relative
     number shifted by the start line of its own side minus one, with the rest of the diff unchanged. An empty diff stays
     empty, and a fragment whose end or text cannot be determined yields the could-not-obtain message instead of a diff.""",
     ["inputs"], "all files, all fragment positions, all diffs",
     "The diff tests need kernel sources that are not available; line arithmetic must hold for every position.",
     [D + "syndiff/function_syntax_diff.py"],
     [("fragment", "extract_code, make_diff"), ("context diff", "syntax_diff"), ("unified diff", "unified_syntax_diff")])

prop("C15", "The end of a definition is its first closing line",
     """For a function or type starting at a line of a source file, the reported end is the number of the first line at or
     after the start that consists of nothing but the closing token of that kind of definition and trailing whitespace
     ("}" or ");" for functions, "};" for types); if there is none the failure is signalled and no line is returned. The
     reported end is never before the start nor beyond the file.""",
     ["inputs"], "all files and start lines",
     "No test covers files where the token is missing, indented, or precedes the start line.",
     [D + "utils.py"], [("search", "get_end_line")])

prop("C16", "Kernel build commands are translated without losing semantic options",
     """Translating a GCC command keeps, in order and with quotes removed, every option that is not a warning, machine,
     code-generation, optimisation, debug or output option (so all include paths, definitions, undefinitions, language
     standards and the source file), prefixes it with the fixed LLVM-emitting clang options and directs the output to the
     source's name with the suffix .ll; debug hashes are neutralised and a command with no C source is refused.
     Translating a linker command keeps exactly the object files, renamed from .o to .ll, and the output marker, in
     order; in a list of commands compile and link steps are translated in order except those for the module's own
     .mod and .ko files.""",
     ["inputs"], "all command lines",
     "The tests compare three fixed commands and need kernel sources that are not available here.",
     [D + "llvm_ir/kernel_llvm_source_builder.py"],
     [("compile", "_gcc_to_llvm"), ("link", "_ld_to_llvm"), ("sequence", "_kbuild_to_llvm_commands"), ("quotes", "_strip_bash_quotes")])

prop("C17", "Candidate sources of a symbol are complete and ordered by priority",
     """The candidate source files for a symbol are exactly the files that the code index lists as defining or using it
     (plus the fixed ones for symbols generated by the preprocessor), each exactly once, grouped as definitions first,
     then global uses, then other uses, and within a group non-driver non-architecture files first, then drivers, then
     x86, then other architectures, alphabetically. A symbol the index does not know is signalled as not found, and the
     working directory is the same afterwards in every case.""",
     ["inputs", "fault_sequences"], "all index contents and symbols",
     "The tests need kernel sources; ordering and uniqueness must hold for every index content.",
     [D + "llvm_ir/kernel_llvm_source_builder.py"],
     [("ordering", "_find_srcs_with_symbol_def"), ("selection", "find_llvm_with_symbol_def"), ("tracepoints", "_find_tracepoint_macro_use")])

prop("C18", "The compiler wrapper mirrors build steps and never hides failures",
     """The wrapper always runs the original compiler first with the original arguments and reports failure exactly when
     that fails or its settings are missing; a failing LLVM step never fails the build. The mirrored command compiles to
     the object's .ll file, links object inputs as .ll files into a .llw file, or compiles and links sources, dropping
     the options to drop and appending those to append; probes (conftest) and steps whose named output is neither are
     not mirrored. The database gets an entry for the output only after a successful mirrored step whose output exists,
     marked as compiled or linked.""",
     ["inputs", "fault_sequences"], "all argument lists, environments and outcomes of the two compilers",
     "The wrapper has no tests.",
     [D + "building/cc_wrapper.py"], [("translation", "wrapper"), ("processes", "check_call")])

prop("C19", "Pattern options take effect as given",
     """After reading the command line every built-in pattern that can be named there is on if it was explicitly enabled
     (or all were) and not disabled, off if it was disabled (or all were, and it was not enabled by name), and at its
     default otherwise; the only exception is that comparing control flow only always turns ignoring type casts on. Every
     pattern accepted on the command line is one the comparison knows, and conversely.""",
     ["configurations", "inputs"], "all combinations of enabled and disabled patterns",
     "No test varies the pattern options; there are 2^24 combinations and an option name nobody tested.",
     [D + "config.py", D + "cli.py"], [("resolution", "BuiltinPatterns.update_from_args, resolve_dependencies"),
                                      ("names", "make_argument_parser")])

prop("C20", "The comparison engine receives the requested configuration by either route",
     """Whether the comparison engine is called as a library or as a program, it receives the same modules, functions,
     variable, cache directory, custom-pattern file, pattern switches, and output options, each being the one the user
     asked for, with nothing swapped, dropped or defaulted; output modules are written under the module's own name with
     the suffix inserted before its extension. The same engine output leads to the same result graph by either route,
     and a failing engine is signalled as such by either route.""",
     ["configurations", "inputs", "fault_sequences"], "all configurations, function names, variables and engine outcomes",
     "Only the library route with one configuration is ever executed by (unavailable) regression tests.",
     [D + "simpll/simpll.py", D + "config.py", D + "simpll/library/FFI.cpp", D + "simpll/SimpLL.cpp"],
     [("call", "run_simpll"), ("switches", "BuiltinPatterns.as_ffi_struct, BuiltinPatternsFromC"), ("names", "add_suffix")])

prop("C21", "Engine results are taken over faithfully into the comparison graph",
     """Every function result the comparison engine prints becomes one entry of the comparison graph with the same verdict,
     function names, files, lines and statistics, the same calls per version in order with their file, line and weakness,
     and the same attached syntactic and type differences with each version's data on its own side. The entry is found
     under the variant's name if one of its functions is a generated variant and under the function's own name otherwise.""",
     ["inputs"], "all engine outputs of the documented shape",
     "The tests convert two fixed outputs; left/right and optional-field mix-ups need asymmetric inputs.",
     [D + "semdiff/caching.py", D + "simpll/simpll.py"],
     [("conversion", "Vertex.from_yaml, Edge.from_yaml, SyntaxDiff.from_yaml, TypeDiff.from_yaml"), ("keys", "run_simpll")])

prop("C22", "Sysctl names and patterns resolve to the right table and entries",
     """A sysctl option's entry matches a pattern component exactly if the component is "*", or a braced list containing
     the entry's name, or the name itself. The definition table of an option is the one of its family (base, core network,
     IPv4 or IPv4 device table), reached by following the child of each further component; an option of an unsupported
     family, or whose components lead to no table, is signalled as not found. Building from a list of options records, for
     each entry of each option that is found, its handler function and every other function using its data variable, in the
     entry's group, and goes on when an option, a handler or the users of a variable are not found.""",
     ["inputs"], "all names and patterns, all lists of options",
     "One test samples a few patterns; table selection needs kernel sources.",
     [D + "llvm_ir/llvm_sysctl_module.py", D + "llvm_ir/kernel_source_tree.py", D + "diffkemp.py", D + "simpll/library/SysctlTable.cpp"],
     [("matching", "matches"), ("table", "KernelSourceTree.get_sysctl_module"), ("list", "generate_from_sysctl_list")])

prop("C23", "Custom pattern files are all validated and used",
     """Every pattern file named by the configuration (or given directly) is read and verified, and those that are valid
     LLVM IR pattern files are exactly the ones used; an unreadable file, and in the default strict mode an invalid or
     unsupported one, is refused, while in warning mode it is reported and loading goes on with the others. A
     configuration naming patterns with an unknown failure mode is refused.""",
     ["inputs", "fault_sequences"], "all configurations and outcomes of verifying each file",
     "No unit test loads a pattern configuration.",
     [D + "semdiff/custom_pattern_config.py"], [("loading", "_load_yaml, add_pattern, _add_llvm_pattern, _on_parse_failure")])

prop("C24", "Statistics count every compared symbol in the right class",
     """The symbol statistics report the number of compared functions, and of those the numbers that are equal, not equal,
     not equal with only empty diffs, unknown, and failed (error or timeout), each as an exact count of the results with
     that verdict and as its share of the total. The detailed statistics count each distinct reported difference once
     (leaving out empty covered ones), classified as function, type, macro or assembly difference, and sum instructions
     and lines over both versions of all compared functions.""",
     ["inputs"], "all result sets",
     "The statistics are not tested.",
     [D + "semdiff/result.py", D + "semdiff/caching.py"],
     [("symbols", "Result.report_symbol_stat"), ("objects", "Result.report_object_stat"), ("sums", "FunctionStats")])

prop("C25", "Module lookup and linking never leave a module in a wrong state",
     """A module is given out for a symbol only if its file exists and, when a time limit is set, was not modified after
     it; the same file always yields the same module object. Linking reports success exactly if a module not linked before
     became linked, a failing link leaves the module as it was, and after any number of links, restoring brings the
     module back to its original file with nothing linked.""",
     ["histories", "fault_sequences"], "all sequences of link and restore, all outcomes of the linker, all file states",
     "Tests link one module of one kernel (unavailable here); failing links are never tried.",
     [D + "llvm_ir/source_tree.py", D + "llvm_ir/llvm_module.py"],
     [("lookup", "SourceTree.get_module_for_symbol"), ("link", "LlvmModule.link_modules, restore_unlinked_llvm")])

prop("C26", "Modules moved to a snapshot keep their relative place and code",
     """Copying modules into a snapshot puts every module and every source file it includes from inside the project at the
     same place relative to the new root, without touching files outside either root; in the copied module the old root
     is replaced by the new one except on lines defining constants, which stay as they are. Sources outside the project
     and already copied ones are not copied, and modules outside the old root are left where they are.""",
     ["inputs"], "all sets of modules, included files and directory layouts",
     "Tests copy one kernel file (unavailable here).",
     [D + "llvm_ir/source_tree.py", D + "llvm_ir/llvm_module.py"],
     [("copy", "SourceTree.copy_source_files"), ("move", "LlvmModule.move_to_other_root_dir")])

prop("C27", "Only modules used often enough are preloaded",
     """The set of modules to preload consists of exactly the module files that occur at least the requested number of
     times among the old and new modules of the functions present in both snapshots; a function missing from the other
     snapshot or without a module contributes nothing for what is missing.""",
     ["inputs"], "all snapshots and thresholds",
     "Module caching is not tested.",
     [D + "diffkemp.py"], [("selection", "_get_modules_to_cache")])

prop("C30", "Functions without a body are equal only by name, others only by comparison",
     """The comparison engine gives two functions, neither of which is known from the cache, the verdict equal only if the
     final comparison of their bodies found no difference; if one has no body the verdict is assumed equal when their
     names without generated suffixes agree and not equal otherwise, never equal. A pair where exactly one body is
     missing and the names agree is listed as having a missing definition (unless only control flow is compared), and a
     pair known from the cache gets the verdict unknown.""",
     ["inputs", "configurations"], "all pairs of functions, configurations, cache contents and inlining outcomes",
     "C++ tests compare a few pairs; the verdict table over bodies, names, suffixes, cache and inlining is not covered.",
     [D + "simpll/ModuleComparator.cpp", D + "simpll/Utils.cpp"],
     [("verdict", "ModuleComparator::compareFunctions"), ("inlining", "ModuleComparator::tryToInline"),
      ("names", "hasSuffix, dropSuffix")])

prop("C31", "Generated name suffixes are recognised and removed exactly",
     """A name has a generated suffix exactly if it contains a dot and what follows the last dot is "void" or consists only
     of digits (and the removal of the suffix leaves everything before that dot). Joining a directory and a file name
     yields the file name alone if it already starts with the directory and otherwise both joined by one separator, and
     replacing text substitutes every non-overlapping occurrence from left to right and nothing else.""",
     ["inputs"], "all strings",
     "The C++ tests use a handful of names.",
     [D + "simpll/Utils.cpp"], [("suffix", "hasSuffix, dropSuffix"), ("paths", "joinPath"), ("replace", "findAndReplace")])

prop("C33", "Patterns ignore or reorder only operations for which it is semantically neutral",
     """The comparison engine treats a binary operation as reorderable only if it is an integer addition, multiplication,
     and, or, or exclusive or; an instruction as negation only if it is an exclusive or of a boolean with true; an
     address computation as neutral only if all its indices are the constant zero; and skips a cast (with type-cast
     ignoring off) only between pointers, from a union, or from an integer to one at least as wide whose value takes part
     in no arithmetic. A function is side-effect free only if neither it nor anything it calls stores to memory or is unknown.""",
     ["programs", "inputs"], "all LLVM IR instructions and functions",
     "C++ tests exercise single examples of each pattern.",
     [D + "simpll/Utils.cpp", D + "simpll/DifferentialFunctionComparator.cpp"],
     [("predicates", "isReorderableBinaryOp, isLogicalNot, isZeroGEP, hasSideEffect"), ("casts", "maySkipCast")])

prop("C34", "Pattern switches reach the comparison engine unchanged",
     """Each pattern switch handed to the comparison engine, through the library interface or the program's options,
     controls exactly the pattern of that name, and the remaining options (functions, variable, cache directory,
     custom patterns, output options) arrive in their own places.""",
     ["configurations"], "all combinations of switches",
     "C++ tests construct the configuration directly and bypass both interfaces.",
     [D + "simpll/library/FFI.cpp", D + "simpll/SimpLL.cpp", D + "simpll/Config.h"],
     [("library", "BuiltinPatternsFromC, runSimpLL"), ("program", "main, parseFunOption, addSuffix")])

prop("C40", "Functions reported equal have the same semantics",
     """If a comparison reports two functions equal and no built-in or custom pattern that abstracts from a difference was
     applied, then for all inputs the two functions and everything they call behave the same.""",
     ["programs", "inputs"], "all pairs of C programs",
     "Program equivalence cannot be sampled.",
     [D + "simpll/DifferentialFunctionComparator.cpp", D + "simpll/ModuleComparator.cpp"],
     [("instruction comparison", "FunctionComparator, DifferentialFunctionComparator")])

prop("C41", "The result viewer shows the differences of the result file",
     """The viewer lists every difference of the result file under its compared function and, for each, shows both call
     stacks and the code and diff of each function on them.""",
     ["inputs"], "all result files",
     "Component tests render a few fixed results.",
     ["view/src/Result.js", "view/src/components/Callstack.jsx"], [("model", "view/src/Result.js")])

prop("C42", "Building a kernel snapshot leaves the kernel headers as they were",
     """After a kernel snapshot is built, successfully or not, the compiler headers of the kernel tree have the contents
     they had before.""",
     ["inputs", "fault_sequences"], "all header contents and failures of a step of the build",
     "Needs kernel sources; only one header content is ever tried.",
     [D + "llvm_ir/kernel_llvm_source_builder.py", D + "diffkemp.py"],
     [("edit", "_disable_asm_features"), ("undo", "_enable_asm_features"), ("build", "build_kernel")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=True) + "\n")
    print(len(P))

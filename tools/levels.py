REL = "contract-based deductive verification (relational contracts, symbolic execution of the Python source, z3/cvc5)"
CPP = "the behaviour is implemented in C++ on LLVM data structures (templates, virtual dispatch, LLVM's own containers); no deductive verifier installed here accepts that code (CBMC's C++ front end does not parse LLVM's headers, Frama-C is C only, Verus/Kani are Rust), and a hand-written look-alike would be a model, not this code"
NA = {"C30": CPP, "C31": CPP, "C33": CPP, "C34": CPP + "; the Python side of the switches is decided under C19 and C20",
      "C40": "semantic equality of two programs as judged by the engine's pattern matching: it needs a formal semantics of LLVM IR and a proof of the C++ comparator against it, both out of reach of contracts on this code",
      "C41": "the result viewer is a JavaScript/React application rendering into a browser DOM; no deductive verifier for it is installed"}
T["C01"] = ("proof", REL, "Every path of Result.add_inner and Result.Kind.from_string proved equal to the specification for all inputs; composition over histories of additions follows by induction (max is associative). Assumes the declared field types.")
T["C02"] = ("proof", REL, "graph_to_fun_pair_list proved against the extraction specification with reachable_from under its own contract (breadth-first reference walk); the reference walk is compared with the least-fixpoint reading of the statement on concrete graphs (bounded).")
T["C03"] = ("proof", REL, "stack construction, backtracking map and path reconstruction proved against their specifications; that these are genuine paths is checked edge by edge on concrete graphs (bounded).")
T["C04"] = ("proof", REL, "compare_vertex_priority and absorb_graph proved for all graphs.")
T["C05"] = ("proof", REL, "normalize proved against the folding specification for all graphs; the declarative reading is compared concretely.")
T["C06"] = ("proof", REL, "populate_predecessor_lists, mark_uncachable_from_assumed_equal and the marks of absorb_graph proved against reference functions; the declarative reading (reachability) is compared concretely (bounded).")
T["C07"] = ("proof", REL, "CacheFile naming, SimpLLCache.update and clear proved for all inputs as histories of file operations; what a file holds after the history is checked on a real scratch directory (bounded).")
T["C08"] = ("proof", REL, "functions_diff and _link_symbol_def proved for every outcome of the engine, the linker, the differ and the comparison graph (these under assumed contracts); the translation of raw engine output to a result or an error is checked on concrete outputs (bounded).")
T["C12"] = ("proof", REL, "read_symbol_list and generate_from_function_list proved for all lists and all outcomes of looking a symbol up (file reads and module lookup under assumed contracts).")
T["C14"] = ("proof", REL, "extract_code, make_diff, unified_syntax_diff and syntax_diff proved for every file, position and output of the differ (the differ and file reads are under assumed contracts); the line numbers shown are also compared with a strict reading of real diff output (bounded).")
T["C15"] = ("proof", REL, "get_end_line proved for every text, start line and kind; the reading of end of line is compared concretely.")
T["C19"] = ("proof", REL, "the effect of the pattern options on the configuration proved for all option lists; the options offered by the argument parser proved equal to the specification.")
T["C24"] = ("proof", REL, "the statistics of an object and a symbol proved for all result trees; report_object_stat is bounded (concrete runs against an independent count).")
T["C27"] = ("proof", REL, "_get_modules_to_cache proved for all function lists, snapshots and thresholds.")
T["C10"] = ("proof", REL, "add_fun, get_by_name, modules and filter proved for all snapshots (an arbitrary entry of an arbitrary group before and after); writing the list and reading it back is bounded (random histories, real YAML).")
T["C09"] = ("proof", REL, "compare and print_syntax_diff proved for all snapshots, comparison outcomes and options as histories of comparisons, verdicts, files and output; the comparison of one pair (C08), the adding of a result (C01) and the statistics (C24) are represented by their contracts.")
T["C16"] = ("proof", REL, "the translation of compile and link commands, of lists of them and the selection of build steps from a log proved for all command lines.")
T["C17"] = ("proof", REL, "_find_srcs_with_symbol_def, _find_tracepoint_macro_use and find_llvm_with_symbol_def proved for every content of the index and every failure of a lookup or a build (both under assumed contracts; lines of the index are assumed to have a file and a scope).")
T["C18"] = ("proof", REL, "wrapper proved for all command lines, settings, existing files and outcomes of the two compilers, as a history of commands run and database entries; starting a process and the exit status of the script are bounded (real script with stand-in compilers).")
T["C23"] = ("proof", REL, "get_extension, _add_llvm_pattern, add_pattern, _load_yaml and create_from_file proved for all configurations, settings and outcomes of verifying a file (the verifier, file access and the YAML reader under assumed contracts).")
T["C20"] = ("proof", REL, "run_simpll by either route (as one history of engine calls and commands), BuiltinPatterns.as_ffi_struct, add_suffix and Config.from_args proved; the C structures are stand-ins compared by their contents, process and pipe primitives and the engine itself are under assumed contracts; what the C++ side does with the structure is not covered.")
T["C21"] = ("proof", REL, "Vertex.from_yaml (with and without a graph), Edge/SyntaxDiff/TypeDiff.from_yaml, Vertex, FunctionStats and the keys used by run_simpll proved for all outputs of the documented shape; verdict texts are C01's contract, values have the type of the field they are kept in.")
T["C13"] = ("proof", REL, "YamlOutput (results, symbol collection, definitions of functions and of types), Callstack.to_output_yaml_with_rel_path and get_symbol_names proved for all comparison results; finding the end line is C15's contract, path arithmetic and YAML writing are external (the written file is read back in the concrete runs).")
T["C25"] = ("proof", REL, "link_modules (the whole state after every outcome of linker, optimizer, loading and replacing the file, and, as a separate contract, that the original file of a module never changes), restore_unlinked_llvm, clean_module, parse_module, get_module_for_symbol and get_modules_using_symbol proved; the tools and the file system are under assumed contracts, what the files hold after a history is checked on a scratch directory (bounded).")
T["C26"] = ("proof", REL, "copy_source_files, move_to_other_root_dir and get_included_sources proved for all modules, included files and outcomes of the file operations as histories of these operations; path arithmetic and regular expressions are external functions, real directory layouts (siblings, non-normal and absolute paths) are compared on a scratch directory (bounded).")
T["C22"] = ("proof", REL, "matches, get_sysctl_module, get_child and get_data proved for all names, patterns and table contents; reading a table out of the module is the C++ engine's (assumed), as is the matching of patterns it does itself.")
T["C42"] = ("proof", REL, "build_kernel proved to restore the sources on every way out of every step, and the preparing and restoring of each header proved as the sequence of edits made; that an edit followed by its reversal gives back the text is a property of sed, checked by running it on generated headers (bounded). A killed process is not covered (the next build restores the headers).")

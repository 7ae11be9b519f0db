PROP = "C17"
NEEDS = "a symbol used in a file only inside functions"
BREAKS = "such files are marked as already listed while the global uses are gathered, so they are never candidates"
EDITS = [("diffkemp/llvm_ir/kernel_llvm_source_builder.py", '''             if (scope == "<global>" and not (f in seen or seen.add(f)))],''', '''             if (not (f in seen or seen.add(f)) and scope == "<global>")],''')]
DEMO = r'''
from diffkemp.llvm_ir.kernel_llvm_source_builder import KernelLlvmSourceBuilder as B
b = object.__new__(B)
b.source_dir = "."
b._cscope_run = lambda s, d: [] if d else ["a.c fn 1 x", "b.c <global> 2 y"]
assert b._find_srcs_with_symbol_def("s") == ["b.c", "a.c"]
'''

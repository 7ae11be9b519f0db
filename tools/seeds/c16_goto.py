PROP = "C16"
NEEDS = "a build command defining a macro whose name begins with CC_HAVE_ASM_GOTO"
BREAKS = "definitions such as -DCC_HAVE_ASM_GOTO_OUTPUT are lost in the translated command"
EDITS = [("diffkemp/llvm_ir/kernel_llvm_source_builder.py", '''param == "-DCC_HAVE_ASM_GOTO" or''', '''param.startswith("-DCC_HAVE_ASM_GOTO") or''')]
DEMO = r'''
from diffkemp.llvm_ir.kernel_llvm_source_builder import KernelLlvmSourceBuilder as B
assert "-DCC_HAVE_ASM_GOTO_OUTPUT" in B._gcc_to_llvm("gcc -DCC_HAVE_ASM_GOTO_OUTPUT -DCC_HAVE_ASM_GOTO -c a.c -o a.o")
'''

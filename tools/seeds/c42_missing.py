PROP = 'C42'
NEEDS = 'a kernel without the first of the two compiler headers'
BREAKS = 'restoring stops at the first header that does not exist, leaving the other one changed'
EDITS = [('diffkemp/llvm_ir/kernel_llvm_source_builder.py', '        """Restore the original \'asm goto\' and \'asm inline\' semantics."""\n        for header in self.compiler_headers:\n            if not os.path.isfile(header):\n                continue', '        """Restore the original \'asm goto\' and \'asm inline\' semantics."""\n        for header in self.compiler_headers:\n            if not os.path.isfile(header):\n                break')]
DEMO = r'''
import sys, types, os, tempfile
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
sys.modules["diffkemp.simpll._simpll"] = m
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l

from diffkemp.llvm_ir.source_tree import SourceTree
class F:
    def find_llvm_with_symbol_def(self, s):
        return s
d = tempfile.TemporaryDirectory()
def put(p, text="x"):
    p = os.path.join(d.name, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)
    return p

from diffkemp.llvm_ir.kernel_llvm_source_builder import KernelLlvmSourceBuilder
text = "#ifdef CONFIG_CC_HAS_ASM_INLINE\n#define f asm goto(x)\n#endif\n"
for names in (["compiler-gcc.h", "compiler_types.h"], ["compiler-gcc.h"], ["compiler_types.h"]):
    r = os.path.join(d.name, "k%d%s" % (len(names), names[0]))
    hs = [put(os.path.join(r, "include/linux", n), text) for n in names]
    b = KernelLlvmSourceBuilder(r)
    assert all(open(h).read() != text for h in hs)
    b.finalize()
    assert all(open(h).read() == text for h in hs), names
'''

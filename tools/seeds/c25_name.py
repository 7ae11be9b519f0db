PROP = 'C25'
NEEDS = 'two modules of the same file name in different directories'
BREAKS = "modules are kept by their file name only, so a symbol of another directory's module gets the wrong module"
EDITS = [('diffkemp/llvm_ir/source_tree.py', '        if source in self.modules:\n            return self.modules[source]\n\n        module = LlvmModule(source)\n        self.modules[source] = module', '        name = os.path.basename(source)\n        if name in self.modules:\n            return self.modules[name]\n\n        module = LlvmModule(source)\n        self.modules[name] = module')]
DEMO = r'''
import sys, types, os, tempfile
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
sys.modules["diffkemp.simpll._simpll"] = m
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l

from diffkemp.llvm_ir.source_tree import SourceTree
class F:
    def find_llvm_with_symbol_def(self, s):
        return s
d = tempfile.TemporaryDirectory()
def put(p, text="x"):
    p = os.path.join(d.name, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)
    return p

t = SourceTree(d.name, F())
put("a/m.ll"); put("b/m.ll")
a, b = t.get_module_for_symbol("a/m.ll"), t.get_module_for_symbol("b/m.ll")
assert a is t.get_module_for_symbol("a/m.ll")
assert a.llvm != b.llvm, b.llvm
'''

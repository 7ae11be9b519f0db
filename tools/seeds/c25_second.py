PROP = 'C25'
NEEDS = 'a module modified less than a second after the snapshot was created'
BREAKS = 'the modification time is cut to whole seconds, so a module modified right after the time limit is still given out'
EDITS = [('diffkemp/llvm_ir/source_tree.py', '                if os.path.getmtime(source) > created_before:', '                if int(os.path.getmtime(source)) > created_before:')]
DEMO = r'''
import sys, types, os, tempfile
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
sys.modules["diffkemp.simpll._simpll"] = m
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l

from diffkemp.llvm_ir.source_tree import SourceTree
class F:
    def find_llvm_with_symbol_def(self, s):
        return s
d = tempfile.TemporaryDirectory()
def put(p, text="x"):
    p = os.path.join(d.name, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)
    return p

t = SourceTree(d.name, F())
p = put("a.ll")
os.utime(p, (100.5, 100.5))
assert t.get_module_for_symbol("a.ll", 100.75).llvm == p
try:
    t.get_module_for_symbol("a.ll", 100.25)
    sys.exit("module modified after the limit given out")
except Exception as e:
    assert type(e).__name__ == "SourceNotFoundException", e
'''

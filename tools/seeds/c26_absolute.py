PROP = 'C26'
NEEDS = 'debug information naming a header by its absolute path'
BREAKS = 'a header named by an absolute path is looked up below the compilation directory and not copied'
EDITS = [('diffkemp/llvm_ir/llvm_module.py', '                    result.add(os.path.join(s.group(2), s.group(1)))', '                    result.add(os.path.normpath(s.group(2) + "/" +\n                                                s.group(1)))')]
DEMO = r'''
import sys, types, os, tempfile
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
sys.modules["diffkemp.simpll._simpll"] = m
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l

from diffkemp.llvm_ir.source_tree import SourceTree
class F:
    def find_llvm_with_symbol_def(self, s):
        return s
d = tempfile.TemporaryDirectory()
def put(p, text="x"):
    p = os.path.join(d.name, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)
    return p

r = os.path.join(d.name, "p")
h = put("p/inc/h.h", "h")
p = put("p/a/m.ll", '!1 = !DIFile(filename: "%s", directory: "%s/a")\n!2 = !DIFile(filename: "m.c", directory: "%s/a")\n' % (h, r, r))
put("p/a/m.c")
t = SourceTree(r)
m = t._get_module_from_source(p)
new = os.path.join(d.name, "q")
t.copy_source_files([m], SourceTree(new))
assert os.path.isfile(new + "/a/m.c") and os.path.isfile(new + "/inc/h.h")
'''

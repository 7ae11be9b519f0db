PROP = 'C26'
NEEDS = "a constant that is neither private nor without linkage whose text names the project's directory"
BREAKS = 'the new root is put into the definitions of internal constants too, changing the compared code'
EDITS = [('diffkemp/llvm_ir/llvm_module.py', '                        if "constant" not in line:', '                        if not re.search(r"= (private )?(unnamed_addr )?"\n                                         r"constant", line):')]
DEMO = r'''
import sys, types, os, tempfile
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
sys.modules["diffkemp.simpll._simpll"] = m
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l

from diffkemp.llvm_ir.source_tree import SourceTree
class F:
    def find_llvm_with_symbol_def(self, s):
        return s
d = tempfile.TemporaryDirectory()
def put(p, text="x"):
    p = os.path.join(d.name, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)
    return p

r = os.path.join(d.name, "p")
new = os.path.join(d.name, "q")
text = '@.s = private unnamed_addr constant [3 x i8] c"%s"\n@v = internal constant [3 x i8] c"%s"\n!1 = !DIFile(filename: "y", directory: "%s")\n' % (r, r, r)
p = put("p/m.ll", text)
t = SourceTree(r)
m = t._get_module_from_source(p)
t.copy_source_files([m], SourceTree(new))
got = open(m.llvm).read().splitlines()
assert m.llvm == os.path.join(new, "m.ll")
assert got[:2] == text.splitlines()[:2], got
assert got[2] == text.splitlines()[2].replace(r, new), got
'''

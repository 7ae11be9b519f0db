PROP = "C08"
NEEDS = "a comparison whose first engine run reports a missing definition that can be linked, while results of an earlier comparison are reused"
BREAKS = "the preliminary result of the run without the missing definition is taken over as known, so functions proved equal after linking are reported as different"
EDITS = [("diffkemp/semdiff/function_diff.py", "                if prev_result_graph and not simplify:", "                if prev_result_graph:")]
DEMO = r'''
import types
import diffkemp.semdiff.function_diff as fd
from diffkemp.semdiff.caching import ComparisonGraph as G
from diffkemp.semdiff.result import Result
K = Result.Kind


def graph(kind):
    g = G()
    g["f"] = G.Vertex(("f", "f"), kind, ("a.c", "a.c"), (1, 1))
    return g


class Mod:
    llvm = "m.ll"
    def link_modules(self, ms): return True
    def restore_unlinked_llvm(self): pass
    def clean_module(self): pass


runs = [("", "", graph(K.NOT_EQUAL), [{"first": "g"}]), ("", "", graph(K.EQUAL), None)]
fd.run_simpll = lambda **kw: runs.pop(0)
fd.syntax_diff = lambda *a: "diff"
tree = types.SimpleNamespace(get_module_for_symbol=lambda s, t: Mod())
snap = types.SimpleNamespace(created_time=None, snapshot_tree=tree, source_tree=None)
conf = types.SimpleNamespace(verbosity=0, full_diff=False, semdiff_tool=None, snapshot_first=snap, snapshot_second=snap)
r = fd.functions_diff(Mod(), Mod(), "f", "f", None, conf, prev_result_graph=G())
assert r.kind == K.EQUAL, (r.kind, len(runs))
'''

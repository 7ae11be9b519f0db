PROP = "C21"
NEEDS = "a weak call followed by an ordinary one"
BREAKS = "calls are no longer kept in the order of the engine: weak ones are moved behind the others"
EDITS = [("diffkemp/semdiff/caching.py", '''                    for callee in res["calls"]:
                        edge''', '''                    for callee in sorted(res["calls"],
                                         key=lambda c: c["weak"]):
                        edge''')]
DEMO = r'''
import sys, types
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll"] = m
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l
from diffkemp.semdiff.caching import ComparisonGraph as G
def order(weak):
    calls = [{"function": n, "file": "a.c", "line": i, "weak": w} for i, (n, w) in enumerate(zip("xyz", weak))]
    v = G.Vertex.from_yaml({"first": {"function": "f", "calls": calls}, "second": {"function": "f", "calls": calls}, "result": "equal"})
    return [e.target_name for e in v.successors[0]]
assert order([False, False, True]) == ["x", "y", "z"]
assert order([True, False, False]) == ["x", "y", "z"], order([True, False, False])
'''

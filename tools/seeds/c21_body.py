PROP = "C21"
NEEDS = "an attached syntactic difference (e.g. a macro) whose second body is empty"
BREAKS = "the second version of the difference gets the body of the first one"
EDITS = [("diffkemp/semdiff/caching.py", '''                (nonfun_diff["body-first"], nonfun_diff["body-second"])''', '''                (nonfun_diff["body-first"],
                 nonfun_diff["body-second"] or nonfun_diff["body-first"])''')]
DEMO = r'''
import sys, types
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll"] = m
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l
from diffkemp.semdiff.caching import ComparisonGraph as G
d = {"name": "M", "function": "f", "stack-first": [], "stack-second": [], "body-first": "1", "body-second": "2"}
assert G.SyntaxDiff.from_yaml(d).body == ("1", "2")
assert G.SyntaxDiff.from_yaml(dict(d, **{"body-second": ""})).body == ("1", "")
'''

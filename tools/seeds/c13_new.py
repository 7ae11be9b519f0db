PROP = "C13"
NEEDS = "a difference reached by a call stack in the new version only (the old one is the compared function itself)"
BREAKS = "the new call stack is dropped when there is no old one"
EDITS = [("diffkemp/output.py", '''                    if called_res.second.callstack else []''', '''                    if called_res.first.callstack else []''')]
DEMO = r'''
import sys, types
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll"] = m
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l
from diffkemp.output import YamlOutput
from diffkemp.semdiff.result import Result
r, f, g = (Result(Result.Kind.NOT_EQUAL, x, x) for x in "afg")
g.diff = "x"
f.inner["g"] = g
r.inner["f"] = f
r.graph = None
call = lambda d: Result.Callstack([{"name": "g", "file": d + "/a.c", "line": 1}])
g.first.callstack, g.second.callstack = call("/o"), call("/n")
o = YamlOutput("/o", "/n", r).output["results"][0]["diffs"][0]
assert len(o["old-callstack"]) == len(o["new-callstack"]) == 1
g.first.callstack = None
o = YamlOutput("/o", "/n", r).output["results"][0]["diffs"][0]
assert o["old-callstack"] == [] and len(o["new-callstack"]) == 1, o
'''

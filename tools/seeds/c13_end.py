PROP = "C13"
NEEDS = "a definition whose start line is known but whose file cannot be decoded or has no closing line, in one version only"
BREAKS = "the end line of the old version is shown for the new version when the latter cannot be determined"
EDITS = [("diffkemp/output.py", '''            # function name differs
''', '''            if "end-line" in definition["old"]:
                definition["new"].setdefault("end-line",
                                             definition["old"]["end-line"])
            # function name differs
''')]
DEMO = r'''
import sys, types
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll"] = m
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l
import os, shutil, tempfile
from diffkemp.output import YamlOutput
from diffkemp.semdiff.caching import ComparisonGraph as G
from diffkemp.semdiff.result import Result
d = tempfile.mkdtemp()
try:
    for n, t in (("old", "f()\n{\n}\n"), ("new", "f()\n{\n")):
        os.mkdir(d + "/" + n)
        open(d + "/" + n + "/a.c", "w").write(t)
    r, f = Result(Result.Kind.NOT_EQUAL, "o", "n"), Result(Result.Kind.NOT_EQUAL, "f", "f")
    f.kind = Result.Kind.NOT_EQUAL
    r.inner["f"] = f
    r.graph = G()
    r.graph.vertices["f"] = G.Vertex(("f", "f"), Result.Kind.NOT_EQUAL, (d + "/old/a.c", d + "/new/a.c"), (1, 1))
    o = YamlOutput(d + "/old", d + "/new", r).output["definitions"]["f"]
    assert o["old"]["end-line"] == 3
    assert "end-line" not in o["new"], o
finally:
    shutil.rmtree(d)
'''

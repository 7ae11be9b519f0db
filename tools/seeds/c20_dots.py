PROP = "C20"
NEEDS = "a module whose directory or name has a dot before the extension"
BREAKS = "the suffix goes before the first dot of the path, so the output module lands under another directory or name"
EDITS = [("diffkemp/simpll/simpll.py", '''    name, ext = os.path.splitext(file)
    return "{}-{}{}".format(name, suffix, ext)''', '''    name, dot, ext = file.partition(".")
    return "{}-{}{}{}".format(name, suffix, dot, ext)''')]
DEMO = r'''
import sys, types
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
sys.modules["diffkemp.simpll._simpll"] = m
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l
from diffkemp.simpll.simpll import add_suffix
assert add_suffix("/snap/mod.ll", "f") == "/snap/mod-f.ll"
assert add_suffix("/snap-4.18/mod.ll", "f") == "/snap-4.18/mod-f.ll", add_suffix("/snap-4.18/mod.ll", "f")
'''

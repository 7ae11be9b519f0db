PROP = 'C22'
NEEDS = 'a braced list with a character special in regular expressions'
BREAKS = 'the list is used as a regular expression, so an entry matches names not in the list'
EDITS = [('diffkemp/llvm_ir/llvm_sysctl_module.py', '        match_list = pattern[1:-1].split("|")\n        return name in match_list', '        return re.fullmatch(pattern[1:-1], name) is not None'), ('diffkemp/llvm_ir/llvm_sysctl_module.py', 'from diffkemp.simpll.library import SimpLLSysctlTable\n', 'from diffkemp.simpll.library import SimpLLSysctlTable\nimport re\n')]
DEMO = r'''
import sys, types, os, tempfile
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
sys.modules["diffkemp.simpll._simpll"] = m
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l

from diffkemp.llvm_ir.llvm_sysctl_module import matches
assert matches("a", "{a|b}") and matches("b", "{a|b}") and not matches("c", "{a|b}")
assert not matches("eth0x1", "{lo|eth0.1}")
assert matches("eth0+1", "{lo|eth0+1}")
'''

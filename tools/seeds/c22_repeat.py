PROP = 'C22'
NEEDS = 'an option whose last component occurs earlier in its name'
BREAKS = 'the last component is recognised by its text, so the table of an earlier component of the same name is returned'
EDITS = [('diffkemp/llvm_ir/kernel_source_tree.py', '            if i == len(entries) - 1:', '            if entry == entries[-1]:')]
DEMO = r'''
import sys, types, os, tempfile
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
sys.modules["diffkemp.simpll._simpll"] = m
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l

import diffkemp.llvm_ir.llvm_sysctl_module as S
class T:
    def __init__(self, mod, table):
        self.table = table
    def get_child(self, entry):
        return self.table + "_" + entry, []
S.SimpLLSysctlTable = T
from diffkemp.llvm_ir.kernel_source_tree import KernelSourceTree
t = KernelSourceTree("/src", None)
class M:
    llvm_module = None
    def parse_module(self):
        pass
t.get_module_for_symbol = lambda s: M()
f = lambda n: t.get_sysctl_module(n).ctl_table
assert f("kernel.x") == "sysctl_base_table_kernel"
assert f("net.core.a.b") == "net_core_table_a"
assert f("fs.quota.fs") == "sysctl_base_table_fs_quota", f("fs.quota.fs")
'''

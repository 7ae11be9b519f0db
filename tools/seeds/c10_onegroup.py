PROP = "C10"
NEEDS = "a snapshot of sysctl options with exactly one option"
BREAKS = "the group of the functions is lost when the snapshot is written, and the snapshot cannot be read back"
EDITS = [("diffkemp/snapshot.py", "        if len(self.fun_groups) == 1 and None in self.fun_groups:", "        if len(self.fun_groups) == 1:")]
DEMO = r'''
import sys, types
m = types.ModuleType("diffkemp.simpll._simpll")
m.ffi = m.lib = types.SimpleNamespace()
import diffkemp.snapshot as sm
from diffkemp.snapshot import Snapshot
sm.get_llvm_version = lambda: 16
sm.pkg_resources = types.SimpleNamespace(require=lambda n: [types.SimpleNamespace(version="0")])
tree = types.SimpleNamespace(source_dir="/nonexistent", source_finder=types.SimpleNamespace(str=lambda: "x"))
s = Snapshot(tree, tree, "sysctl")
s.add_fun("f", None, "v", "t", "net.a")
r = Snapshot(None, tree)
r._from_yaml(s.to_yaml())
assert r.get_by_name("f", "net.a").tag == "t"
'''

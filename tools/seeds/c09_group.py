PROP = "C09"
NEEDS = "snapshots of several sysctl options in which an earlier option's functions lack a counterpart"
BREAKS = "a function missing from the new snapshot ends the comparison of its whole group"
EDITS = [("diffkemp/diffkemp.py", '''            if not new_fun_desc:
                continue

            # Check if the module exists''', '''            if not new_fun_desc:
                break

            # Check if the module exists''')]
DEMO = r'''
import os, sys, tempfile, types
import diffkemp.diffkemp as dk
from diffkemp.semdiff.result import Result
from diffkemp.snapshot import Snapshot

m = types.SimpleNamespace(llvm="m.ll", clean_module=lambda: None)
old, new = Snapshot(), Snapshot()
for f in "abc":
    old.add_fun(f, m)
    if f != "b":
        new.add_fun(f, m)
seen = []
dk.functions_diff = lambda **k: (seen.append(k["fun_first"]), Result(Result.Kind.EQUAL, "x", "x"))[1]
dk.LlvmModule.clean_all = staticmethod(lambda: None)
conf = types.SimpleNamespace(snapshot_first=old, snapshot_second=new, full_diff=False, show_diff=True)
dk.Config = types.SimpleNamespace(from_args=lambda a: conf)
dk.compare(types.SimpleNamespace(stdout=True, output_dir=None, snapshot_dir_old="o", snapshot_dir_new="n", enable_module_cache=False, regex_filter=None,
                                 report_stat=False, extended_stat=False, show_errors=False))
assert seen == ["a", "c"], seen
'''

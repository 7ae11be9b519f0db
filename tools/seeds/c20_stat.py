PROP = "C20"
NEEDS = "the program route with extended statistics and without printing differences in inline assembly"
BREAKS = "extended statistics are not requested from the engine unless another output option is set as well"
EDITS = [("diffkemp/simpll/simpll.py", '''            if config.extended_stat:
                simpll_command.append("--extended-stat")

''', ""), ("diffkemp/simpll/simpll.py", '''                simpll_command.append("--print-asm-diffs")
''', '''                simpll_command.append("--print-asm-diffs")
                if config.extended_stat:
                    simpll_command.append("--extended-stat")
''')]
DEMO = r'''
import sys, types
m = types.ModuleType("diffkemp.simpll._simpll"); m.__path__ = []; m.ffi = None
m.lib = types.ModuleType("diffkemp.simpll._simpll.lib"); m.lib.shutdownSimpLL = lambda: None
sys.modules["diffkemp.simpll._simpll.lib"] = m.lib
sys.modules["diffkemp.simpll._simpll"] = m
l = types.ModuleType("diffkemp.simpll.simpll_lib"); l.ffi = l.lib = None
sys.modules["diffkemp.simpll.simpll_lib"] = l
import diffkemp.simpll.simpll as S
from diffkemp.config import Config
for asm in (True, False):
    seen = []
    S.check_output = lambda cmd, **k: seen.append(cmd) or b"{function-results: []}"
    S.run_simpll("a.ll", "b.ll", "f", "f", None, Config(use_ffi=False, extended_stat=True, print_asm_diffs=asm))
    assert "--extended-stat" in seen[0], seen
'''

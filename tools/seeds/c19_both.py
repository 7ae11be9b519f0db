PROP = "C19"
NEEDS = "a pattern that is both enabled and disabled by name on the same command line"
BREAKS = "the disabling is ignored"
EDITS = [("diffkemp/config.py", '''            if pattern in args.disable_pattern:
                self.settings[pattern] = False
''', '''            elif pattern in args.disable_pattern:
                self.settings[pattern] = False
''')]
DEMO = r'''
import types
from diffkemp.config import BuiltinPatterns
p = BuiltinPatterns()
p.update_from_args(types.SimpleNamespace(enable_pattern=["kernel-prints"], disable_pattern=["kernel-prints"]))
assert p.settings["kernel-prints"] is False
'''

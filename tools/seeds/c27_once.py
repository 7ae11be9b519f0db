PROP = "C27"
NEEDS = "both versions of a function lie in the same module file"
BREAKS = "the two uses are counted as one, so a module used often enough is not preloaded"
EDITS = [("diffkemp/diffkemp.py", '''        for fun_desc in [old_fun_desc, new_fun_desc]:
            if not fun_desc.mod:
                continue
            if fun_desc.mod.llvm not in module_frequency_map:
                module_frequency_map[fun_desc.mod.llvm] = 0
            module_frequency_map[fun_desc.mod.llvm] += 1
''', '''        for mod in {fun_desc.mod.llvm
                    for fun_desc in [old_fun_desc, new_fun_desc]
                    if fun_desc.mod}:
            if mod not in module_frequency_map:
                module_frequency_map[mod] = 0
            module_frequency_map[mod] += 1
''')]
DEMO = r'''
import types
from diffkemp.diffkemp import _get_modules_to_cache as f
d = types.SimpleNamespace(mod=types.SimpleNamespace(llvm="m.ll"))
other = types.SimpleNamespace(get_by_name=lambda n, g: d)
assert f([("f", d)], None, other, 2) == {"m.ll"}
'''

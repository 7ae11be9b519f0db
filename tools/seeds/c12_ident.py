PROP = "C12"
NEEDS = "a symbol list naming a symbol with a dot in it, as the compiler's clones have (foo.isra.0)"
BREAKS = "such symbols are silently left out of the snapshot"
EDITS = [("diffkemp/diffkemp.py", '''                (symbol := line.strip()) and
                (symbol[0].isalpha() or symbol[0] == "_")]''', '''                (symbol := line.strip()) and symbol.isidentifier()]''')]
DEMO = r'''
import os, tempfile
from diffkemp.diffkemp import read_symbol_list
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "l")
    open(p, "w").write("foo\n# c\n bar.isra.0\n\n")
    assert read_symbol_list(p) == ["foo", "bar.isra.0"]
'''

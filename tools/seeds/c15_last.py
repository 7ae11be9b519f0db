PROP = "C15"
NEEDS = "a function that ends on the very last line of its file"
BREAKS = "its end is reported as not found, so no diff is shown for it"
EDITS = [("diffkemp/utils.py", "            if line_number > len(lines):", "            if line_number >= len(lines):")]
DEMO = r'''
import os, tempfile
from diffkemp.utils import get_end_line
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "l.c")
    open(p, "w").write("int f(void)\n{\n\treturn 0;\n}\n")
    assert get_end_line(p, 1, "function") == 4
'''

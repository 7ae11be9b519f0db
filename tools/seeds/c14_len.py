PROP = "C14"
NEEDS = "a function whose versions differ in length, so that the second fragment is longer than the first"
BREAKS = "the diff is computed from as many lines of the second file as the first fragment has, not from its own lines"
EDITS = [("diffkemp/syndiff/function_syntax_diff.py", "    extract_code(second_file, second_start, second_end, second_file_fragment)",
          "    extract_code(second_file, second_start,\n                 min(second_end, second_start + first_end - first_start + 2),\n                 second_file_fragment)")]
DEMO = r'''
import os, tempfile
from diffkemp.syndiff.function_syntax_diff import syntax_diff
with tempfile.TemporaryDirectory() as d:
    a, b = os.path.join(d, "a.c"), os.path.join(d, "b.c")
    open(a, "w").write("int f(void)\n{\n\treturn 0;\n}\n")
    open(b, "w").write("\nint f(void)\n{\n\tx();\n\ty();\n\tz();\n\tw();\n\treturn 0;\n}\n")
    r = syntax_diff(a, b, "f", "function", 1, 2)
    assert r.count("! ") == 0 and r.count("+ \t") == 4, r
'''

PROP = "C18"
NEEDS = "an object whose IR file is missing when linking (e.g. one generated from assembly)"
BREAKS = "the file name after -o is dropped from the mirrored link when it does not exist yet, or every input is kept although missing"
EDITS = [("diffkemp/building/cc_wrapper.py", '''                new_clang_argv.append(arg)
                if output_file_flag:
                    output_file_flag = False''', '''                new_clang_argv.append(arg)''')]
DEMO = r'''
import os, tempfile
import diffkemp.building.cc_wrapper as w
d = tempfile.mkdtemp()
os.chdir(d)
for k, v in (("DB_FILENAME", d + "/db"), ("CLANG", "clang"), ("CLANG_APPEND", "-O1"), ("CLANG_DROP", "-O2"), ("LLVM_LINK", "llvm-link")):
    os.environ["DIFFKEMP_WRAPPER_" + k] = v
calls = []
w.check_call = lambda f, a: calls.append(list(a))
assert w.wrapper(["cc", "-o", "p", "a.o", "b.o"]) == 0
assert calls[1] == ["llvm-link", "-S", "-o", "p.llw"], calls
os.chdir("/")
os.remove(d + "/db")
os.rmdir(d)
'''

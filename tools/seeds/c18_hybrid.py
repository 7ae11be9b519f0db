PROP = "C18"
NEEDS = "a command that compiles and links sources together with object files"
BREAKS = "the mirrored step of a mixed compile and link keeps the database mark of a linked file and the objects' IR on the command line"
EDITS = [("diffkemp/building/cc_wrapper.py", '''        clang = old_clang
        clang_argv = [arg for arg in clang_argv if not arg.endswith(".ll")]''', '''        clang = old_clang
        clang_argv = [arg for arg in clang_argv if not arg.endswith(".o")]''')]
DEMO = r'''
import os, tempfile
import diffkemp.building.cc_wrapper as w
d = tempfile.mkdtemp()
os.chdir(d)
for k, v in (("DB_FILENAME", d + "/db"), ("CLANG", "clang"), ("CLANG_APPEND", "-O1"), ("CLANG_DROP", "-O2"), ("LLVM_LINK", "llvm-link")):
    os.environ["DIFFKEMP_WRAPPER_" + k] = v
calls = []
w.check_call = lambda f, a: calls.append(list(a))
assert w.wrapper(["cc", "a.c", "b.o", "-o", "p"]) == 0
assert calls[1] == ["clang", "a.c", "-o", "p.llw", "-O1", "-S", "-emit-llvm", "-g"], calls
os.chdir("/")
os.rmdir(d) if not os.listdir(d) else (os.remove(d + "/db"), os.rmdir(d))
'''

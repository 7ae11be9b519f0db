from .base import *
stub_simpll()
import re
from diffkemp.llvm_ir.kernel_llvm_source_builder import KernelLlvmSourceBuilder as B, BuildException

RULE = "random compiler, linker and mixed command lists over the options kernel builds use; non-trivial: some option is kept and some dropped"
MAX = {"quick": 6000, "thorough": 100000}
OPTS = ["-Wall", "-Wp,-MD,x.d", "-Wno-x", "-fno-pic", "-m64", "-mcmodel=kernel", "-O2", "-Os", "-g", "-ggdb", "-DCC_HAVE_ASM_GOTO", "-DCC_HAVE_ASM_GOTO2", "-Iinclude", "-I", "include", "-DX=1", "-UY",
        "-std=gnu89", "-nostdinc", "-isystem", "-include", "'-DA=\"b\"'", "-D\"KBUILD_STR(s)=#s\"", "-D\"DEBUG_HASH=9\"", "-D\"DEBUG_HASH2=9\"", "-D'DEBUG_HASH=9'", "-pg", "-c", "-E", "-M", "--param", "gcc",
        "a.o", "b.ko", "/x/y.h", "-Wl,z", "--gcc", "-DMODULE", "-x", "c", "m.c.o", "-Da='\"q\"'", "-D\"DEBUG_HASH=\"", "-F", "-fc", "-Wc.c", "foo.mod", "-o"]


def cases(rng):
    while True:
        k = rng.random()
        if k < .6:
            w = [rng.choice(OPTS) for _ in range(rng.randint(0, 8))]
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                w.insert(rng.randint(0, len(w)), rng.choice(["drivers/a.c", "b.c", "x.mod.c", "m.mod.o"]))
            yield {"do": "gcc", "arg": rng.choice([" ", "  ", "\t"]).join(["gcc"] + w)}
        elif k < .8:
            yield {"do": "ld", "arg": " ".join(["ld"] + [rng.choice(["-r", "-o", "a.o", "d/b.o", "x.oo", "-m", "elf", "c.ko", ".o", "--start-group", "o"]) for _ in range(rng.randint(0, 8))])}
        else:
            yield {"do": "list", "arg": [rng.choice(["", " ", "\t"]) + rng.choice(["gcc -c a.c -o a.o", "gcc -c m.mod.c", "gcc x.mod.c", "ld -o m.ko m.o", "ld -o m.o a.o", "echo gcc a.c", "set -e; gcc a.c",
                                         "gccx b.c", "ldconfig", "gcc -o m.ko k.c", "ld m.mod.o -o m.o"]) for _ in range(rng.randint(0, 5))], "name": rng.choice(["m", "x", ""])}


def trivial(c):
    return len(c["arg"]) < 6


def gcc(cmd):
    out, src = ["clang", "-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fdebug-macro", "-Wno-format-security"], None
    for p in cmd.split():
        if p in ("gcc", "-g", "-o", "-DCC_HAVE_ASM_GOTO") or p[-2:] == ".o" or re.match(r"-[fmO]", p) or re.match(r"-W", p) and "-MD" not in p:
            continue
        p = re.sub(r'^-D"DEBUG_HASH(2?)=.*$', r'-D"DEBUG_HASH\1=1"', p)
        if p[-2:] == ".c":
            src = p[:-2]
        out.append("".join(x for x in p if x != ("'" if "'" in p else '"')))
    return Crash(BuildException()) if src is None else out + ["-o", src + ".ll"]


def ld(cmd):
    return ["llvm-link", "-S"] + [p if p == "-o" else p[:-2] + ".ll" for p in cmd.split() if p == "-o" or p[-2:] == ".o"]


def run(c):
    if c["do"] == "gcc":
        return outcome(B._gcc_to_llvm, c["arg"]), gcc(c["arg"])
    if c["do"] == "ld":
        return outcome(B._ld_to_llvm, c["arg"]), ld(c["arg"])
    want = []
    for x in c["arg"]:
        x = x.lstrip()
        r = None
        if x[:3] == "gcc" and c["name"] + ".mod" not in x:
            r = gcc(x)
        elif x[:2] == "ld" and c["name"] + ".ko" not in x:
            r = ld(x)
        if isinstance(r, Crash):
            want = r
            break
        if r:
            want.append(r)
    return outcome(B._kbuild_to_llvm_commands, c["arg"], c["name"]), want

from .base import *
stub_simpll()
import types
import diffkemp.llvm_ir.kernel_llvm_source_builder as m
from diffkemp.llvm_ir.source_tree import SourceNotFoundException
B = m.KernelLlvmSourceBuilder

RULE = "random index contents for definitions, uses and tracepoints of special and ordinary symbols, and lookups that fail; non-trivial: at least two files"
MAX = {"quick": 6000, "thorough": 100000}
FILES = ["a.c", "kernel/params.c", "kernel/rcutree.c", "mm/vmalloc.c", "drivers/z.c", "drivers/a.c", "arch/x86/b.c", "arch/arm/c.c", "arch/alpha/k.c", "fs/drivers/x.c", "archx.c", "z.c", "Z.c", "driversx.c", "arch/x86_64/q.c"]
SYMS = ["f", "vfree", "rcu_barrier", "param_get_int", "param_ops_x", "param_x", "__tracepoint_t", "__tracepoint_", "rcu_barriers"]


def cases(rng):
    while True:
        line = lambda: "%s %s %d x" % (rng.choice(FILES), rng.choice(["<global>", "fn", "gn"]), rng.randint(1, 99))
        ls = lambda: [line() for _ in range(rng.choice([0, 0, 1, 3, 7]))]
        yield {"symbol": rng.choice(SYMS), "defs": ls(), "uses": ls(), "points": [line() + rng.choice(["(t);", "(u);", "(xt);", "();"]) for _ in range(rng.choice([0, 1, 3]))],
               "fail": rng.choice([None] * 8 + ["defs", "uses"]), "good": rng.choice(FILES), "bad": rng.choice(FILES), "gone": rng.choice(FILES)}


def trivial(c):
    return len(c["defs"]) + len(c["uses"]) < 2


def run(c):
    s, cwd = c["symbol"], [["/start"], []]
    b = object.__new__(B)
    b.source_dir = "/kernel"

    def cscope(sym, definition):
        if cwd[0][-1] != "/kernel":
            return ["outside.c fn 1 x"]
        k = "points" if sym == "EXPORT_TRACEPOINT_SYMBOL" else "defs" if definition else "uses"
        if sym not in (s, "EXPORT_TRACEPOINT_SYMBOL"):
            return []
        if c["fail"] == k:
            raise m.BuildException("no index")
        return list(c[k])
    b._cscope_run = cscope
    keep = m.os, m.LlvmModule
    m.os = types.SimpleNamespace(getcwd=lambda: cwd[0][-1], chdir=lambda d: cwd[0].append(d),
                                 path=types.SimpleNamespace(join=os.path.join, isfile=lambda p: p != "/kernel/%s.ll" % c["gone"]))
    built = []

    def build(p):
        built.append(p)
        if p == "/kernel/" + c["bad"]:
            raise m.BuildException("x")
        return p + ".ll"
    b._build_source_to_llvm = build
    m.LlvmModule = lambda p: types.SimpleNamespace(has_function=lambda f: f == s and p == "/kernel/%s.ll" % c["good"], has_global=lambda f: False)
    try:
        got = outcome(b._find_srcs_with_symbol_def, s)
        back = cwd[0][-1]
        found = outcome(b.find_llvm_with_symbol_def, s)
    finally:
        m.os, m.LlvmModule = keep
    defs = [l.split()[0] for l in c["defs"]]
    if s.startswith(("param_get_", "param_set_", "param_ops_")):
        defs.append("kernel/params.c")
    if s == "rcu_barrier":
        defs.append("kernel/rcutree.c")
    if s.startswith("__tracepoint_"):
        defs += [l.split()[0] for l in c["points"] if l.endswith("(%s);" % s[13:])]
    uses = [l.split()[:2] for l in c["uses"]]
    if not defs and not uses and s == "vfree":
        defs = ["mm/vmalloc.c"]
    cls = lambda f: (1 if f.startswith("drivers/") else 2 if f.startswith("arch/x86") else 3 if f.startswith("arch/") else 0, f)
    g1 = set(defs)
    g2 = {f for f, sc in uses if sc == "<global>"} - g1
    g3 = {f for f, _ in uses} - g1 - g2
    want = sorted(g1, key=cls) + sorted(g2, key=cls) + sorted(g3, key=cls)
    if not want:
        want = Crash(SourceNotFoundException("x"))
    wfound = want
    if c["fail"]:
        want = wfound = Crash(m.BuildException("no"))
    elif not isinstance(want, Crash):
        ok = [f for f in want if f == c["good"] and f != c["bad"] and f != c["gone"]]
        wfound = "/kernel/%s.ll" % ok[0] if ok else None
    return (got, back, found), (want, "/start", wfound)

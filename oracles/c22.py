from .base import *
stub_simpll()
import diffkemp.llvm_ir.llvm_sysctl_module as SM
import diffkemp.llvm_ir.kernel_source_tree as KT
from diffkemp.llvm_ir.llvm_source_finder import SourceNotFoundException

RULE = "names and patterns built from 12 words, braces, bars and stars, up to 6 components; tables whose entries have or lack children; builds from lists of up to 4 options of 3 with entries, handlers, variables and users present or not; non-trivial: a list, a name with more than one component or a pattern with braces"
MAX = {"quick": 20000, "thorough": 200000}
WORDS = ["kernel", "vm", "fs", "debug", "dev", "net", "ipv4", "core", "conf", "ipv6", "all", "x", ""]


def pattern(rng):
    w = lambda: rng.choice(["all", "x", "y", "*", "", "a|b", "{x}"])
    r = rng.random()
    if r < .3:
        return w()
    p = "|".join(w() for _ in range(rng.randint(0, 3)))
    return ("{" if rng.random() < .85 else "") + p + ("}" if rng.random() < .85 else "")


def cases(rng):
    while True:
        if rng.random() < .3:
            yield listed(rng)
        elif rng.random() < .4:
            yield {"name": rng.choice(["all", "x", "y", "", "a", "b", "*", "{x}", "x|y"]), "pattern": pattern(rng)}
        else:
            n = rng.randint(1, 6)
            first = [rng.choice([["net", "ipv4"], ["net", "ipv4", "conf"], ["net", "core"], ["net"], ["kernel"], ["vm"], []])][0]
            parts = (first + [rng.choice(WORDS) for _ in range(n)])[:max(1, rng.randint(1, 6))]
            yield {"sysctl": ".".join(parts), "children": [rng.choice([None, "t%d" % i, "t%d.2" % i]) if rng.random() < .9 else None for i in range(6)],
                   "missing": rng.choice([None, None, None, "t1", "ipv4_table"])}


def listed(rng):
    """a build from a list of options"""
    names = ["o%d" % i for i in range(3)]
    return {"list": [rng.choice(names) for _ in range(rng.randint(0, 4))],
            "opts": {o: None if rng.random() < .2 else [[o + ".e%d" % i, rng.choice([None, "h1", "h2", "gone"]), rng.choice([None, "v1", "v2", "unused"])]
                                                       for i in range(rng.randint(0, 3))] for o in names},
            "uses": {v: [[rng.choice(["h1", "f", "g", "h2"]) for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 2))] for v in ("v1", "v2")}}


def run_list(c):
    import contextlib, io, types
    import diffkemp.diffkemp as D
    from diffkemp.llvm_ir.llvm_module import LlvmParam
    got = []

    class Option:
        def __init__(self, o):
            self.e = {e: (h, v) for e, h, v in c["opts"][o]}
            self.o = [e for e, _, _ in c["opts"][o]]

        def parse_sysctls(self, o):
            return self.o

        def get_proc_fun(self, e):
            return self.e[e][0]

        def get_data(self, e):
            return LlvmParam(self.e[e][1], [0]) if self.e[e][1] else None

    class Mod:
        def __init__(self, n, funs=()):
            self.llvm, self.funs = "/src/%s.ll" % n, funs

        def get_functions_using_param(self, p):
            return self.funs

    class Tree:
        source_dir = "/src"

        def get_sysctl_module(self, o):
            if c["opts"][o] is None:
                raise SourceNotFoundException(o)
            return Option(o)

        def get_module_for_symbol(self, s, created_before=None):
            if s == "gone":
                raise SourceNotFoundException(s)
            return Mod(s)

        def get_modules_using_symbol(self, s):
            if s not in c["uses"]:
                raise SourceNotFoundException(s)
            return [Mod("%s%d" % (s, i), f) for i, f in enumerate(c["uses"][s])]

    def add(name, llvm_mod, glob_var=None, tag=None, group=None):
        got.append([name, llvm_mod.llvm, glob_var, tag, group])
    with contextlib.redirect_stdout(io.StringIO()):
        r = outcome(D.generate_from_sysctl_list, types.SimpleNamespace(source_tree=Tree(), add_fun=add), list(c["list"]))
    want = []
    for o in c["list"]:
        for e, h, v in c["opts"][o] or []:
            if h and h != "gone":
                want.append([h, "/src/%s.ll" % h, None, "proc handler function", e])
            for i, fs in enumerate(c["uses"].get(v, [])):
                want += [[f, "/src/%s%d.ll" % (v, i), v, 'using data variable "%s"' % v, e] for f in fs if f != h]
    return [repr(r), got], ["None", want]


def trivial(c):
    if "list" in c:
        return not c["list"]
    return "{" not in c["pattern"] if "pattern" in c else "." not in c["sysctl"]


def run(c):
    if "list" in c:
        return run_list(c)
    if "pattern" in c:
        n, p = c["name"], c["pattern"]
        want = p == "*" or (n in p[1:-1].split("|") if p[:1] == "{" and p[-1:] == "}" else n == p)
        return outcome(SM.matches, n, p), want
    seq = []

    class Mod:
        def __init__(self, var):
            self.var, self.llvm_module = var, "parsed " + var

        def parse_module(self, force=False):
            pass

    class Table:
        def __init__(self, module, name):
            self.module, self.name = module, name

        def get_child(self, entry):
            seq.append([self.name, entry])
            i = len(seq) - 1
            ch = c["children"][i]
            return None if ch is None else (ch, [i])
    old = SM.SimpLLSysctlTable
    SM.SimpLLSysctlTable = Table
    try:
        t = KT.KernelSourceTree("/src", None)

        def find(symbol, created_before=None):
            if symbol == c["missing"]:
                raise SourceNotFoundException(symbol)
            return Mod(symbol)
        t.get_module_for_symbol = find
        r = outcome(t.get_sysctl_module, c["sysctl"])
    finally:
        SM.SimpLLSysctlTable = old
    got = [r if isinstance(r, Crash) else [r.ctl_table, r.mod.var, r.table_object.name, r.table_object.module], seq]
    parts = c["sysctl"].split(".")
    fam = {"kernel": 1, "vm": 1, "fs": 1, "debug": 1, "dev": 1}
    if parts[0] in fam:
        table, rest = "sysctl_base_table", parts
    elif parts[:3] == ["net", "ipv4", "conf"]:
        table, rest = "devinet_sysctl.1", parts[4:]
    elif parts[:2] == ["net", "ipv4"]:
        table, rest = "ipv4_table", parts[2:]
    elif parts[:2] == ["net", "core"]:
        table, rest = "net_core_table", parts[2:]
    else:
        table, rest = None, []
    ws = []
    for i, x in enumerate(rest):
        if table is None or table.split(".")[0] == c["missing"]:
            table = None
            break
        if i < len(rest) - 1:
            ws.append([table, x])
            table = c["children"][i]
    if not rest or table is None:
        return got, [Crash(SourceNotFoundException("x")), ws]
    v = table.split(".")[0]
    return got, [[table, v, table, "parsed " + v], ws]

from .base import *
stub_simpll()
sys.modules["diffkemp.simpll._simpll"].lib.freeModule = lambda p: None
import os, yaml, signal, types
from subprocess import CalledProcessError
import diffkemp.simpll.simpll as S
import diffkemp.simpll.library as L
import diffkemp.config as CF
from diffkemp.config import Config, BuiltinPatterns, ConfigException
from diffkemp.semdiff.custom_pattern_config import CustomPatternConfig
import specs.c20 as spec

RULE = ("requests over pattern switches, output options, verbosity, variable, suffix, cache directory, custom patterns and cached modules, by both routes, with an echoing engine "
        "that may fail or answer nonsense; non-trivial: some option is not its default")
MAX = {"quick": 900, "thorough": 8000}
SW = spec.PatternStruct().__dict__.keys()
NAMES = ["struct_alignment", "function_splits", "unused_return_types", "kernel_prints", "dead_code", "numerical_macros", "relocations", "type_casts",
         "control_flow_only", "inverse_conditions", "reordered_bin_ops", "group_vars"]


def cases(rng):
    def one(**k):
        c = {"ffi": rng.random() < .5, "pat": [rng.random() < .5 for _ in NAMES], "llvm": rng.random() < .5, "asm": rng.random() < .5, "stat": rng.random() < .5,
             "verb": rng.choice([0, 0, 1, 2]), "var": rng.choice([None, None, "", "v"]), "suffix": rng.choice([None, "s", "f.g", ""]),
             "dir": rng.choice([None, "/c/d", ""]), "custom": rng.choice([None, "/p/x.ll"]), "first": rng.choice(["/o.d/m.ll", "/old/a.b.ll", "plain", "/o.d/noext"]),
             "second": rng.choice(["/new/m.ll", "/n.x/noext"]), "fun": [rng.choice(["f", "g"]), rng.choice(["f", "g"])],
             "have": rng.choice([[], [0], [1], [0, 1]]), "wish": rng.choice([None, [], [0], [0, 1], [0, 1, 2]]),
             "fault": rng.choice([None] * 8 + ["fail", "nonsense", "list", "empty", "odd"]), "res": [rng.choice(["f", "g.1", "h"]) for _ in range(rng.randint(0, 3))]}
        c.update(k)
        return c
    for ffi in (True, False):
        for i in range(12):
            yield one(ffi=ffi, pat=[j == i for j in range(12)], fault=None)
        for f in ("fail", "nonsense", "list", "empty", None):
            for have in ([], [0, 1]):
                yield one(ffi=ffi, fault=f, have=have)
    while True:
        yield one()


def trivial(c):
    return not any(c["pat"]) and not c["llvm"] and not c["var"]


def b(x):
    """text handed over as C memory"""
    x = x.init if isinstance(x, Char) else x
    if not isinstance(x, bytes):
        raise TypeError("C string expected, got %r" % (x,))
    return x.decode("ascii")


class Struct:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __setattr__(self, k, v):
        if k not in self.__dict__:
            raise AttributeError(k)
        self.__dict__[k] = v


class Ptr:
    def __init__(self, x):
        self.__dict__["x"] = x

    def __getitem__(self, i):
        return self.x

    def __getattr__(self, k):
        return getattr(self.x, k)

    def __setattr__(self, k, v):
        setattr(self.x, k, v)


class FakeFFI(FFI):
    error = type("FfiError", (Exception,), {})

    def new(self, t, init=None):
        if "builtin_patterns" in t:
            return Ptr(Struct(kind="patterns", **{n: False for n in SW}))
        if "config" in t:
            return Ptr(Struct(kind="config", CacheDir=Char("", b""), CustomPatterns=Char("", b""), Variable=Char("", b""), BuiltinPatterns=None,
                              OutputLlvmIR=False, PrintAsmDiffs=False, PrintCallStacks=False, ExtendedStat=False, Verbosity=0))
        return Char(t, init)

    def string(self, c):
        return c.init


def patterns(p):
    if not isinstance(p, Struct) or p.kind != "patterns":
        raise TypeError("pattern structure expected")
    return {k: bool(v) for k, v in p.__dict__.items() if k != "kind"}


def run(c):
    log = []
    results = [{"first": {"function": n, "calls": []}, "second": {"function": n.split(".")[0], "calls": []}, "result": "equal"} for n in c["res"]]

    def answer(echo):
        if c["fault"] == "nonsense":
            return b"{: ]["
        if c["fault"] == "list":
            return b"- a\n- b\n"
        if c["fault"] == "empty":
            return b""
        if c["fault"] == "odd":
            return yaml.dump({"missing-defs": [echo]}).encode()
        return yaml.dump({"function-results": results, "missing-defs": [echo]}).encode()

    class Lib:
        def loadModule(self, p):
            log.append(("load", b(p)))
            return "module " + b(p)

        def freeModule(self, p):
            pass

        def preprocessModuleC(self, p, pat):
            log.append(("preprocess", p, patterns(pat)))

        def go(self, left, right, lo, ro, fl, fr, conf, out):
            if not isinstance(conf, Struct) or conf.kind != "config":
                raise TypeError("configuration structure expected")
            out.init = answer(["lib", left, right, b(lo), b(ro), b(fl), b(fr), b(conf.CacheDir), b(conf.CustomPatterns), b(conf.Variable), patterns(conf.BuiltinPatterns),
                               bool(conf.OutputLlvmIR), bool(conf.PrintAsmDiffs), bool(conf.PrintCallStacks), bool(conf.ExtendedStat), conf.Verbosity])

        def runSimpLL(self, left, right, *a):
            if c["fault"] == "fail":
                os._exit(3)
            self.go(left, right, *a)

        def parseAndRunSimpLL(self, left, right, *a):
            if c["fault"] == "fail":
                raise ffi.error("failed")
            self.go(b(left), b(right), *a)

        def shutdownSimpLL(self):
            pass

    def program(cmd, **k):
        if c["fault"] == "fail":
            raise CalledProcessError(1, cmd)
        return answer(["program", list(cmd)])
    ffi, lib = FakeFFI(), Lib()
    saved = (S.ffi, S.lib, L.ffi, L.lib, CF.ffi, S.check_output, S.check_call)
    S.ffi = L.ffi = CF.ffi = ffi
    S.lib = L.lib = lib
    S.check_output = program
    S.check_call = lambda cmd, **k: log.append(("call", list(cmd)))
    import io, contextlib
    try:
        conf = Config(output_llvm_ir=c["llvm"], print_asm_diffs=c["asm"], extended_stat=c["stat"], verbosity=c["verb"], use_ffi=c["ffi"],
                      custom_pattern_config=Struct(path=c["custom"]) if c["custom"] else None, builtin_patterns=BuiltinPatterns(**dict(zip(NAMES, c["pat"]))))
        mods = [c["first"], c["second"], "/other.ll"]
        cache = {mods[i]: L.SimpLLModule(mods[i]) for i in c["have"]}
        log.clear()
        with contextlib.redirect_stdout(io.StringIO()):
            got = outcome(lambda: S.run_simpll(c["first"], c["second"], c["fun"][0], c["fun"][1], c["var"], conf, c["suffix"], c["dir"], cache,
                                               None if c["wish"] is None else [mods[i] for i in c["wish"]]))
    finally:
        S.ffi, S.lib, L.ffi, L.lib, CF.ffi, S.check_output, S.check_call = saved
    # what is expected
    on = dict(zip([n.replace("_", "-") for n in NAMES], c["pat"]))
    if on["control-flow-only"]:
        on["type-casts"] = True
    pats = {"".join(w.capitalize() for w in n.split("-")): v for n, v in on.items()}

    def named(p):
        name, ext = os.path.splitext(p)
        return name + "-" + c["suffix"] + ext if c["suffix"] else p
    lo, ro = named(c["first"]), named(c["second"])
    want_log = []
    have = [mods[i] for i in c["have"]]
    if c["ffi"]:
        for i in (0, 1):
            if mods[i] not in have and c["wish"] and i in c["wish"]:
                want_log += [("load", mods[i]), ("preprocess", "module " + mods[i], pats)]
                have.append(mods[i])
        both = c["first"] in have and c["second"] in have
        pre = "module " if both else ""
        echo = ["lib", pre + c["first"], pre + c["second"], lo, ro, c["fun"][0], c["fun"][1], c["dir"] or "", c["custom"] or "", c["var"] or "", pats,
                c["llvm"], c["asm"], True, c["stat"], c["verb"]]
    else:
        cmd = [c["first"], c["second"], "--print-callstacks", "--fun", c["fun"][0] if c["fun"][0] == c["fun"][1] else ",".join(c["fun"])]
        cmd += ["--var", c["var"]] if c["var"] else []
        cmd += ["--suffix", c["suffix"]] if c["suffix"] and c["llvm"] else []
        cmd += ["--cache-dir", c["dir"]] if c["dir"] else []
        cmd += ["--custom-pattern-config", c["custom"]] if c["custom"] else []
        cmd += ["--%s=%s" % (n, v) for n, v in on.items()]
        cmd += ["--output-llvm-ir"] if c["llvm"] else []
        cmd += ["--print-asm-diffs"] if c["asm"] else []
        cmd += ["--extended-stat"] if c["stat"] else []
        cmd += ["--verbosity", str(c["verb"])] if c["verb"] else []
        echo = ["program", cmd]
    log = [e[:1] + (sorted(e[1]),) if e[0] == "call" else e for e in log]
    if c["llvm"] and c["fault"] != "fail":
        want_log += [("call", sorted(["opt", p, "-passes=module(deadargelim)" if S_version() >= 16 else "-deadargelim", "-S", "-o", p])) for p in (lo, ro)]
    if isinstance(got, Crash):
        return (type(got.e).__name__, log), ("SimpLLException" if c["fault"] in ("fail", "nonsense", "list", "empty") else "a result", want_log)
    if c["fault"] in ("fail", "nonsense", "list", "empty"):
        return ("a result", log), ("SimpLLException", want_log)
    a, z, graph, missing = got
    m = missing[0]
    if m[0] == "program":
        m = ["program", groups(m[1][1:])]
        echo = ["program", groups(echo[1])]
    keys = set() if c["fault"] == "odd" else {n if "." in n else n for n in c["res"]}
    return (a.llvm, z.llvm, m, sorted(x.split(".void")[0] for x in graph.vertices), log), (lo, ro, echo, sorted({x.split(".void")[0] for x in keys}), want_log)


def groups(cmd):
    """the options with their values and the positional arguments, whatever the order of the options"""
    opts, pos, i = [], [], 0
    while i < len(cmd):
        if cmd[i] in ("--fun", "--var", "--suffix", "--cache-dir", "--custom-pattern-config", "--verbosity"):
            opts.append("=".join(cmd[i:i + 2]))
            i += 1
        elif cmd[i].startswith("--"):
            opts.append(cmd[i])
        else:
            pos.append(cmd[i])
        i += 1
    return pos, sorted(opts)


def S_version():
    from diffkemp.utils import get_llvm_version
    return get_llvm_version()

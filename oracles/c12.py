from .base import *
stub_simpll()
import io, contextlib, tempfile, types
from diffkemp.diffkemp import read_symbol_list, generate_from_function_list
from diffkemp.snapshot import Snapshot
from diffkemp.llvm_ir.llvm_module import LlvmModule
from diffkemp.llvm_ir.source_tree import SourceNotFoundException

RULE = "symbol lists of up to 12 lines (symbols, blanks, comments, other characters), recorded against scripted lookups; non-trivial: a line is a symbol"
MAX = {"quick": 6000, "thorough": 100000}
LINES = ["f", "_f", "g1", "  h  ", "\th2\t", "__x", "", "  ", "# c", "1f", "-f", "f g", ".f", "é", "(f)", "f\x0c", "\xa0k", "*", "F", "a" * 30, "$v", "_", "9", "f;"]


def cases(rng):
    while True:
        ls = [rng.choice(LINES) for _ in range(rng.randint(0, 12))]
        yield {"lines": ls, "end": rng.choice(["", "\n"]), "found": [rng.choice(["def", "def", "nodef", "none"]) for _ in range(12)], "before": rng.random() < .3}


def trivial(c):
    return not any(l.strip()[:1].isalpha() or l.strip()[:1] == "_" for l in c["lines"])


def run(c):
    d = tempfile.mkdtemp()
    p = os.path.join(d, "list")
    with open(p, "w") as f:
        f.write("\n".join(c["lines"]) + c["end"])
    got = outcome(read_symbol_list, p)
    os.remove(p)
    os.rmdir(d)
    want = [l.strip() for l in c["lines"] if l.strip() and (l.strip()[0].isalpha() or l.strip()[0] == "_")]
    if isinstance(got, Crash) or got != want:
        return got, want
    mods, look, asked = {}, {}, []
    def get(s, *a):
        asked.append(s)
        k = look.setdefault(s, c["found"][len(look)])
        if k == "none":
            raise SourceNotFoundException(s)
        m = mods.setdefault(s, LlvmModule("/k/%s.ll" % s))
        m.has_function = lambda f: k == "def" and f == s
        return m
    tree = types.SimpleNamespace(source_dir="/k", get_module_for_symbol=get)
    snap = Snapshot(tree, tree)
    old = LlvmModule("/k/o.ll")
    if c["before"]:
        snap.add_fun("zzz", old, "v", "t", "g")
        snap.add_fun("f", old, "v", "t")
    with contextlib.redirect_stdout(io.StringIO()):
        r = outcome(generate_from_function_list, snap, got)
    have = {g: {n: (x.mod, x.glob_var, x.tag) for n, x in fs.functions.items()} for g, fs in snap.fun_groups.items()}
    exp = {"g": {"zzz": (old, "v", "t")}, None: {"f": (old, "v", "t")}} if c["before"] else {}
    for s in want:
        exp.setdefault(None, {})[s] = (mods[s] if look.get(s) == "def" else None, None, None)
    return (repr(r), have), ("None", exp)

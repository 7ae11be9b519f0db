from .base import *
stub_simpll()
import subprocess, tempfile, shutil
import diffkemp.llvm_ir.llvm_module as LM
from diffkemp.llvm_ir.source_tree import SourceTree
from diffkemp.llvm_ir.llvm_source_finder import SourceNotFoundException

RULE = "histories of up to 8 operations (find with and without time limit, link, restore, free, parse) on up to 4 modules in files whose names may contain '-linked', every tool failing at chosen points; non-trivial: at least one link"
MAX = {"quick": 2500, "thorough": 60000}
NAMES = ["a", "b-linked", "s/a"]
TEXT = ["a", "b", "c"]


def cases(rng):
    while True:
        ops = []
        for _ in range(rng.randint(1, 8)):
            k = rng.choice(["link", "link", "link", "restore", "free", "parse", "find", "use"])
            op = [k, rng.randrange(3)]
            if k == "link":
                op += [[rng.randrange(3) for _ in range(rng.randint(0, 3))], rng.choice([None, None, None, "link", "opt", "load", "none"])]
            if k == "find":
                op += [rng.choice([None, 50, 100, 100.25, 150, 0]), rng.choice(["abs", "rel", "rel", "gone", "none"])]
            ops.append(op)
        yield {"dir": rng.choice(["d", "d-linked"]), "ops": ops, "mtime": [rng.choice([50, 100, 100.5, 150]) for _ in NAMES]}


def trivial(c):
    return not any(o[0] == "link" and o[2] for o in c["ops"])


class Finder:
    def __init__(self, f):
        self.f = f

    def find_llvm_with_symbol_def(self, s):
        return self.f(s)

    def find_llvm_with_symbol_use(self, s):
        return [x for x in [self.f(s)] if x]


def run(c):
    root = tempfile.mkdtemp(prefix="c25")
    fail = [None]

    def call(cmd, **k):
        out = cmd[cmd.index("-o") + 1]
        if cmd[0].endswith("llvm-link"):
            if fail[0] == "none":
                raise FileNotFoundError(cmd[0])
            if fail[0] == "link":
                raise subprocess.CalledProcessError(1, cmd)
            src = [x for i, x in enumerate(cmd[1:-2]) if not x.startswith("-")]
            text = " ".join(sorted({w for x in src for w in open(x).read().split()}))
        else:
            if fail[0] == "opt":
                raise subprocess.CalledProcessError(1, cmd)
            text = open(cmd[1]).read()
        with open(out, "w") as f:
            f.write(text)
        return 0

    class Loaded:
        def __init__(self, path):
            if fail[0] == "load":
                raise ValueError("Cannot import module " + path)
            self.text = open(path).read()
    old = LM.check_call, LM.SimpLLModule, LM.get_opt_command, subprocess.check_call
    LM.check_call, LM.SimpLLModule = call, Loaded
    subprocess.check_call = call
    LM.get_opt_command = lambda p, f, overwrite=True: ["opt", f, "-S", "-o", f]
    try:
        d = os.path.join(root, c["dir"])
        os.makedirs(d + "/s")
        files = [os.path.join(d, n + ".ll") for n in NAMES]
        for f, n, t in zip(files, TEXT, c["mtime"]):
            with open(f, "w") as o:
                o.write(n)
            os.utime(f, (t, t))
        kind = ["rel"]

        def where(s):
            return {"rel": NAMES[s] + ".ll", "abs": files[s], "gone": "gone%d.ll" % s, "none": None}[kind[0]]
        tree = SourceTree(d, Finder(where))
        ms = [tree.get_module_for_symbol(i) for i in range(3)]
        model = [[n] for n in TEXT]         # what the current file defines
        linked = [[] for _ in NAMES]
        got, want = [], []
        for op in c["ops"]:
            k, i = op[:2]
            fail[0] = op[3] if k == "link" else None
            if k == "link":
                o = [j for j in op[2]]
                new = [j for j in o if j not in linked[i]]
                r = outcome(ms[i].link_modules, [ms[j] for j in o])
                w = bool(new) and op[3] is None
                if w:
                    model[i] = sorted(set(model[i]) | {x for j in new for x in model[j]})
                    linked[i] = linked[i] + new
            elif k == "restore":
                r, w = outcome(ms[i].restore_unlinked_llvm), None
                model[i], linked[i] = [TEXT[i]], []
            elif k == "free":
                r, w = outcome(ms[i].clean_module), None
            elif k == "parse":
                fail[0] = None
                outcome(ms[i].parse_module)
                r, w = outcome(lambda: ms[i].llvm_module.text), " ".join(model[i])
            elif k == "use":
                kind[0] = "rel"
                r, w = outcome(lambda: [m is ms[i] for m in tree.get_modules_using_symbol(i)]), [True]
            else:
                kind[0] = op[3]
                r = outcome(lambda: tree.get_module_for_symbol(i, op[2]) is ms[i])
                here = op[3] in ("rel", "abs") and not (op[2] and os.path.getmtime(files[i]) > op[2])
                w = True if here else Crash(SourceNotFoundException("x"))
            fail[0] = None
            got.append([r])
            want.append([w])
            for j in range(3):
                got[-1].append([outcome(lambda: open(ms[j].llvm).read()), open(files[j]).read(), ms[j].llvm == files[j], [ms[j].links_mod(x) for x in ms]])
                want[-1].append([" ".join(model[j]), TEXT[j], not linked[j], [x in linked[j] for x in range(3)]])
        return got, want
    finally:
        LM.check_call, LM.SimpLLModule, LM.get_opt_command, subprocess.check_call = old
        shutil.rmtree(root)

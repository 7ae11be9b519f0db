from .base import *
stub_simpll()
import datetime, shutil, tempfile, types
import diffkemp.snapshot as sm
from diffkemp.snapshot import Snapshot
from diffkemp.llvm_ir.llvm_module import LlvmModule
from diffkemp.llvm_ir.source_tree import SourceTree

RULE = "histories of additions, lookups and filterings in up to three groups, then writing and reading back; non-trivial: at least two functions"
MAX = {"quick": 1500, "thorough": 30000}
NAMES = ["f", "g", "h", "no", "null", "1e3", "a: b", "0x10", "yes", "_x", "f.isra.0", "~"]
MODS = [None, "a.ll", "d/b.ll", "../out.ll", "d e/ž.ll"]
STR = [None, None, "v", "no", "12", "", "handler"]


def cases(rng):
    while True:
        sysctl = rng.random() < .5
        groups = ["net.a", "vm.b", "no"] if sysctl else [None]
        ops = []
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            ops.append(["add", rng.choice(NAMES), rng.choice(MODS), rng.choice(STR), rng.choice(STR), rng.choice(groups)])
        if ops and rng.random() < .4:
            g = rng.choice(ops)[5]
            here = list(dict.fromkeys(o[1] for o in ops if o[5] == g))
            rng.shuffle(here)
            ops.append(["filter", here[:rng.randint(0, len(here))], g])
            if rng.random() < .5:
                ops.append(["add", rng.choice(NAMES), rng.choice(MODS), None, None, rng.choice(groups)])
        yield {"sysctl": sysctl, "ops": ops, "store": rng.random() < .8, "cwd": rng.random() < .5}


def trivial(c):
    return len(c["ops"]) < 2


def run(c):
    d = os.path.realpath(tempfile.mkdtemp())
    cwd, gv, rq = os.getcwd(), sm.get_llvm_version, sm.pkg_resources.require
    err = sys.stderr
    try:
        sm.get_llvm_version = lambda: 16
        sm.pkg_resources.require = lambda n: [types.SimpleNamespace(version="0")]
        sys.stderr = open(os.devnull, "w")
        root, snapdir = os.path.join(d, "src"), os.path.join(d, "snap")
        os.mkdir(root)
        os.mkdir(snapdir)
        if c["cwd"]:
            os.chdir(d)
            snapdir = "snap"
        src, tree = SourceTree(root), SourceTree(snapdir)
        src.source_finder = types.SimpleNamespace(str=lambda: "nothing")
        s = Snapshot(src, tree, "sysctl" if c["sysctl"] else "function", c["store"])
        model, mods, found = {}, {}, []
        for o in c["ops"]:
            if o[0] == "add":
                _, n, m, gl, tag, g = o
                mod = m and mods.setdefault(m, LlvmModule(os.path.join(snapdir, m)))
                s.add_fun(n, mod, gl, tag, g)
                model.setdefault(g, {})[n] = (mod, gl, tag)
            else:
                s.filter(o[1], o[2])
                model[o[2]] = {n: model[o[2]][n] for n in o[1]}
            for g in [None, "net.a", "vm.b"]:
                for n in NAMES:
                    x = s.get_by_name(n, g)
                    found.append((x and (x.mod, x.glob_var, x.tag)) == model.get(g, {}).get(n))
        listed = {m for g in model.values() for m, _, _ in g.values() if m}
        lists = {g: [(n, x.mod, x.glob_var, x.tag) for n, x in f.functions.items()] for g, f in s.fun_groups.items()}
        wlists = {g: [(n,) + x for n, x in f.items()] for g, f in model.items()}
        back = Snapshot(None, SourceTree(snapdir))
        text = s.to_yaml()
        r = outcome(back._from_yaml, text)
        if isinstance(r, Crash):
            return r, "the list read back"
        rel = lambda m: m and os.path.relpath(m.llvm, snapdir)
        # an empty group of a function list is the empty list
        got = {g: [(n, rel(x.mod), x.glob_var, x.tag) for n, x in f.functions.items()] for g, f in back.fun_groups.items()}
        want = {g: [(n, rel(m), gl, tag) for n, (m, gl, tag) in f.items()] for g, f in model.items() if f}
        return (all(found), s.modules() == listed, lists, got, back.list_kind), (True, True, wlists, want, s.list_kind)
    finally:
        sys.stderr = err
        sm.get_llvm_version, sm.pkg_resources.require = gv, rq
        os.chdir(cwd)
        shutil.rmtree(d)

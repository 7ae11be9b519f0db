from .base import *
stub_simpll()
import tempfile, shutil, posixpath
from diffkemp.llvm_ir.llvm_module import LlvmModule
from diffkemp.llvm_ir.source_tree import SourceTree

RULE = "up to 3 modules inside, beside (also in a sibling directory whose name begins with the project's) and outside a project, naming up to 5 sources each by relative, absolute and non-normal paths, target empty or with earlier copies, inside or outside the project; non-trivial: a module inside the project"
MAX = {"quick": 2500, "thorough": 40000}
DIRS = ["p", "p/a", "p/a/b", "p2", "o", "p/p"]
SRC = ["p/x.c", "p/a/y.h", "p/a/b/z.c", "p2/w.h", "o/v.h", "p/a/u.txt", "p/p/t.h"]
LINES = ["define i32 @f() {\n", "@s = constant [9 x i8] c\"@R@/a\"\n", "!1 = !DIString(\"@R@/q\")\n", "; constant @R@\n", "!2 = \"@R@2/w\"\n", "last @R@"]


def cases(rng):
    while True:
        ms = []
        for i in range(rng.randint(1, 3)):
            refs = []
            for _ in range(rng.randint(0, 5)):
                s = rng.choice(SRC)
                refs.append([s, rng.choice(["norm", "norm", "abs", "dots", "up"])])
            ms.append([rng.choice(DIRS), refs, [rng.choice(LINES) for _ in range(rng.randint(0, 4))], rng.choice([None, None, "p/x.c", "o/v.c", "p2/w.c", "p/m.c"])])
        yield {"mods": ms, "target": rng.choice(["snap", "snap", "p/snap", "p-snap"]), "old": [s for s in SRC if rng.random() < .2], "slash": rng.random() < .3}


def trivial(c):
    return not any(m[0] == "p" or m[0].startswith("p/") for m in c["mods"])


def ref(root, s, how):
    """(directory, filename) naming root/s"""
    d, f = posixpath.split(root + "/" + s)
    if how == "norm":
        return d, f
    if how == "abs":
        return root + "/o", d + "/" + f
    if how == "dots":
        return d + "/../" + posixpath.basename(d), f
    return root + "/p", posixpath.relpath(root + "/" + s, root + "/p")


def listing(root):
    out = {}
    for d, ds, fs in os.walk(root):
        out[d[len(root):] + "/"] = "dir"
        for f in fs:
            out[d[len(root):] + "/" + f] = open(os.path.join(d, f)).read().replace(root.strip("/"), "@ROOT@")
    return out


def run(c):
    root = os.path.realpath(tempfile.mkdtemp(prefix="c26"))
    try:
        def put(path, text):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(text)
        for d in DIRS:
            os.makedirs(root + "/" + d, exist_ok=True)
        for s in SRC + ["o/v.c", "p2/w.c", "p/m.c"]:
            put(root + "/" + s, "src " + s)
        src, dst = root + "/p", root + "/" + c["target"]
        os.makedirs(dst, exist_ok=True)
        for s in c["old"]:
            if s.startswith("p/"):
                put(dst + s[1:], "older " + s)
        mods, texts = [], []
        for i, (d, refs, lines, source) in enumerate(c["mods"]):
            text = "".join(x.replace("@R@", src) if x.endswith("\n") else x.replace("@R@", src) + "\n" for x in lines)
            for s, how in refs:
                dd, f = ref(root, s, how)
                text += '!9 = !DIFile(filename: "%s", directory: "%s")\n' % (f, dd)
            path = "%s/%s/m%d.ll" % (root, d, i)
            put(path, text)
            texts.append(text)
            mods.append(LlvmModule(path, root + "/" + source if source else None))
        before = [(m.llvm, m.source) for m in mods]
        want = listing(root)

        def add(rel, text, over=True):
            parts = rel.split("/")
            for i in range(1, len(parts)):
                want.setdefault("/".join(parts[:i]) + "/", "dir")
            if over or rel not in want:
                want[rel] = text.replace(root.strip("/"), "@ROOT@")
        inp = lambda p: p == src or p.startswith(src + "/")
        t = "/" + c["target"]
        wm = []
        for (llvm, source), text, (d, refs, lines, _) in zip(before, texts, c["mods"]):
            for s, how in refs:
                if s.startswith("p/") and s[-2:] in (".c", ".h"):
                    add(t + s[1:], "src " + s, False)
        for (llvm, source), text in zip(before, texts):
            w = [llvm, source]
            if inp(llvm):
                new = "".join(l if "constant" in l else l.replace(src.strip("/"), dst.strip("/")) for l in text.splitlines(True))
                add(t + llvm[len(src):], new)
                w[0] = dst + llvm[len(src):]
            if source and inp(source):
                add(t + source[len(src):], "src p" + source[len(src):])
                w[1] = dst + source[len(src):]
            wm.append(w)
        wm = [[x.replace(root, "@") if x else x for x in w] for w in wm]
        r = outcome(SourceTree(src + ("/" if c["slash"] else "")).copy_source_files, mods, SourceTree(dst))
        got = listing(root)
        gm = [[os.path.normpath(m.llvm).replace(root, "@"), m.source and os.path.normpath(m.source).replace(root, "@")] for m in mods]
        diff = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        return [repr(r), gm, [[k, got.get(k)] for k in diff]], ["None", wm, [[k, want.get(k)] for k in diff]]
    finally:
        shutil.rmtree(root)

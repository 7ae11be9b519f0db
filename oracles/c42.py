from .base import *
stub_simpll()
import tempfile, shutil, types, io, contextlib
import diffkemp.diffkemp as D
from diffkemp.llvm_ir.source_tree import SourceTree

RULE = "two compiler headers of up to 6 lines (present or not, with and without a final newline) made of the constructs that are edited, what they are edited to, and others; the build failing at each of its steps or not, once or twice; real sed; non-trivial: a header with a construct that is edited"
MAX = {"quick": 400, "thorough": 6000}
LINES = ["#define asm_volatile_goto(x...)\tdo { asm goto(x); asm (\"\"); } while (0)", "#ifdef CONFIG_CC_HAS_ASM_INLINE", "#define asm_inline asm __inline", "#endif",
         "asm (\"goto(\" #x \")\")", "asm goto(x) asm goto(x) asm (\"goto(\" #x \")\")", "#undef CONFIG_CC_HAS_ASM_INLINE", " # ifdef CONFIG_CC_HAS_ASM_INLINE", "\t#ifdef CONFIG_CC_HAS_ASM_INLINE_2 // asm goto(x)", "asm goto (x)", ""]
STEPS = [None, None, "create", "read", "empty", "generate", "write", "exit"]


def cases(rng):
    while True:
        h = [None if rng.random() < .2 else "\n".join(rng.choice(LINES) for _ in range(rng.randint(0, 6))) + rng.choice(["", "\n"]) for _ in range(2)]
        yield {"headers": h, "fail": [rng.choice(STEPS) for _ in range(rng.randint(1, 2))], "sysctl": rng.random() < .4}


def trivial(c):
    return not any(h and ("goto(x)" in h or "#ifdef CONFIG" in h) for h in c["headers"])


def run(c):
    root = tempfile.mkdtemp(prefix="c42")
    src = os.path.join(root, "src")
    os.makedirs(src + "/include/linux")
    hs = [src + "/include/linux/" + n for n in ("compiler-gcc.h", "compiler_types.h")]
    for h, t in zip(hs, c["headers"]):
        if t is not None:
            with open(h, "w") as f:
                f.write(t)
    read = lambda: [open(h).read() if os.path.exists(h) else None for h in hs]
    seen = []
    now = [None]

    def step(name, ret=None):
        def f(*a, **k):
            if now[0] == name:
                raise ValueError(name)
            if name == "generate":
                if now[0] == "exit":
                    raise SystemExit(1)
                seen.append("asm goto(x)" in "".join(x or "" for x in read()))
            return [] if name == "read" and now[0] == "empty" else ret
        return f
    names = ["read_symbol_list", "generate_from_function_list", "generate_from_sysctl_list"]
    old = [getattr(D, n) for n in names] + [D.Snapshot.generate_snapshot_dir, D.Snapshot.create_from_source]
    D.read_symbol_list = step("read", ["f"])
    D.generate_from_function_list = D.generate_from_sysctl_list = step("generate")
    D.Snapshot.generate_snapshot_dir = step("write")
    if "create" in c["fail"]:
        make = old[4]

        def create(*a, **k):
            step("create")()
            return make(*a, **k)
        D.Snapshot.create_from_source = create
    got, want = [], []
    try:
        for f in c["fail"]:
            now[0] = f
            seen.clear()
            args = types.SimpleNamespace(source_dir=src, output_dir=root + "/out", symbol_list=root + "/list", sysctl=c["sysctl"], no_source_dir=False)
            with contextlib.redirect_stderr(io.StringIO()):
                try:
                    D.build_kernel(args)
                    r = "done"
                except (Exception, SystemExit) as e:
                    r = type(e).__name__
            got.append([r, list(seen), read()])
            want.append([{None: "done", "empty": "done", "exit": "SystemExit"}.get(f, "ValueError"), [False] if f in (None, "write") else [], c["headers"]])
        return got, want
    finally:
        for n, o in zip(names, old):
            setattr(D, n, o)
        D.Snapshot.generate_snapshot_dir, D.Snapshot.create_from_source = old[3], old[4]
        shutil.rmtree(root)

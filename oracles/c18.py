from .base import *
stub_simpll()
import contextlib, io, json, os, shutil, subprocess, sys, tempfile
import diffkemp.building.cc_wrapper as W

RULE = ("build commands over compile, link, compile-and-link, assembly and probe steps with object, source and library inputs, dropped and appended "
        "options, missing settings, failing compilers and missing outputs; non-trivial: all settings present; one in thirty runs the real script with stand-in compilers")
MAX = {"quick": 4000, "thorough": 60000}
WORDS = ["a.c", "b.c", "dir/a.c", "a.o", "b.o", "dir/b.o", "x.lo", "x.ko", "lib.a", "-O2", "-Wall", "-g", "-lm", "-I.", "conftest.c", "x.s", "a.b.c", "a.b.o", "a.ll", "-DX=1,2"]
OUTS = ["a.o", "dir/a.o", "m.ko", "prog", "lib.so", "x.lo", "a.s", "conftest", "conftest.o", "a.c", "p:q.o", "p:q", "x.ll"]
NAMES = ["DB_FILENAME", "CLANG", "CLANG_APPEND", "CLANG_DROP", "LLVM_LINK"]


def cases(rng):
    n = 0
    while True:
        n += 1
        a = [rng.choice(WORDS) for _ in range(rng.randint(0, 5))]
        if rng.random() < .55:
            a.insert(rng.randint(0, len(a)), "-c")
        if rng.random() < .75:
            k = rng.randint(0, len(a))
            a[k:k] = ["-o"] + ([rng.choice(OUTS)] if rng.random() < .95 else [])
        yield {"argv": ["cc"] + a, "drop": rng.choice(["", "-O2", "-O2,-Wall", "-I.", "a.o"]), "add": rng.choice(["", "-O1", "-Xclang,-foo"]),
               "missing": rng.choice(NAMES) if rng.random() < .05 else None, "gcc": rng.choice([0, 0, 0, 0, 1, 2, -9]), "llvm": rng.choice([0, 0, 0, 0, 1, -11]),
               "have": [f for f in ["a.ll", "b.ll", "dir/b.ll", "x.ll", "dir/a.ll", "a.b.ll"] if rng.random() < .5], "writes": rng.random() < .9,
               "real": n % 30 == 0, "debug": rng.random() < .2}


def trivial(c):
    return bool(c["missing"])


def mirror(c):
    """What the step is mirrored by: (command, [(kind, file)]) or None."""
    a = c["argv"][1:]
    link = "-c" not in a
    obj = lambda x: x.endswith((".o", ".lo", ".ko"))
    ll = lambda x: x[:x.rindex(".")] + ".ll"
    drop = c["drop"].split(",")
    out, objs, srcs, words, prev = None, False, False, [], "cc"
    for i, x in enumerate(a):
        named = i > 0 and a[i - 1] == "-o"
        if x in drop:
            continue
        if named:
            y = ll(x) if obj(x) and not link else x + ".llw" if link and not obj(x) else x
            out = y
        elif link and obj(x):
            y, objs = ll(x), True
        else:
            y, srcs = x, srcs or x.endswith(".c") and link
        words.append(y)
    if objs and srcs:
        objs = False
        words = [w for w in words if not w.endswith(".ll")]
    if out is not None and not out.endswith((".ll", ".llw")):
        return None
    if out in ("conftest.ll", "conftest.llw") or "conftest.c" in a:
        return None
    if out is not None:
        db = [("f" if objs else "o", out)]
    else:
        db = [] if link else [("o", os.path.basename(w)[:-2] + ".ll") for w in words if w.endswith(".c")]
    if not objs:
        return ["clang"] + words + c["add"].split(",") + ["-S", "-emit-llvm", "-g"], db
    cmd = ["llvm-link", "-S"]
    words = [w for w in words if w.endswith((".ll", ".llw")) or w == "-o"]
    is_name = False
    for w in words:
        if w == "-o":
            cmd.append(w)
        elif is_name or w in c["have"]:
            cmd.append(w)
        is_name = w == "-o" or (False if w != "-o" else is_name)
    return cmd, db


FAKE = r'''#!%s
import json, os, signal, sys
d = %r
open(d + "/log", "a").write(json.dumps([%r] + sys.argv[1:]) + "\n")
for f in %r:
    open(f, "w").close()
if %d < 0:
    os.kill(os.getpid(), -%d)
sys.exit(%d)
'''


def run(c):
    top = tempfile.mkdtemp()
    d = os.path.join(top, "w")
    os.mkdir(d)
    os.mkdir(d + "/dir")
    for f in c["have"]:
        open(os.path.join(d, f), "w").close()
    m = mirror(c)
    made = [f for _, f in m[1]] if m and c["writes"] and c["llvm"] == 0 else []
    env = {"DIFFKEMP_WRAPPER_" + k: v for k, v in zip(NAMES, [top + "/db", "clang", c["add"], c["drop"], "llvm-link"]) if k != c["missing"]}
    if c["debug"]:
        env["DIFFKEMP_WRAPPER_DEBUG"] = "1"
    cwd, calls = os.getcwd(), []
    try:
        os.chdir(d)
        if c["real"]:
            os.mkdir(top + "/bin")
            for n in ("gcc", "clang", "llvm-link"):
                code = c["gcc"] if n == "gcc" else c["llvm"]
                with open(top + "/bin/" + n, "w") as f:
                    f.write(FAKE % (sys.executable, top, n, made if n != "gcc" else [], code, abs(code), max(code, 0)))
                os.chmod(top + "/bin/" + n, 0o755)
            env["PATH"] = top + "/bin"
            r = subprocess.run([sys.executable, W.__file__] + c["argv"][1:], env=env, capture_output=True).returncode
            code = r
            if os.path.exists(top + "/log"):
                calls = [json.loads(x) for x in open(top + "/log")]
        else:
            def call(tool, args):
                calls.append([tool] + list(args[1:]))
                if (c["gcc"] if len(calls) == 1 else c["llvm"]) != 0:
                    raise W.CalledProcessError()
                if len(calls) > 1:
                    for f in made:
                        open(f, "w").close()
            keep, saved = W.check_call, dict(os.environ)
            W.check_call = call
            for k in [k for k in os.environ if k.startswith("DIFFKEMP_WRAPPER")]:
                del os.environ[k]
            os.environ.update(env)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    code = W.wrapper(list(c["argv"]))
            finally:
                W.check_call = keep
                os.environ.clear()
                os.environ.update(saved)
        db = open(top + "/db").read().split("\n")[:-1] if os.path.exists(top + "/db") else []
        if c["missing"]:
            return [bool(code), calls, db], [True, [], []]
        want = [["gcc"] + c["argv"][1:]]
        if c["gcc"]:
            return [bool(code), calls, db], [True, want, []]
        entries = []
        if m:
            want.append(m[0])
            if not c["llvm"]:
                entries = ["%s:%s" % (k, os.path.join(d, f)) for k, f in m[1] if os.path.exists(f)]
        return [code, calls, db], [0, want, entries]
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)

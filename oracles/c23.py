from .base import *
stub_simpll()
import contextlib, io, os, shutil, tempfile
from subprocess import CalledProcessError
import diffkemp.semdiff.custom_pattern_config as M

RULE = ("configurations naming up to six pattern files, valid, invalid, missing or of other kinds, in strict, warning, default and unknown mode, and pattern files given "
        "directly; one in forty uses the real verifier; non-trivial: a pattern is named")
MAX = {"quick": 2500, "thorough": 30000}
os.environ["PATH"] = "/usr/lib/llvm-16/bin:" + os.environ["PATH"]
GOOD, BAD = "define void @diffkemp.old.f() {\n  ret void\n}\n", "define void @f( {\n"
FILES = {"a.ll": 1, "b.ll": 1, "c.LL": 1, "bad.ll": 0, "worse.Ll": 0, "x.c": None, "noext": None, "y.l": None, "gone.ll": "gone", "sub/d.ll": 1}


def cases(rng):
    n = 0
    while True:
        n += 1
        pats = [rng.choice(sorted(FILES)) for _ in range(rng.randint(0, 6))]
        if rng.random() < .5:
            pats = [p for p in pats if FILES[p] == 1 or rng.random() < .3 and FILES[p] != "gone"]
        yield {"pats": pats if rng.random() < .95 else None, "mode": rng.choice(["ERROR", "WARN", "WARN", "WARN", None, "IGNORE"]), "name": rng.choice(["conf.yaml", "conf", "conf.l", "c.yml"]),
               "direct": rng.choice([f for f in sorted(FILES) if f.lower().endswith(".ll")]) if rng.random() < .15 else None, "dir": rng.random() < .5, "real": n % 40 == 0}


def trivial(c):
    return not (c["pats"] or c["direct"])


def run(c):
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    keep = M.check_call
    verified = []
    try:
        os.chdir(d)
        os.makedirs("p/sub")
        os.makedirs("sub")
        for pre in ("", "p/"):
            for f, k in FILES.items():
                if k != "gone":
                    open(pre + f, "w").write(GOOD if k else BAD)
        pre = "p/" if c["dir"] else ""
        import yaml
        conf = {}
        if c["mode"]:
            conf["on_parse_failure"] = c["mode"]
        if c["pats"] is not None:
            conf["patterns"] = c["pats"]
        open(c["name"], "w").write(yaml.dump(conf))
        if not c["real"]:
            def call(cmd, **kw):
                verified.append(cmd[1])
                if open(cmd[1]).read() != GOOD:
                    raise CalledProcessError(1, cmd)
            M.check_call = call
        err = lambda e: type(e).__name__
        with contextlib.redirect_stdout(io.StringIO()) as out:
            try:
                got = M.CustomPatternConfig.create_from_file(c["direct"] or c["name"], "p" if c["dir"] else None)
                got = sorted(got.pattern_files)
            except ValueError as e:
                got = err(e)
        got = [got, len(out.getvalue().splitlines()), sorted(set(verified))]
        strict = c["mode"] in (None, "ERROR")
        if c["direct"]:
            if FILES[c["direct"]] == "gone":
                return got, ["ValueError", 0, []]
            pats, strict = [c["direct"]], True
        else:
            pats = c["pats"]
        if pats is None:
            return got, [[], 0, []]
        if not c["direct"] and c["mode"] == "IGNORE":
            return got, ["ValueError", 0, []]
        used, msgs, seen = set(), 0, set()
        for p in pats:
            k = FILES[p]
            if k == "gone":
                return [got[0], got[1], got[2]], ["ValueError", msgs, sorted(seen)]
            ir = p.lower().endswith(".ll")
            if ir and not c["real"]:
                seen.add(pre + p)
            if ir and k:
                used.add(pre + p)
            elif strict:
                return got, ["UnsupportedCustomPatternError", msgs, sorted(seen)]
            else:
                msgs += 1
        return got, [sorted(used), msgs, sorted(seen)]
    finally:
        M.check_call = keep
        os.chdir(cwd)
        shutil.rmtree(d)

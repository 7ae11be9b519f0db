from .base import *
stub_simpll()
import os, tempfile, atexit, shutil, yaml
from diffkemp.output import YamlOutput
from diffkemp.semdiff.caching import ComparisonGraph as G
from diffkemp.semdiff.result import Result

RULE = "random comparison results (verdicts, covered and empty differences, stacks with macros and types, renamed functions, unreadable files), saved and read back; non-trivial: something is not equal"
MAX = {"quick": 2500, "thorough": 20000}
D = tempfile.mkdtemp(prefix="c13-")
atexit.register(shutil.rmtree, D, True)
OLD, NEW = D + "/old", D + "/new"
TEXT = ["int f()", "{", "}", "struct s {", "  int a;", "};", "int g(int x,", "      int y", ");", "} ", "x"]
for s in (OLD, NEW):
    os.makedirs(s + "/lib")
    for i, n in enumerate(("a.c", "lib/b.h")):
        open(s + "/" + n, "w").write("\n".join(TEXT[i:] + TEXT) + "\n")
    open(s + "/bin.c", "wb").write(b"\xff\xfe\n}\n")
FILES = ["a.c", "lib/b.h", "bin.c"]


def cases(rng):
    def calls():
        if rng.random() < .2:
            return None
        out = []
        for _ in range(rng.randint(0, 3)):
            out.append({"name": rng.choice(["f", "g", "h", "M (macro)", "s (type)", "u (type)", "q (function)"]), "file": rng.choice(FILES[:2]), "line": rng.randint(1, 9)})
        return out
    while True:
        fs = rng.sample(["f", "g", "h", "k", "zz"], rng.randint(1, 4))
        res = []
        for f in fs:
            ds = [{"name": rng.choice(["f", "g", "h", "s", "M"]), "diff": rng.choice(["", "d", None]), "cov": rng.random() < .4, "a": calls(), "b": calls()} for _ in range(rng.randint(0, 3))]
            res.append({"fun": f, "kind": rng.choice(["NOT_EQUAL", "NOT_EQUAL", "EQUAL", "UNKNOWN", "ERROR"]), "diffs": ds})
        verts = []
        for n in rng.sample(["f", "g", "h", "k", "zz", "q"], rng.randint(0, 5)):
            tys = [[rng.choice(["s", "u"]), rng.choice(["type", "type", "syntax"]), rng.randint(1, 9), rng.randint(1, 9)] for _ in range(rng.randint(0, 2))]
            verts.append([n, rng.choice([n, n, n + "2"]), rng.choice(FILES), rng.choice(FILES), rng.randint(1, 14), rng.randint(1, 14), tys])
        yield {"res": res, "verts": verts, "graph": rng.random() < .9}


def trivial(c):
    return not any(r["kind"] == "NOT_EQUAL" for r in c["res"])


def end(path, line, kind):
    try:
        lines = open(path, encoding="utf-8").read().split("\n")[:-1]
    except UnicodeDecodeError:
        return {}
    for i in range(line, len(lines) + 1):
        if lines[i - 1].rstrip() in (["}", ");"] if kind == "function" else ["};"]):
            return {"end-line": i}
    return {}


def run(c):
    top = Result(Result.Kind.NONE, "old", "new")
    for r in c["res"]:
        x = Result(Result.Kind[r["kind"]], r["fun"], r["fun"])
        for d in r["diffs"]:
            y = Result(Result.Kind.NOT_EQUAL, d["name"], d["name"])
            y.diff = d["diff"]
            y.first.covered = d["cov"]
            for e, calls, s in ((y.first, d["a"], OLD), (y.second, d["b"], NEW)):
                e.callstack = None if calls is None else Result.Callstack([dict(k, file=s + "/" + k["file"]) for k in calls])
            x.inner[d["name"]] = y
        x.kind = Result.Kind[r["kind"]]
        top.inner[r["fun"]] = x
    g = G()
    for n, n2, fa, fb, la, lb, tys in c["verts"]:
        v = G.Vertex((n, n2), Result.Kind.EQUAL, (OLD + "/" + fa, NEW + "/" + fb), (la, lb))
        for t, k, a, b in tys:
            v.add_nonfun_diff(G.TypeDiff(t, n, ([], []), (OLD + "/a.c", NEW + "/lib/b.h"), (a, b)) if k == "type" else G.SyntaxDiff(t, n, ([], []), ("x", "y")))
        g.vertices[n] = v
    top.graph = g if c["graph"] else None
    out = outcome(YamlOutput, OLD, NEW, top)
    if isinstance(out, Crash):
        return repr(out), "a result file"
    out.save(D, "r.yaml")
    got = yaml.safe_load(open(D + "/r.yaml"))
    # the statement read independently
    results, names, types = [], set(), set()
    for r in c["res"]:
        if r["kind"] != "NOT_EQUAL":
            continue
        last = {}
        for d in r["diffs"]:
            last[d["name"]] = d
        names.add(r["fun"])
        diffs = []
        for n in sorted(last):
            d = last[n]
            if d["diff"] == "" and d["cov"]:
                continue
            diffs.append({"function": n, "old-callstack": [dict(k, file="/" + k["file"]) for k in d["a"] or []], "new-callstack": [dict(k, file="/" + k["file"]) for k in d["b"] or []]})
            for i, k in enumerate(d["a"] or []):
                p = k["name"].split(" ")
                if len(p) == 1 or p[1] == "(function)" and False:
                    names.add(p[0])
                elif p[1] == "(type)":
                    types.add((p[0], d["a"][i - 1]["name"] if i else r["fun"]))
        results.append({"function": r["fun"], "diffs": diffs})
    have = {v[0]: v for v in c["verts"]} if c["graph"] else {}
    want_f, want_t = {}, {}

    def place(p, base, line, kind):
        return dict({"line": line, "file": p}, **end(base + "/" + p, line, kind))
    for n in names & set(have):
        _, n2, fa, fb, la, lb, _ = have[n]
        want_f[n] = {"kind": "function", "old": place(fa, OLD, la, "function"), "new": place(fb, NEW, lb, "function")}
        if n2 != n:
            want_f[n]["new"]["name"] = n2
    for t, parent in types:
        for x in (have[parent][6] if parent in have else []):
            if x[0] == t and x[1] == "type":
                want_t.setdefault(t, []).append({"kind": "type", "old": place("a.c", OLD, x[2], "type"), "new": place("lib/b.h", NEW, x[3], "type")})
                break
    defs = got["definitions"]
    # a type used in several functions is described by one of them
    ok = set(defs) == set(want_f) | set(want_t) and all(defs[n] in (want_t[n] if n in want_t else [want_f[n]]) for n in defs)
    return (got["old-snapshot"], got["new-snapshot"], got["results"], ok or defs), (OLD, NEW, results, True)

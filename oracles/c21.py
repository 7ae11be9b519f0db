from .base import *
stub_simpll()
import yaml
import diffkemp.simpll.simpll as S
from diffkemp.config import Config
from diffkemp.semdiff.caching import ComparisonGraph
from diffkemp.semdiff.result import Result

RULE = "random engine outputs of the documented shape with asymmetric sides, missing optional fields, variants and attached differences; non-trivial: a call or difference is attached"
MAX = {"quick": 2500, "thorough": 20000}
KINDS = {"equal": "EQUAL", "not-equal": "NOT_EQUAL", "assumed-equal": "ASSUMED_EQUAL", "unknown": "UNKNOWN"}


def cases(rng):
    def side(n, calls):
        d = {"function": n}
        if rng.random() < .8:
            d["file"] = rng.choice(["/o/a.c", "/n/b.c", "/n/c.h"])
        if rng.random() < .8:
            d["line"] = rng.randint(1, 99)
        if rng.random() < .6:
            d["stats"] = {k: rng.randint(0, 50) for k in ("inst-cnt", "inst-equal-cnt", "lines-cnt") if rng.random() < .8}
        if calls:
            d["calls"] = [{"function": rng.choice(["x", "y", "z", "x.void"]), "file": rng.choice(["f.c", "g.c"]), "line": rng.randint(1, 99), "weak": rng.random() < .5}
                          for _ in range(rng.randint(0, 4))]
        return d

    def diff(i):
        st = lambda: [{"function": rng.choice("pqr"), "file": "s.c", "line": rng.randint(1, 9)} for _ in range(rng.randint(0, 2))]
        d = {"name": "d%d" % i, "function": rng.choice("fg"), "stack-first": st(), "stack-second": st()}
        if rng.random() < .5:
            d.update({"body-first": rng.choice(["", "b1", "b2"]), "body-second": rng.choice(["", "c1", "c2"])})
        else:
            d.update({"file-first": "/o/t.h", "file-second": "/n/u.h", "line-first": rng.randint(1, 9), "line-second": rng.randint(10, 19)})
        return d
    while True:
        res = []
        for i in range(rng.randint(1, 3)):
            n = "f%d" % i
            names = rng.choice([(n, n), (n, n), (n + ".3", n), (n, n + ".4"), (n, "new_" + n)])
            calls = rng.random() < .7
            r = {"first": side(names[0], calls), "second": side(names[1], calls), "result": rng.choice(list(KINDS))}
            if rng.random() < .6:
                r["differing-objects"] = [diff(j) for j in range(rng.randint(0, 3))]
            res.append(r)
        yield {"res": res}


def trivial(c):
    return not any(r["first"].get("calls") or r.get("differing-objects") for r in c["res"])


def view(v):
    return {"names": tuple(v.names), "result": v.result.name, "files": tuple(v.files), "lines": tuple(v.lines),
            "stats": [tuple(v.stats.inst_cnt), tuple(v.stats.inst_equal_cnt), tuple(v.stats.lines_cnt)],
            "calls": [[(e.target_name, e.filename, e.line, e.kind.name, e.parent_vertex is v) for e in v.successors[i]] for i in (0, 1)],
            "diffs": [(type(d).__name__, d.name, d.parent_fun, tuple(d.callstack), tuple(d.body) if hasattr(d, "body") else (tuple(d.file), tuple(d.line))) for d in v.nonfun_diffs]}


def run(c):
    S.check_output = lambda cmd, **k: yaml.dump({"function-results": c["res"]}).encode()
    for n in ("normalize", "populate_predecessor_lists", "mark_uncachable_from_assumed_equal"):
        assert hasattr(ComparisonGraph, n)
    real = {n: getattr(ComparisonGraph, n) for n in ("normalize", "populate_predecessor_lists", "mark_uncachable_from_assumed_equal")}
    for n in real:
        setattr(ComparisonGraph, n, lambda self: None)
    try:
        graph = S.run_simpll("a.ll", "b.ll", "f", "f", None, Config(use_ffi=False))[2]
    finally:
        for n in real:
            setattr(ComparisonGraph, n, real[n])
    want, weak = {}, []
    for r in c["res"]:
        a, b = r["first"], r["second"]
        call = lambda x: (x["function"], x["file"], x["line"], "WEAK" if x["weak"] else "STRONG", True)
        st = lambda k: (a.get("stats", {}).get(k, 0), b.get("stats", {}).get(k, 0))
        weak += [x["function"] for s in (a, b) for x in s.get("calls", []) if x["function"].endswith(".void")]
        key = a["function"] if "." in a["function"] else b["function"]
        want[key] = {"names": (a["function"], b["function"]), "result": KINDS[r["result"]], "files": (a.get("file"), b.get("file")), "lines": (a.get("line"), b.get("line")),
                     "stats": [st("inst-cnt"), st("inst-equal-cnt"), st("lines-cnt")], "calls": [[call(x) for x in s.get("calls", [])] for s in (a, b)],
                     "diffs": [("SyntaxDiff" if "body-first" in d else "TypeDiff", d["name"], d["function"], (d["stack-first"], d["stack-second"]),
                                (d["body-first"], d["body-second"]) if "body-first" in d else ((d["file-first"], d["file-second"]), (d["line-first"], d["line-second"])))
                               for d in r.get("differing-objects", [])]}
    alone = [view(ComparisonGraph.Vertex.from_yaml(r)) for r in c["res"]]
    return ({k: view(v) for k, v in graph.vertices.items()}, [e.target_name for e in graph._normalize_edge_cache], alone), (want, weak, [want[k] for k in want])

"""Comparison graphs from JSON descriptions."""
from .base import *
from diffkemp.semdiff.caching import ComparisonGraph
from diffkemp.semdiff.result import Result

KINDS = ["EQUAL", "NOT_EQUAL", "ASSUMED_EQUAL", "UNKNOWN", "ERROR", "TIMEOUT"]
FILES = ["/o/a.c", "/o/b.c", "/o/h.h", "/o/i.h"]
G = ComparisonGraph


def random_graph(rng, n=None, names=None, variants=False, weak=True, dangling=True, nonfun=True, kinds=KINDS, twofiles=True, density=None, rename=True):
    n = n or rng.randint(1, 7)
    names = names or ["f%d" % i for i in range(n)]
    vs = []
    for nm in names:
        fl = rng.choice(FILES)
        fr = fl.replace("/o/", "/n/") if rng.random() < .8 else rng.choice(FILES).replace("/o/", "/n/")
        v = {"key": nm, "names": [nm, nm if not rename or rng.random() < .9 else nm + "_new"], "result": rng.choice(kinds),
             "files": [fl, fr], "lines": [rng.randint(1, 99), rng.randint(1, 99)], "calls": [[], []], "diffs": []}
        if nonfun and rng.random() < .3:
            for _ in range(rng.randint(1, 2)):
                stacks = [[{"function": "m%d" % j, "file": s + "m.h", "line": rng.randint(1, 50)} for j in range(rng.randint(0, 2))]
                          for s in ("/o/", "/n/")]
                if rng.random() < .5:
                    v["diffs"].append({"syn": True, "name": "S%d" % rng.randint(0, 5), "parent": nm, "stacks": stacks,
                                       "body": ["b%d" % rng.randint(0, 9), "c%d" % rng.randint(0, 9)]})
                else:
                    v["diffs"].append({"syn": False, "name": "T%d" % rng.randint(0, 5), "parent": nm, "stacks": stacks,
                                       "file": ["/o/t.h", "/n/u.h"], "line": [rng.randint(1, 9), rng.randint(10, 19)]})
        vs.append(v)
    d = density if density is not None else rng.choice([.2, .35, .5])
    for v in vs:
        for side in (0, 1):
            for t in names + (["ghost"] if dangling else []):
                if rng.random() < d:
                    for _ in range(2 if rng.random() < .1 else 1):
                        v["calls"][side].append({"target": t, "file": v["files"][side], "line": rng.randint(1, 99),
                                                 "weak": weak and rng.random() < .3})
        if rng.random() < .75:
            v["calls"][1] = [dict(e, file=v["files"][1]) for e in v["calls"][0]]
            if v["names"][0] != v["names"][1]:
                pass
        rng.shuffle(v["calls"][0])
    return vs


def build(vs):
    g = G()
    for v in vs:
        x = G.Vertex(tuple(v["names"]), getattr(Result.Kind, v["result"]), tuple(v["files"]), tuple(v["lines"]))
        for side in (G.Side.LEFT, G.Side.RIGHT):
            for e in v["calls"][side]:
                ed = G.Edge(e["target"], e["file"], e["line"])
                if e["weak"]:
                    ed.kind = G.DependencyKind.WEAK
                g.add_edge(x, side, ed)
        for d in v["diffs"]:
            if d["syn"]:
                x.add_nonfun_diff(G.SyntaxDiff(d["name"], d["parent"], tuple(d["stacks"]), tuple(d["body"])))
            else:
                x.add_nonfun_diff(G.TypeDiff(d["name"], d["parent"], tuple(d["stacks"]), tuple(d["file"]), tuple(d["line"])))
        if "cachable" in v:
            x.cachable = v["cachable"]
        g[v["key"]] = x
    return g


def reach(vs, side, start):
    """keys of the functions that depend on start (independent of the code): least fixpoint of the statement"""
    by = {v["key"]: v for v in vs}
    walked, found = {start}, {start}
    again = True
    while again:
        again = False
        for k in list(walked):
            for e in by[k]["calls"][side]:
                t = e["target"]
                if t not in by:
                    continue
                f = by[t]["files"][side]
                if f.endswith(".c") and f != by[start]["files"][side]:
                    continue
                if t not in walked:
                    walked.add(t)
                    again = True
                if not e["weak"] and t not in found:
                    found.add(t)
    return found


def entity(e):
    return (e.name, e.filename, e.line, e.diff_kind, e.covered)


def stack(e):
    return None if e.callstack is None else [(c["name"], c["file"], c["line"]) for c in e.callstack.calls]

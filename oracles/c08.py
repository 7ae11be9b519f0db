from .graphs import *
stub_simpll()
import types
import diffkemp.semdiff.function_diff as fd
import diffkemp.simpll.simpll as sp
from diffkemp.llvm_ir.source_tree import SourceNotFoundException

RULE = "scripted engine runs (results, missing definitions, failures, unreadable output), links, differ outcomes; non-trivial: something to report or a failure"
MAX = {"quick": 6000, "thorough": 100000}
K = Result.Kind
RAW = ["", "null", "[1, 2]", "3", "text", "{a: [", "\tx: 1", "key: @bad", "a: b: c", "\x00"]


def cases(rng):
    while True:
        if rng.random() < .15:
            yield {"raw": rng.choice(RAW)}
            continue
        runs = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .12:
                runs.append({"fail": rng.choice(["simpll", "value"])})
            else:
                m = []
                for _ in range(rng.choice([0, 0, 1, 2])):
                    e = {}
                    if rng.random() < .7:
                        e["first"] = "m%d" % rng.randint(0, 3)
                    if rng.random() < .7:
                        e["second"] = "m%d" % rng.randint(0, 3)
                    m.append(e)
                runs.append({"missing": m if m or rng.random() < .5 else None})
        pairs = []
        for i in range(rng.choice([0, 0, 1, 1, 2, 3])):
            pairs.append({"name": "d%d" % i, "kind": rng.choice(["function", "function", "type", "syntactic", "other"]),
                          "result": rng.choice(KINDS[:4] + ["NOT_EQUAL"]), "diff": rng.choice(["", "-a\n+b\n", "FAIL"] if rng.random() < .3 else ["", "-a\n+b\n"])})
        yield {"runs": runs, "pairs": pairs, "names": rng.choice([["f", "f"], ["f", "g"]]), "full": rng.random() < .5,
               "tool": rng.choice([None, None, "tool"]), "tool_kind": rng.choice(KINDS), "var": rng.choice([None, "v"]), "cache": rng.random() < .4,
               "known": rng.choice([None, {"f": rng.choice(KINDS), "same": rng.random() < .6}, {"g0": "EQUAL", "same": True}]),
               "links": [rng.choice(["tree", "source", "no", "refused"]) for _ in range(12)], "has_source": rng.random() < .6,
               "timed": rng.random() < .5, "verbosity": 0}


def trivial(c):
    return "raw" not in c and not c["pairs"] and not any("fail" in r for r in c["runs"])


class Mod:
    def __init__(self, name, w):
        self.llvm, self.w, self.linked, self.cleaned, self.restored = name, w, [], 0, 0

    def link_modules(self, ms):
        self.w["log"].append(["link", self.llvm, ms[0].llvm])
        if ms[0].link == "refused":
            return False
        self.linked += ms
        return True

    def restore_unlinked_llvm(self):
        self.linked, self.restored = [], self.restored + 1

    def clean_module(self):
        self.cleaned += 1


class Graph:
    def __init__(self, name, w):
        self.name, self.vertices, self.w = name, {}, w

    def __getitem__(self, k):
        return self.vertices[k]

    def absorb_graph(self, o):
        self.w["log"].append(["absorb", o.name])

    def graph_to_fun_pair_list(self, a, b, full):
        self.w["log"].append(["pairs", self.name, a, b, full])
        mk = lambda p, s: Result.Entity(p["name"], "/%s/x.c" % s, 3, diff_kind=p["kind"])
        ps = self.w["c"]["pairs"]
        return ([(mk(p, "o"), mk(p, "n"), getattr(K, p["result"])) for p in ps],
                {p["name"]: "left" + p["name"] for p in ps}, {p["name"]: "right" + p["name"] for p in ps})


def run_raw(c):
    saved = sp.check_output, sp.yaml
    sp.check_output = lambda cmd, *a, **k: c["raw"].encode()
    try:
        m = [Mod(x, {"log": []}) for x in ("/o/a.ll", "/n/a.ll")]
        cfg = types.SimpleNamespace(verbosity=0, use_ffi=False, full_diff=False, semdiff_tool=None, output_llvm_ir=False, print_asm_diffs=False,
                                    extended_stat=False, custom_pattern_config=None, builtin_patterns=types.SimpleNamespace(settings={}),
                                    snapshot_first=None, snapshot_second=None)
        r = outcome(fd.functions_diff, m[0], m[1], "f", "f", None, cfg)
        try:
            import yaml
            ok = isinstance(yaml.safe_load(c["raw"]), dict)
        except yaml.YAMLError:
            ok = False
        return (r.kind.name if not isinstance(r, Crash) else r), ("EQUAL" if ok else "ERROR")
    finally:
        sp.check_output, sp.yaml = saved


def run(c):
    if "raw" in c:
        return run_raw(c)
    w = {"log": [], "c": c, "runs": 0, "links": 0}
    mods = [Mod("/o/a.ll", w), Mod("/n/a.ll", w)]
    found = []

    def simpll(first, second, fun_first, fun_second, var, config, suffix=None, cache_dir=None, module_cache=None, modules_to_cache=None):
        i = w["runs"]
        w["runs"] += 1
        w["log"].append(["run", first, second, fun_first, fun_second, var, suffix, cache_dir])
        r = c["runs"][i] if i < len(c["runs"]) else {"missing": None}
        if "fail" in r:
            raise fd.SimpLLException("no") if r["fail"] == "simpll" else ValueError("no")
        g = Graph("run%d" % i, w)
        g.vertices["f"] = G.Vertex(("f", "f"), K.EQUAL, ("a", "b"), (1, 1))
        g.vertices["u"] = G.Vertex(("u", "u"), K.UNKNOWN, ("a", "b"), (1, 1))
        return Mod("/o/s.ll", w), Mod("/n/s.ll", w), g, r["missing"]

    def tree(which, side):
        def get(sym, since):
            w["log"].append(["find", side, which, sym, since])
            l = c["links"][w["links"] % 12]
            if which == "source" or l == "tree" or l == "refused" or not c["has_source"]:
                w["links"] += 1
            if l == "no" or l == "source" and which == "tree":
                raise SourceNotFoundException(sym)
            m = Mod("def_" + sym, w)
            m.link = l
            found.append(m)
            return m
        return types.SimpleNamespace(get_module_for_symbol=get)
    snaps = [types.SimpleNamespace(created_time=types.SimpleNamespace(timestamp=lambda: 77.0) if c["timed"] else None,
                                   snapshot_tree=tree("tree", s), source_tree=tree("source", s) if c["has_source"] else None) for s in ("o", "n")]
    cfg = types.SimpleNamespace(verbosity=0, full_diff=c["full"], semdiff_tool=c["tool"], snapshot_first=snaps[0], snapshot_second=snaps[1])
    known = None
    if c["known"]:
        known = Graph("known", w)
        for k, v in c["known"].items():
            if k != "same":
                known.vertices[k] = G.Vertex((k, k), getattr(K, v), ("/o/x.c", "/o/x.c" if c["known"]["same"] else "/n/y.c"), (1, 1))
        known.vertices["zz"] = G.Vertex(("zz", "zz"), K.NOT_EQUAL, ("a", "b"), (1, 1))
    updates = []
    cache = types.SimpleNamespace(directory="/cache", update=lambda vs: updates.append(sorted(v.names[0] for v in vs))) if c["cache"] else None
    by = {p["name"]: p for p in c["pairs"]}

    def differ(f1, f2, name, kind, l1, l2):
        if by[name]["diff"] == "FAIL":
            raise ValueError("no source")
        return by[name]["diff"]
    saved = fd.run_simpll, fd.syntax_diff, fd.functions_semdiff
    fd.run_simpll, fd.syntax_diff = simpll, differ
    fd.functions_semdiff = lambda a, b, x, y, cf: Result(getattr(K, c["tool_kind"]), x, y)
    var = types.SimpleNamespace(name=c["var"]) if c["var"] else None
    err = sys.stderr
    sys.stderr = open(os.devnull, "w")
    try:
        r = outcome(fd.functions_diff, mods[0], mods[1], c["names"][0], c["names"][1], var, cfg, known, cache, None, None)
    finally:
        sys.stderr.close()
        sys.stderr = err
        fd.run_simpll, fd.syntax_diff, fd.functions_semdiff = saved
    if isinstance(r, Crash):
        return r, "a verdict"
    got = {"kind": r.kind.name, "inner": {k: [x.kind.name, x.first.name, x.second.name, x.diff] for k, x in r.inner.items()},
           "graph": r.graph.name if r.graph is not None else None, "runs": w["runs"], "updates": updates,
           "left linked": [len(m.linked) for m in mods] if r.kind != K.ERROR else None, "unclean": sum(m.cleaned != 1 for m in found),
           "asked": [e for e in w["log"] if e[0] == "run"]}
    return got, want(c, w)


def want(c, w):
    """stated over the script: what the run must have come to"""
    decided = c["known"] and "f" in c["known"] and c["names"][0] == "f" and c["known"]["f"] != "ASSUMED_EQUAL" and c["known"]["same"]
    out = {"kind": None, "inner": {}, "graph": "known" if c["known"] else None, "runs": 0, "updates": [], "left linked": None, "unclean": 0, "asked": []}
    li, failed = 0, False
    if not decided:
        i = 0
        while True:
            r = c["runs"][i] if i < len(c["runs"]) else {"missing": None}
            out["asked"].append(["run", "/o/a.ll", "/n/a.ll", c["names"][0], c["names"][1], c["var"], c["var"] or "simpl", "/cache" if c["cache"] else None])
            i += 1
            if "fail" in r:
                failed = True
                break
            out["graph"] = "run%d" % (i - 1)
            again = False
            for m in r["missing"] or []:
                for s in ("first", "second"):
                    if s in m:
                        l = c["links"][li % 12]
                        li += 1
                        again |= l == "tree" or l == "source" and c["has_source"]
            if again:
                continue
            if c["known"]:
                out["graph"] = "known"
                if c["cache"]:
                    out["updates"].append(sorted([k for k, v in c["known"].items() if k != "same" and v not in ("UNKNOWN", "ASSUMED_EQUAL")] + ["zz"]))
            break
        out["runs"] = i
    if failed:
        out["kind"] = "ERROR"
        return out
    worst = K.EQUAL if not c["pairs"] else K.NONE
    for p in c["pairs"]:
        kind = getattr(K, c["tool_kind"]) if c["tool"] and p["kind"] != "function" else getattr(K, p["result"])
        diff = ""
        if kind == K.NOT_EQUAL or c["full"]:
            if p["kind"] in ("function", "type"):
                if p["diff"] == "FAIL":
                    worst = K.ERROR
                    break
                diff = p["diff"]
            else:
                diff = "  left%s\n\n  right%s\n" % (p["name"], p["name"]) if p["kind"] == "syntactic" else "unknown\n"
        worst = max(worst, kind)
        if kind != K.NOT_EQUAL and not c["full"]:
            out["inner"][p["name"]] = [kind.name, p["name"], p["name"], None]
        elif kind == K.NOT_EQUAL or diff:
            out["inner"][p["name"]] = [kind.name, p["name"], p["name"], diff]
    out["kind"] = worst.name
    if worst != K.ERROR:
        out["left linked"] = [0, 0]
    return out

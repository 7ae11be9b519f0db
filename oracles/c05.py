from .graphs import *

RULE = "random raw graphs with .void variants on either or both sides and calls to them; non-trivial: a variant is present"
MAX = {"quick": 5000, "thorough": 60000}


def cases(rng):
    while True:
        n = rng.randint(1, 5)
        base = ["f%d" % i for i in range(n)]
        vs = random_graph(rng, names=base, nonfun=False, rename=False, dangling=True, kinds=["EQUAL", "NOT_EQUAL", "ASSUMED_EQUAL", "UNKNOWN"])
        out = []
        for v in vs:
            r = rng.random()
            if r < .5:
                var = json.loads(json.dumps(v))
                var["key"] = v["key"] + ".void"
                var["names"] = rng.choice([[v["key"], var["key"]], [var["key"], v["key"]], [var["key"], var["key"]]])
                var["result"] = rng.choice(KINDS[:4])
                var["lines"] = [1000, 1001]
                if rng.random() < .5:
                    out.append(v)
                out.append(var)
            else:
                out.append(v)
        voids = [v["key"] for v in out if v["key"].endswith(".void")]
        for v in out:
            for side in (0, 1):
                for e in v["calls"][side]:
                    if e["target"] + ".void" in voids and rng.random() < .6:
                        e["target"] += ".void"
        rng.shuffle(out)
        yield {"vertices": out}


def trivial(c):
    return not any(v["key"].endswith(".void") for v in c["vertices"])


def show(g):
    return {k: (v.names, v.result.name, v.files, v.lines, [[(e.target_name, e.filename, e.line, e.kind.name) for e in s] for s in v.successors])
            for k, v in g.vertices.items()}


def run(c):
    g = build(c["vertices"])
    r = outcome(g.normalize)
    if isinstance(r, Crash):
        return r, "normalised"
    by = {v["key"]: v for v in c["vertices"]}
    want = {}
    for k, v in by.items():
        calls = []
        eqb = {e["target"][:-5] for s in (0, 1) for e in v["calls"][s]
               if e["target"].endswith(".void") and by[e["target"]]["result"] == "EQUAL"}
        for s in (0, 1):
            calls.append([(b, e["file"], e["line"], "WEAK" if e["weak"] or b in eqb else "STRONG")
                          for e in v["calls"][s] for b in [e["target"][:-5] if e["target"].endswith(".void") else e["target"]]])
        if k.endswith(".void"):
            b = k[:-5]
            if b not in by:
                want[b] = ((b, b), "ASSUMED_EQUAL" if v["result"] == "EQUAL" else v["result"], tuple(v["files"]), tuple(v["lines"]), calls)
        else:
            want[k] = (tuple(v["names"]), v["result"], tuple(v["files"]), tuple(v["lines"]), calls)
    return show(g), want

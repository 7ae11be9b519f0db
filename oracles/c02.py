from .graphs import *

RULE = "random comparison graphs (1-7 functions, cycles, weak/strong parallel calls, dangling calls, renamed functions, several files); non-trivial: more than one function"
MAX = {"quick": 6000, "thorough": 100000}


def cases(rng):
    while True:
        vs = random_graph(rng, rename=rng.random() < .3)
        start = rng.choice(vs)["key"]
        yield {"vertices": vs, "start": start, "second": start if rng.random() < .8 else rng.choice(vs)["key"], "full": rng.random() < .4}


def trivial(c):
    return len(c["vertices"]) < 2


def run(c):
    vs, start = c["vertices"], c["start"]
    by = {v["key"]: v for v in vs}
    second = c.get("second", start)
    r = outcome(build(vs).graph_to_fun_pair_list, start, second, c["full"])
    want, lb, rb = [], {}, {}
    for k in reach(vs, 0, start) & reach(vs, 1, second):
        v = by[k]
        if v["result"] == "ASSUMED_EQUAL" or v["result"] == "EQUAL" and not c["full"]:
            continue
        want.append(tuple((v["names"][s], v["files"][s], v["lines"][s], "function", bool(v["diffs"])) for s in (0, 1)) + (v["result"],))
        for d in v["diffs"]:
            if d["syn"]:
                want.append(((d["name"], None, None, "syntactic", False),) * 2 + ("NOT_EQUAL",))
                lb.setdefault(d["name"], set()).add(d["body"][0])
                rb.setdefault(d["name"], set()).add(d["body"][1])
            else:
                want.append(tuple((d["name"], d["file"][s], d["line"][s], "type", False) for s in (0, 1)) + ("NOT_EQUAL",))
    want = sorted(map(repr, want))
    if isinstance(r, Crash):
        return r, want
    got = sorted(repr((entity(a), entity(b), k.name)) for a, b, k in r[0])
    # bodies are kept by name: any of the recorded ones
    ok = set(r[1]) == set(lb) and set(r[2]) == set(rb) and all(r[1][k] in lb[k] for k in lb) and all(r[2][k] in rb[k] for k in rb)
    return (got, ok), (want, True)

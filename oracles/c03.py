from .graphs import *

RULE = "as C02, all reported call stacks checked edge by edge against the graph; non-trivial: a call stack is reported"
MAX = {"quick": 6000, "thorough": 100000}


def cases(rng):
    while True:
        vs = random_graph(rng, n=rng.randint(2, 8), rename=False, kinds=["NOT_EQUAL", "NOT_EQUAL", "EQUAL", "UNKNOWN"], density=rng.choice([.15, .25, .4]))
        start = rng.choice(vs)["key"]
        yield {"vertices": vs, "start": start, "second": start if rng.random() < .7 else rng.choice(vs)["key"], "full": rng.random() < .6}


def run(c):
    vs, start = c["vertices"], c["start"]
    by = {v["key"]: v for v in vs}
    r = outcome(build(vs).graph_to_fun_pair_list, start, c.get("second", start), c["full"])
    if isinstance(r, Crash):
        return r, "call stacks"
    bad = []
    starts = [start, c.get("second", start)]

    def genuine(side, calls, target):
        cur = starts[side]
        for nm, f, l in calls:
            if not any(e["target"] == nm and e["file"] == f and e["line"] == l for e in by.get(cur, {"calls": [[], []]})["calls"][side]):
                return False
            cur = nm
        return cur == target
    owners = {}
    for v in vs:
        for d in v["diffs"]:
            owners.setdefault((d["name"], d["syn"]), []).append((v["key"], d))
    for a, b, k in r[0]:
        for side, e in ((0, a), (1, b)):
            st = stack(e)
            if e.diff_kind == "function":
                if (st is None) != (e.name == starts[side]) or st is not None and not (st and genuine(side, st, e.name)):
                    bad.append((e.name, side, st))
            else:
                ok = False
                for own, d in owners[(e.name, e.diff_kind == "syntactic")]:
                    rec = [(x["function"], x["file"], x["line"]) for x in d["stacks"][side]]
                    n = len(st) - len(rec)
                    if n >= 0 and st[n:] == rec and genuine(side, st[:n], own) and (n == 0) == (own == starts[side]):
                        ok = True
                if not ok:
                    bad.append((e.name, side, st))
    return bad, []


def signature(c, got, want):
    return ""

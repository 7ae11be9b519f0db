from .graphs import *

RULE = "random sequences of 1-4 merges of random graphs over few names; non-trivial: at least one name known before"
MAX = {"quick": 4000, "thorough": 60000}


def cases(rng):
    while True:
        names = ["f%d" % i for i in range(rng.randint(1, 4))]
        gs = []
        for _ in range(rng.randint(2, 5)):
            sub = [n for n in names if rng.random() < .8] or names[:1]
            gs.append(random_graph(rng, names=sub, nonfun=False, rename=False, density=.4,
                                   kinds=rng.choice([KINDS, ["EQUAL", "NOT_EQUAL", "ASSUMED_EQUAL"], ["UNKNOWN", "EQUAL", "NOT_EQUAL"]])))
        yield {"graphs": gs}


def state(g):
    return {k: (v.names, v.result.name, v.files, v.lines, [[(e.target_name, e.filename, e.line, e.kind.name) for e in s] for s in v.successors])
            for k, v in g.vertices.items()}


def run(c):
    acc = build(c["graphs"][0])
    bad = []
    for vs in c["graphs"][1:]:
        before, objs = state(acc), dict(acc.vertices)
        new = build(vs)
        nstate, nobjs = state(new), dict(new.vertices)
        r = outcome(acc.absorb_graph, new)
        if isinstance(r, Crash):
            return r, "merged"
        after = state(acc)
        want = dict(before)
        for k, n in nstate.items():
            o = before.get(k)
            if o is None:
                want[k] = n
                continue
            rep = o[1] in ("ASSUMED_EQUAL", "UNKNOWN") or (o[1] == "NOT_EQUAL" and o[2][0] != o[2][1] and n[1] == "EQUAL") \
                or len(n[4][0]) > len(o[4][0]) or len(n[4][1]) > len(o[4][1])
            if rep:
                want[k] = n
        if after != want:
            bad.append({k: (after.get(k), want.get(k)) for k in set(after) | set(want) if after.get(k) != want.get(k)})
    return bad, []

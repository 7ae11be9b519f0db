from .graphs import *
stub_simpll()
import tempfile, shutil, types
from diffkemp.semdiff import function_diff as fd
from diffkemp.semdiff.caching import SimpLLCache

RULE = "random graphs of header and source functions: fresh marking, then 1-3 merges and cache updates through functions_diff; non-trivial: an assumed-equal function is called"
MAX = {"quick": 3000, "thorough": 40000}


def cases(rng):
    while True:
        names = ["f%d" % i for i in range(rng.randint(2, 6))]
        gs = []
        for _ in range(rng.randint(1, 3)):
            sub = [n for n in names if rng.random() < .85] or names
            gs.append(random_graph(rng, names=sub, nonfun=False, rename=False, kinds=["ASSUMED_EQUAL", "EQUAL", "NOT_EQUAL", "UNKNOWN"],
                                   density=rng.choice([.2, .4])))
        yield {"graphs": gs, "start": gs[0][0]["key"]}


def expected(vs):
    """functions in headers that call, through functions in headers, a non-header function assumed equal -> set of reasons"""
    by = {v["key"]: v for v in vs}
    why = {k: set() for k in by}
    hdr = {k: by[k]["files"][0].endswith(".h") for k in by}
    again = True
    while again:
        again = False
        for k, v in by.items():
            if not hdr[k]:
                continue
            for e in v["calls"][0]:
                t = e["target"]
                if t not in by:
                    continue
                new = set(why[t]) if hdr[t] else ({t} if by[t]["result"] == "ASSUMED_EQUAL" else set())
                if not new <= why[k]:
                    why[k] |= new
                    again = True
    return why


class Conf:
    verbosity, full_diff, semdiff_tool, builtin_patterns = 0, False, None, None
    snapshot_first = snapshot_second = None


class Mod:
    def __init__(self): self.llvm = "m"
    def restore_unlinked_llvm(self): pass


def run(c):
    bad = []
    # fresh graphs
    built, whys = [], []
    for vs in c["graphs"]:
        g = build(vs)
        r = outcome(lambda: (g.normalize(), g.populate_predecessor_lists(), g.mark_uncachable_from_assumed_equal()))
        if isinstance(r, Crash):
            return r, "marked"
        why = expected(vs)
        for k, v in g.vertices.items():
            if v.cachable != (not why[k]):
                bad.append(("fresh", k, v.cachable))
        built.append(g)
        whys.append({id(g[k]): {id(g[w]) for w in why[k]} for k in why})
    # merges through the driver
    reasons = {}
    for w in whys:
        reasons.update(w)
    keep = [dict(g.vertices) for g in built]
    tmp = tempfile.mkdtemp()
    try:
        cache = SimpLLCache(tmp)
        acc = built[0]
        old = fd.run_simpll, fd.syntax_diff
        fd.syntax_diff = lambda *a: "d"
        try:
            for g, vs in zip(built[1:], c["graphs"][1:]):
                start = vs[0]["key"]
                fd.run_simpll = lambda **k: ("", "", g, None)
                size = {f: os.path.getsize(os.path.join(tmp, f)) for f in os.listdir(tmp)}
                # the driver consults the accumulated graph first; make sure the engine is asked
                class P(type(acc)):
                    pass
                r = outcome(fd.functions_diff, Mod(), Mod(), "zz_" + start, "zz_" + start, None, Conf(), acc, cache)
                # (the start function is not in the graph: only merging and caching are observed)
                inplace = {id(v) for v in acc.vertices.values()}
                for k, v in acc.vertices.items():
                    still = {w for w in reasons.get(id(v), ()) if w in inplace}
                    if still and v.cachable:
                        bad.append(("merge", k, "reusable although an assumed-equal callee is still in place"))
                written = []
                for f in os.listdir(tmp):
                    with open(os.path.join(tmp, f)) as h:
                        h.seek(size.get(f, 0))
                        written += [l.rstrip("\n").split(":") for l in h]
                for a, b in written:
                    vv = [v for v in acc.vertices.values() if v.names == (a, b)]
                    if not any(v.cachable and v.result.name not in ("UNKNOWN", "ASSUMED_EQUAL") for v in vv):
                        bad.append(("offered", a, b))
        finally:
            fd.run_simpll, fd.syntax_diff = old
    finally:
        shutil.rmtree(tmp)
    return bad, []

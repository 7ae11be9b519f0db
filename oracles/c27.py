from .base import *
stub_simpll()
from collections import Counter
from diffkemp.diffkemp import _get_modules_to_cache
from diffkemp.snapshot import Snapshot
from diffkemp.llvm_ir.llvm_module import LlvmModule

RULE = "two snapshots of up to 8 functions in 1-2 groups over 4 module files (some missing), thresholds 0-4; non-trivial: a shared function with a module"
MAX = {"quick": 6000, "thorough": 100000}


def cases(rng):
    while True:
        fs = ["f%d" % i for i in range(rng.randint(0, 8))]
        pick = lambda: rng.choice([None, "a.ll", "a.ll", "b.ll", "c.ll"])
        yield {"old": [[f, pick()] for f in fs if rng.random() < .8], "new": [[f, pick(), rng.choice([None, None, "g"])] for f in fs if rng.random() < .8],
               "group": rng.choice([None, None, "g"]), "min": rng.randint(0, 4), "shared": rng.random() < .5}


def trivial(c):
    return not any(n[0] == o[0] and (o[1] or n[1]) for o in c["old"] for n in c["new"])


def run(c):
    old, new, mods = Snapshot(), Snapshot(), {}
    def mod(n, side):
        if n is None:
            return None
        return mods.setdefault((n, side if not c["shared"] else ""), LlvmModule(n if c["shared"] else side + n))
    for n, m in c["old"]:
        old.add_fun(n, mod(m, "o/"), group=c["group"])
    for n, m, g in c["new"]:
        new.add_fun(n, mod(m, "n/"), group=g)
    items = old.fun_groups[c["group"]].functions.items() if c["group"] in old.fun_groups else {}.items()
    uses = []
    there = {n: m for n, m, g in c["new"] if g == c["group"]}
    for n, m in c["old"]:
        if n in there:
            uses += [mod(x, s).llvm for x, s in ((m, "o/"), (there[n], "n/")) if x is not None]
    cnt = Counter(uses)
    return outcome(_get_modules_to_cache, items, c["group"], new, c["min"]), {u for u in cnt if cnt[u] >= c["min"]}

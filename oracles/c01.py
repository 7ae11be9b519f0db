from .base import *
from diffkemp.semdiff.result import Result
from specs import c01 as spec

RULE = "random sequences of additions of (name, verdict) to a result with a random own verdict, and verdict texts; non-trivial: at least one addition or a known text"
NAMES = ["NONE", "EQUAL", "ASSUMED_EQUAL", "NOT_EQUAL", "UNKNOWN", "TIMEOUT", "ERROR"]
TEXTS = [n.lower().replace("_", "-") for n in NAMES] + ["", "Equal", "assumed_equal", "equal ", "failure", "None"]


def cases(rng):
    for t in TEXTS:
        yield {"text": t}
    for a in NAMES:
        for b in NAMES:
            yield {"own": a, "parts": [["f", b]]}
    while True:
        yield {"own": rng.choice(NAMES), "parts": [[rng.choice("fghij"), rng.choice(NAMES)] for _ in range(rng.randint(0, 7))]}


def trivial(c):
    return not (c.get("parts") or c.get("text"))


def run(c):
    if "text" in c:
        return (lambda r: r if isinstance(r, Crash) else r.name)(outcome(Result.Kind.from_string, c["text"])), \
            (lambda r: AnyCrash(None) if isinstance(r, Crash) else r.name)(outcome(spec.verdict, c["text"]))
    out = []
    for add in (Result.add_inner, spec.add_inner):
        r = Result(getattr(Result.Kind, c["own"]), "o", "o")
        for i, (n, k) in enumerate(c["parts"]):
            x = Result(getattr(Result.Kind, k), n, n)
            x.start_time = i
            add(r, x)
        out.append((spec.rank(r.kind), r.kind.name, [(n, x.first.name, x.start_time) for n, x in r.inner.items()]))
    w = out[1]
    # independent of the order of additions: the maximum over all parts
    rk = max([NAMES.index(c["own"])] + [NAMES.index(k) for _, k in c["parts"]])
    return out[0], (rk, NAMES[rk], w[2])

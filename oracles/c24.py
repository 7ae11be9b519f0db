from .graphs import *
stub_simpll()
import io, contextlib, re

RULE = "results of up to 8 functions of any verdict with up to 4 inner differences (empty, covered, repeated names, all kinds) over a graph of up to 6 functions; non-trivial: a result"
MAX = {"quick": 3000, "thorough": 60000}
NAMES = ["a", "b", "c", "assembly code 1", "assembly code 2", "M"]


def cases(rng):
    while True:
        yield {"res": [[rng.choice(KINDS), [[rng.choice(NAMES), rng.choice(["", "", "-x\n"]), rng.random() < .4, rng.choice(["function", "type", "syntactic"])]
                                            for _ in range(rng.randint(0, 4))]] for _ in range(rng.randint(0, 8))],
               "stats": [[rng.randint(0, 9) for _ in range(6)] for _ in range(rng.randint(0, 6))], "times": rng.random() < .5, "errors": rng.random() < .3}


def trivial(c):
    return not c["res"]


def numbers(text):
    return {l.split(":")[0]: re.findall(r"[-\d.]+%?|nan%", l.split(":", 1)[1]) for l in text.splitlines() if ":" in l and not l.rstrip().endswith(":")}


def run(c):
    R, K = Result, Result.Kind
    r = R(K.NONE, "o", "n")
    g = G()
    for i, s in enumerate(c["stats"]):
        st = G.FunctionStats.__new__(G.FunctionStats)
        st.inst_cnt, st.inst_equal_cnt, st.lines_cnt = tuple(s[:2]), tuple(s[2:4]), tuple(s[4:6])
        g["f%d" % i] = G.Vertex(("f%d" % i,) * 2, K.EQUAL, ("a", "a"), (1, 1), st)
    for i, (k, inner) in enumerate(c["res"]):
        f = R(getattr(K, k), "f%d" % i, "f%d" % i)
        for n, d, cov, kind in inner:
            x = R(K.NOT_EQUAL, n, n)
            x.first.covered, x.first.diff_kind, x.diff = cov, kind, d
            f.inner[n] = x
        f.graph = g
        r.inner["f%d" % i] = f
    r.graph = g
    r.start_time, r.stop_time = (1.5, 4.25) if c["times"] else (None, None)
    b1, b2 = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(b1):
        e1 = outcome(r.report_symbol_stat, c["errors"])
    with contextlib.redirect_stdout(b2):
        e2 = outcome(r.report_object_stat)
    n = len(c["res"])
    ks = [k for k, _ in c["res"]]
    pc = lambda x, t: [str(x), "{:.0f}%".format(x / t * 100)]
    want1 = {}
    if n:
        emp = sum(1 for f in r.inner.values() if f.kind == K.NOT_EQUAL and all(x.diff == "" for x in f.inner.values()))
        want1 = {"Total symbols": [str(n)], "Equal": pc(ks.count("EQUAL"), n), "Not equal": pc(ks.count("NOT_EQUAL"), n), "(empty diff)": pc(emp, n),
                 "Unknown": pc(ks.count("UNKNOWN"), n), "Errors": pc(ks.count("ERROR") + ks.count("TIMEOUT"), n)}
    uniq = {}
    for f in r.inner.values():
        for x in f.inner.values():
            if not (x.diff == "" and x.first.covered):
                uniq.setdefault(x.first.name, x)
    u = list(uniq.values())
    I = sum(s[0] + s[1] for s in c["stats"])
    E = sum(s[2] + s[3] for s in c["stats"])
    t = len(u)
    want2 = {"Functions compared": [str(len(c["stats"]))], "Lines compared": [str(sum(s[4] + s[5] for s in c["stats"]))], "Instructions compared": [str(I)],
             "1": [], "Total differences": [str(t)]}
    if c["times"]:
        want2["Elapsed time"] = ["2.75"]
    if t:
        kinds = [x.first.diff_kind for x in u]
        asm = sum(1 for x in u if x.first.diff_kind == "syntactic" and x.first.name.startswith("assembly code"))
        want2.update({"In functions": pc(kinds.count("function"), t), "In types": pc(kinds.count("type"), t), "In macros": pc(kinds.count("syntactic") - asm, t),
                      "In inline assembly code": pc(asm, t), "Empty diffs": pc(sum(x.diff == "" for x in u), t)})
    got2 = numbers(b2.getvalue())
    got2.pop("1", None)
    want2.pop("1")
    line = [l for l in b2.getvalue().splitlines() if l.startswith("1:1")]
    wl = ["1:1 equal instructions:  {0} ({1:.0f}%)".format(E, E / I * 100 if I else float("nan"))]
    return ([repr(e1), repr(e2), numbers(b1.getvalue()), got2, [re.sub(r"\s+", " ", x) for x in line]],
            ["None", "None", want1, want2, [re.sub(r"\s+", " ", x) for x in wl]])

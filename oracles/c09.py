from .base import *
stub_simpll()
import contextlib, io, re, shutil, tempfile, types
import diffkemp.diffkemp as dk
from diffkemp.semdiff.result import Result
from diffkemp.snapshot import Snapshot

RULE = "pairs of snapshots with up to two groups and comparisons of every outcome, with and without filter and output directory; non-trivial: some function in both"
MAX = {"quick": 2500, "thorough": 40000}
K = ["EQUAL", "NOT_EQUAL", "NOT_EQUAL", "UNKNOWN", "ERROR", "TIMEOUT", "EQUAL_SYNTAX", "ASSUMED_EQUAL"]
K = [k for k in K if k in Result.Kind.__members__]
DIFFS = ["", "", "-a\n+b", "if (x)", "   ", None]


def cases(rng):
    while True:
        sysctl = rng.random() < .5
        side = lambda: {g: {f: rng.random() < .85 for f in ["f", "g", "h"] if rng.random() < .75} for g in (["a.b", "c.d"] if sysctl else [""]) if rng.random() < .95}
        res = {f: [rng.choice(K), [[n, rng.choice(DIFFS), rng.random() < .3] for n in ["f", "x", "y"] if rng.random() < .5]] for f in "fgh"}
        if rng.random() < .7:       # differences without text occur with full diffs only
            for f in res:
                for d in res[f][1]:
                    d[1] = d[1] or ""
        yield {"old": side(), "new": side(), "res": res, "regex": rng.choice([None, None, "b$", "x", "nothing", "", "^"]), "stdout": rng.random() < .5,
               "full": rng.random() < .3, "show": rng.random() < .6, "cache": rng.random() < .3, "kind": "sysctl" if sysctl else "function",
               "tag": rng.choice([None, "t"])}


def trivial(c):
    return not any(set(c["old"][g]) & set(c["new"].get(g, {})) for g in c["old"])


class Mod:
    def __init__(self, llvm): self.llvm = llvm
    def clean_module(self): pass


def run(c):
    d = tempfile.mkdtemp()
    keep = {n: getattr(dk, n) for n in ("functions_diff", "Config", "YamlOutput", "mkdtemp", "SimpLLCache")}
    clean, add, cwd = dk.LlvmModule.clean_all, Result.add_inner, os.getcwd()
    out = io.StringIO()
    calls, verdicts, saved = [], [], []
    try:
        os.chdir(d)
        dk.mkdtemp = lambda: d
        dk.SimpLLCache = lambda p: types.SimpleNamespace()
        dk.LlvmModule.clean_all = staticmethod(lambda: None)
        snaps = []
        for side in ("old", "new"):
            s = Snapshot(None, None, c["kind"])
            for g, fs in c[side].items():
                for f, has in fs.items():
                    s.add_fun(f, Mod(side + f) if has else None, None, c["tag"], g or None)
            snaps.append(s)
        conf = types.SimpleNamespace(snapshot_first=snaps[0], snapshot_second=snaps[1], full_diff=c["full"], show_diff=c["show"])
        dk.Config = types.SimpleNamespace(from_args=lambda a: conf)

        def diff(**kw):
            f = kw["fun_first"]
            calls.append((f, kw["fun_second"], kw["mod_first"].llvm, kw["mod_second"].llvm))
            k, inner = c["res"][f]
            r = Result(Result.Kind[k], f, f)
            for n, t, cov in inner:
                i = Result(Result.Kind.NOT_EQUAL, n, n)
                i.diff, i.first.covered, i.first.callstack, i.second.callstack = t, cov, None, None
                r.inner[n] = i
            return r
        dk.functions_diff = diff

        def record(self, r):
            if self.first.name == "old":
                verdicts.append((r.first.name, r.kind.name))
            return add(self, r)
        Result.add_inner = record

        class Yaml:
            def __init__(self, **kw): pass
            def save(self, output_dir, file_name): saved.append(file_name)
        dk.YamlOutput = Yaml
        args = types.SimpleNamespace(stdout=c["stdout"], output_dir=None if c["stdout"] else "out", snapshot_dir_old="old", snapshot_dir_new="new",
                                     enable_module_cache=c["cache"], regex_filter=c["regex"], report_stat=False, extended_stat=False, show_errors=False)
        with contextlib.redirect_stdout(out):
            r = outcome(dk.compare, args)
        # what should have happened
        ecalls, everd, shown, named = [], [], [], []
        crash = None
        for g in sorted(c["old"]):
            for f in sorted(c["old"][g]):
                if f not in c["new"].get(g, {}) or crash:
                    continue
                if not c["old"][g][f] or not c["new"][g][f]:
                    everd.append((f, "UNKNOWN"))
                    named.append(f)
                    continue
                ecalls.append((f, f, "old" + f, "new" + f))
                k, inner = c["res"][f]
                if c["regex"] is not None and k == "NOT_EQUAL" and not any(t is not None and re.search(c["regex"], t) for _, t, _ in inner):
                    k = "EQUAL"
                everd.append((f, k))
                if k == "NOT_EQUAL" or c["full"] and any(t for _, t, _ in inner):
                    ns = sorted((n, t) for n, t, cov in inner if not (t == "" and cov))
                    if c["show"] and any(t is None for _, t in ns):
                        crash = True
                    shown.append((g, f, [n for n, _ in ns], [t for _, t in ns]))
                elif k in ("UNKNOWN", "ERROR") and not c["full"]:      # with full diffs they are in the results only
                    named.append(f)
        if crash:
            return (calls, verdicts), (ecalls, everd)       # a difference without text is shown by its own failure: not judged here
        got = []
        text = out.getvalue()
        if c["stdout"]:
            for g, f, ns, ts in shown:
                got.append((g, f, [n for n in ns if "%s differs:\n" % n in text], ts))
            dif = len(re.findall(r"(?m)^ *\w+ differs:$", text))
        else:
            dif = 0
            for g, f, ns, ts in shown:
                p = os.path.join("out", g, f + ".diff") if g else os.path.join("out", f + ".diff")
                t = open(p).read() if os.path.exists(p) else ""
                dif += len(re.findall(r"(?m)^ *\w+ differs:$", t))
                got.append((g, f, re.findall(r"(?m)^ *(\w+) differs:$", t), [x if not c["show"] or x.strip() == "" or re.sub(r"(?m)^", "  ", x) in t else None for x in ts]))
            if os.path.isdir("out"):
                files = sorted(os.path.relpath(os.path.join(a, x), "out") for a, _, fs in os.walk("out") for x in fs)
            else:
                files = []
            got.append(files)
        want = list(shown)
        if not c["stdout"]:
            want.append(sorted(os.path.join(g, f + ".diff") if g else f + ".diff" for g, f, _, _ in shown))
        seen = sorted(m for m in re.findall(r"(?m)^(\w+): ", text) if m in "fgh")
        return ((r, calls, verdicts, got, dif, seen, bool(saved)),
                (0, ecalls, everd, want, sum(len(n) for _, _, n, _ in shown), sorted(named), (bool(shown) or c["full"] and bool(ecalls)) and not c["stdout"]))
    finally:
        os.chdir(cwd)
        Result.add_inner, dk.LlvmModule.clean_all = add, clean
        for n, v in keep.items():
            setattr(dk, n, v)
        shutil.rmtree(d)

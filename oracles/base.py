"""Concrete runs of the real code against the same specification functions the verifier uses (CPython cross-check, and the
search for failing inputs behind a failed obligation)."""
import json
import os
import random
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
for p in (REPO, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))):
    if p not in sys.path:
        sys.path.insert(0, p)


class Char:
    """A stand-in for C memory."""
    def __init__(self, t, init):
        self.t, self.init = t, init

    def __getitem__(self, i):
        return self


class FFI:
    NULL = None
    error = type("FfiError", (Exception,), {})

    def new(self, t, init=None):
        return Char(t, init)

    def string(self, c):
        return c.init

    def cast(self, t, v):
        return v


def stub_simpll():
    """The compiled CFFI module is not part of what Python-level checks run."""
    import types
    for name in ("diffkemp.simpll._simpll", "diffkemp.simpll.simpll_lib"):
        m = types.ModuleType(name)
        m.ffi, m.lib = FFI(), types.SimpleNamespace()
        sys.modules[name] = m
    m = sys.modules["diffkemp.simpll._simpll"]
    m.__path__ = []
    l = types.ModuleType("diffkemp.simpll._simpll.lib")
    l.shutdownSimpLL = lambda: None
    sys.modules[l.__name__] = m.lib = l
    sys.modules["diffkemp.simpll.simpll_lib"].lib = l


class Crash:
    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return isinstance(o, Crash) and type(o.e).__name__ == type(self.e).__name__

    def __repr__(self):
        return "raise %s" % type(self.e).__name__


class AnyCrash(Crash):
    """Some exception is required, whichever."""
    def __eq__(self, o):
        return isinstance(o, Crash)


def outcome(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        return Crash(e)


def short(x, n=3000):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def own(e):
    """raised by the code under test itself, for a reason that does not depend on the stand-ins around it"""
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and tb[-1].filename.startswith(os.path.join(REPO, "diffkemp")) and \
        isinstance(e, (KeyError, IndexError, ZeroDivisionError, NameError, AssertionError, RecursionError)) or type(e) is ValueError and bool(tb) \
        and tb[-1].filename.startswith(os.path.join(REPO, "diffkemp"))


def drive(mod, argv):
    """argv: seed tier seconds | --replay file"""
    if argv and argv[0] == "--replay":
        case = json.load(open(argv[1]))["case"]
        try:
            got, want = mod.run(case)
        except Exception as e:
            if not own(e):
                raise
            got, want = "raise %s: %s" % (type(e).__name__, e), "a result"
        print("case:", json.dumps(case)[:4000])
        print("observed:", short(got))
        print("required:", short(want))
        print("HOLDS" if got == want else "VIOLATED")
        return 0 if got == want else 1
    seed, tier, secs = int(argv[0]), argv[1], float(argv[2])
    rng = random.Random(seed)
    t0 = time.time()
    n = 0
    seen, samples, fails = set(), [], []
    nmax = getattr(mod, "MAX", {"quick": 4000, "thorough": 200000})[tier]
    for case in mod.cases(rng):
        js = json.dumps(case, sort_keys=True)
        n += 1
        triv = bool(mod.trivial(case)) if hasattr(mod, "trivial") else False
        if not triv:
            seen.add(hash(js))
        try:
            got, want = mod.run(json.loads(js))
        except Exception as e:
            if own(e):
                # the code under test failed by itself where a result is required
                fails.append({"case": case, "observed": "raise %s: %s" % (type(e).__name__, short(str(e), 300)), "required": "a result", "signature": ""})
                if len([f for f in fails if not f["signature"]]) >= 2:
                    break
                continue
            traceback.print_exc()
            print("RESULT " + json.dumps({"error": "%s: %s" % (type(e).__name__, e), "evaluations": n, "case": case}))
            return 2
        if len(samples) < 3 and not triv:
            samples.append({"case": case, "observed": short(got, 400)})
        if not (got == want):
            sig = mod.signature(case, got, want) if hasattr(mod, "signature") else ""
            if sum(1 for f in fails if f["signature"] == sig) < 2:
                fails.append({"case": case, "observed": short(got), "required": short(want), "signature": sig})
            if len([f for f in fails if not f["signature"]]) >= 2:
                break
        if n >= nmax or time.time() - t0 > secs:
            break
    print("RESULT " + json.dumps({"evaluations": n, "distinct_nontrivial": len(seen), "samples": samples, "failures": fails,
                                  "rule": getattr(mod, "RULE", ""), "wall_s": time.time() - t0}))
    return 0


if __name__ == "__main__":
    import importlib
    sys.exit(drive(importlib.import_module("oracles." + sys.argv[1].lower()), sys.argv[2:]))

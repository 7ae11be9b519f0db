from .graphs import *
stub_simpll()
import tempfile, shutil
from diffkemp.semdiff.caching import SimpLLCache

RULE = "histories of 1-4 updates with up to 6 results of up to 5 functions over random file pairs, then a clear; non-trivial: a reusable result"
MAX = {"quick": 4000, "thorough": 60000}
FILES = ["lib/a.c", "lib/b.c", "lib/sub/a.c", "inc/h.h", "lib$a.c"]


def cases(rng):
    while True:
        roots = rng.choice([["/k/old/", "/k/new/"], ["/k/old/", "/k/new/"], ["/k/old/", "/m/new/"], ["old/", "new/"], ["/k/s/", "/k/s/"]])
        ups = []
        for _ in range(rng.randint(1, 4)):
            up = []
            for _ in range(rng.randint(0, 6)):
                f = rng.choice(FILES)
                g = f if rng.random() < .7 else rng.choice(FILES)
                n = "f%d" % rng.randint(0, 4)
                up.append({"names": [n, n if rng.random() < .8 else n + "x"], "files": [roots[0] + f, roots[1] + g],
                           "cachable": rng.random() < .7, "result": rng.choice(KINDS)})
            ups.append(up)
        yield {"updates": ups}


def trivial(c):
    return not any(v["cachable"] for u in c["updates"] for v in u)


def name(l, r):
    common = os.path.commonprefix([l, r])
    return os.path.relpath(l, common).replace("/", "$") + ":" + os.path.relpath(r, common).replace("/", "$")


def run(c):
    tmp = tempfile.mkdtemp()
    try:
        d = os.path.join(tmp, "cache")
        os.mkdir(d)
        cache = SimpLLCache(d)
        want = {}
        for u in c["updates"]:
            vs = []
            for v in u:
                x = G.Vertex(tuple(v["names"]), getattr(Result.Kind, v["result"]), tuple(v["files"]), (1, 1))
                x.cachable = v["cachable"]
                vs.append(x)
                if v["cachable"]:
                    want.setdefault(tuple(v["files"]), []).append("%s:%s\n" % tuple(v["names"]))
            r = outcome(cache.update, vs)
            if isinstance(r, Crash):
                return r, "updated"
        got = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
        cleared = outcome(cache.clear)
        return ([sorted(got.values()), repr(cleared), os.path.isdir(d)], [sorted("".join(x) for x in want.values()), "None", False])
    finally:
        shutil.rmtree(tmp)


def signature(c, got, want):
    """The recorded finding: two pairs of files for which the same file name is derived."""
    pairs, files = {}, {}
    for u in c["updates"]:
        merge = {}
        for v in u:
            if v["cachable"]:
                merge.setdefault(tuple(v["files"]), []).append("%s:%s\n" % tuple(v["names"]))
        for fs, ls in merge.items():
            pairs.setdefault(name(*fs), set()).add(fs)
            files.setdefault(name(*fs), []).extend(ls)
    if any(len(x) > 1 for x in pairs.values()) and got[0] == sorted("".join(x) for x in files.values()):
        return "filename-collision"
    return ""

from .base import *
stub_simpll()
import tempfile, shutil
from diffkemp.utils import get_end_line, EndLineNotFound

RULE = "files of 0-14 lines drawn from closing tokens with various surroundings and code lines, every start line; non-trivial: a closing line exists"
MAX = {"quick": 6000, "thorough": 100000}
LINES = ["}", "}", ");", "};", "} ", "}\t", "  }", "} /* x */", "}\r", ") ;", ");  ", "}; ", " };", "int f(void)", "{", "\treturn 0;", "", "}}", "};}", "\x0c", "} \x0b",
         "ž", "\xff"]


def cases(rng):
    while True:
        ls = [rng.choice(LINES) if rng.random() < .6 else rng.choice(LINES[13:16]) for _ in range(rng.randint(1, 14))]
        yield {"lines": ls, "start": rng.randint(1, len(ls)), "kind": rng.choice(["function", "type"]), "last": rng.random() < .5, "raw": rng.random() < .03}


def trivial(c):
    return not any("}" in l or ")" in l for l in c["lines"])


def run(c):
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "f.c")
        text = "\n".join(c["lines"]) + ("\n" if c["last"] else "")
        with open(p, "wb") as f:
            f.write(text.encode("latin-1" if c["raw"] else "utf-8", "replace"))
        try:
            real = open(p, encoding="utf-8").readlines()
        except UnicodeDecodeError as e:
            return outcome(get_end_line, p, c["start"], c["kind"]), Crash(e)
        if c["start"] > len(real):
            return 0, 0
        toks = ["}", ");"] if c["kind"] == "function" else ["};"]
        ends = [i + 1 for i, l in enumerate(real) if i + 1 >= c["start"] and any(l.startswith(t) and not l[len(t):].strip() for t in toks)]
        want = min(ends) if ends else Crash(EndLineNotFound())
        return outcome(get_end_line, p, c["start"], c["kind"]), want
    finally:
        shutil.rmtree(d)

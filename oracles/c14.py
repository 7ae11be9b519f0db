from .base import *
stub_simpll()
import re
import subprocess
import tempfile, shutil
from diffkemp.syndiff.function_syntax_diff import syntax_diff, unified_syntax_diff, make_diff, DiffFormat, DIFF_NOT_OBTAINED_MESSAGE

RULE = "pairs of small source files with a function or type at random lines, related by random edits, and its diff in both formats; non-trivial: the fragments differ"
MAX = {"quick": 1200, "thorough": 30000}
BODY = ["\treturn 0;", "  a = b;", "", "5,", "  7, 8,", "- 3", "*** 4 ***", "--- 2,3 ----", "@@ -1,2 +3,4 @@", "x++;", "* 9", "\tint y;", " ", "-1", "***", "ž = 1;", "12"]


def cases(rng):
    while True:
        body = [rng.choice(BODY) for _ in range(rng.randint(0, 12))]
        other = list(body)
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            k = rng.random()
            i = rng.randint(0, len(other))
            if k < .4:
                other.insert(i, rng.choice(BODY))
            elif k < .7 and other:
                del other[min(i, len(other) - 1)]
            elif other:
                other[min(i, len(other) - 1)] = rng.choice(BODY)
        kind = rng.choice(["function", "type"])
        end = "}" if kind == "function" else "};"
        ends = [end if rng.random() < .97 else "} else", end if rng.random() < .97 else "x"]
        pre = [[rng.choice(["/* c */", "}", "};", "", "int g;"]) for _ in range(rng.choice([0, 1, 3, 8, 97]))] for _ in range(2)]
        heads = ["int f(void) {", rng.choice(["int f(void) {", "int f(int a) {"])]
        yield {"kind": kind, "files": [[pre[i], [heads[i]] + b + [ends[i]], rng.choice([[], ["int z;"]])] for i, b in enumerate((body, other))],
               "raw": rng.random() < .02, "unified": rng.random() < .5}


def trivial(c):
    return c["files"][0][1] == c["files"][1][1]


def shifted(m, start):
    return ",".join(str(int(x) + start - 1) for x in m.split(","))


def run(c):
    d = tempfile.mkdtemp()
    old = tempfile.tempdir
    try:
        tempfile.tempdir = d
        ps, starts, frags, found = [], [], [], True
        ok = "}" if c["kind"] == "function" else "};"
        for i, (pre, frag, post) in enumerate(c["files"]):
            p = os.path.join(d, "f%d.c" % i)
            with open(p, "wb") as f:
                f.write("".join(l + "\n" for l in pre + frag + post).encode("iso-8859-2" if c["raw"] else "utf-8", "replace"))
            ps.append(p)
            starts.append(len(pre) + 1)
            found &= frag[-1] == ok
            frags.append(os.path.join(d, "g%d" % i))
            with open(frags[-1], "w") as f:
                f.write("".join(l + "\n" for l in frag))
        if c["unified"]:
            ends = [s + len(x[1]) - 1 for s, x in zip(starts, c["files"])]
            got = outcome(unified_syntax_diff, *ps, *starts, *ends)
        else:
            got = outcome(syntax_diff, ps[0], ps[1], "f", c["kind"], *starts)
        bad = False
        for p in ps:
            try:
                open(p, encoding="utf-8").read()
            except UnicodeDecodeError as e:
                bad = e
        if bad:
            return got, (Crash(bad) if c["unified"] else DIFF_NOT_OBTAINED_MESSAGE)
        if not c["unified"] and not found:
            return got, DIFF_NOT_OBTAINED_MESSAGE
        raw = subprocess.run(["diff", "-U" if c["unified"] else "-C", "1"] + frags, stdout=subprocess.PIPE).stdout.decode()
        if not raw:
            return got, ""
        out = []
        for l in raw.split("\n")[2:]:
            if c["unified"]:
                m = re.fullmatch(r"@@ -(\d+)(,\d+)? \+(\d+)(,\d+)? @@", l)
                if m:
                    l = "@@ -%d%s +%d%s @@" % (int(m[1]) + starts[0] - 1, m[2] or "", int(m[3]) + starts[1] - 1, m[4] or "")
            else:
                if l == "*" * 15:
                    l += " " + c["files"][0][1][0].strip()
                m = re.fullmatch(r"\*\*\* ([\d,]+) \*\*\*\*", l)
                l = "*** %s ***" % shifted(m[1], starts[0]) if m else l
                m = re.fullmatch(r"--- ([\d,]+) ----", l)
                l = "--- %s ---" % shifted(m[1], starts[1]) if m else l
            out.append(l)
        if c["unified"] and isinstance(got, str):
            got = "\n".join(got.split("\n")[2:])       # the first two lines name the temporary files
        return got, "\n".join(out)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(d)

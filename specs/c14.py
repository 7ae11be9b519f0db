"""C14: shown diffs carry the line numbers of the original files."""
import os
from subprocess import check_output, CalledProcessError
from tempfile import mkdtemp
from diffkemp.syndiff.function_syntax_diff import DiffFormat, DIFF_NOT_OBTAINED_MESSAGE, UNIFIED_HUNK_HEAD_REGEX, make_diff
from diffkemp.utils import get_end_line, EndLineNotFound


def extract(file, start, end, target):
    """exactly the lines from start to end"""
    with open(file, "r", encoding="utf-8") as f, open(target, "w", encoding="utf-8") as out:
        for line in f.readlines()[start - 1:end]:
            out.write(line)


def compute(form, first, second, first_start, second_start, first_end, second_end):
    d = mkdtemp()
    if form == DiffFormat.CONTEXT:
        how = "-C"
    elif form == DiffFormat.UNIFIED:
        how = "-U"
    a, b = os.path.join(d, "1"), os.path.join(d, "2")
    extract(first, first_start, first_end, a)
    extract(second, second_start, second_end, b)
    try:
        diff = check_output(["diff", how, "1", a, b]).decode("utf-8")
    except CalledProcessError as e:
        if e.returncode != 1:
            raise
        diff = e.output.decode("utf-8")
    return diff, a, b


def shift(line, first_line, second_line):
    """a hunk header with its numbers moved to the original files"""
    m = UNIFIED_HUNK_HEAD_REGEX.match(line)
    if m:
        return "@@ -" + str(int(m.group(1)) + first_line - 1) + m.group(2) + " +" + str(int(m.group(3)) + second_line - 1) + m.group(4) + " @@"
    return line


def unified(first, second, first_line, second_line, first_end, second_end):
    diff = make_diff(DiffFormat.UNIFIED, first, second, first_line, second_line, first_end, second_end)[0]
    if diff.isspace() or diff == "":
        return diff
    return "\n".join([shift(l, first_line, second_line) for l in diff.split("\n")])


def plain(line):
    """not a line giving line numbers: lines of code are prefixed with one character and a blank"""
    return not line.startswith(("*** ", "--- "))


def moved(line, first_line, second_line):
    side = "*" if line.count("*") > 1 else "-"
    start = first_line if side == "*" else second_line
    bare = line.replace("*", "").replace("-", "").replace(" ", "")
    return side * 3 + " " + ",".join([str(int(x) + start - 1) for x in bare.split(",")]) + " " + side * 3


def context(first, second, name, kind, first_line, second_line):
    try:
        a = get_end_line(first, first_line, kind)
        b = get_end_line(second, second_line, kind)
        diff, fragment, other = make_diff(DiffFormat.CONTEXT, first, second, first_line, second_line, a, b)
    except (UnicodeDecodeError, EndLineNotFound):
        return DIFF_NOT_OBTAINED_MESSAGE
    if diff.isspace() or diff == "":
        return diff
    out = []
    for line in diff.split("\n")[2:]:
        if set(list(line)) == set(["*"]):
            with open(os.path.join(fragment), "r") as f:
                line += " " + f.readline().strip()
        if plain(line):
            out += [line]
            continue
        out += [moved(line, first_line, second_line)]
    return "\n".join(out)

"""C15: the end of a definition is its first closing line."""
from diffkemp.utils import EndLineNotFound


def closes(line, kind):
    text = line.rstrip()
    if kind == "function":
        return text == "}" or text == ");"
    return text == "};"


def in_file(filename, start, kind):
    """a definition starts at a line of the file"""
    return 1 <= start and (kind == "function" or kind == "type")


def end(filename, start, kind):
    with open(filename, "r", encoding="utf-8") as f:
        lines = f.readlines()
    n = start
    line = lines[n - 1]
    while not closes(line, kind):
        n += 1
        if n > len(lines):
            raise EndLineNotFound
        line = lines[n - 1]
    return n

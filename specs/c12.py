"""C12: symbol lists are taken over completely and each symbol recorded once."""
from diffkemp.llvm_ir.source_tree import SourceNotFoundException


def symbols(path):
    with open(path, "r") as f:
        lines = f.readlines()
    out = []
    for line in lines:
        s = line.strip()
        if s != "" and (s[0].isalpha() or s[0] == "_"):
            out.append(s)
    return out


def record(snapshot, names):
    for s in names:
        found = None
        try:
            m = snapshot.source_tree.get_module_for_symbol(s)
            if m.has_function(s):
                found = m
        except SourceNotFoundException:
            found = None
        snapshot.add_fun(s, found)


def groups(snapshot, names):
    return list(snapshot.fun_groups)


def entries(snapshot, names):
    """the entries outside any group"""
    if None not in snapshot.fun_groups:
        return []
    return [(n, d.mod, d.glob_var, d.tag) for n, d in snapshot.fun_groups[None].functions.items()]

"""C10: a stored snapshot lists the functions it was created with."""


def add(snapshot, name, llvm_mod, glob_var, tag, group):
    """the entry of the name in the group becomes the one given"""
    entry = snapshot.FunctionDesc(llvm_mod, glob_var, tag)
    if group in snapshot.fun_groups:
        snapshot.fun_groups[group].functions[name] = entry
    else:
        g = snapshot.FunctionGroup()
        g.functions[name] = entry
        snapshot.fun_groups[group] = g


def lookup(snapshot, name, group):
    if group in snapshot.fun_groups:
        if name in snapshot.fun_groups[group].functions:
            return snapshot.fun_groups[group].functions[name]
    return None


def listed(snapshot):
    out = set()
    for g in snapshot.fun_groups.values():
        for d in g.functions.values():
            if d.mod is not None:
                out.add(d.mod)
    return out


def chosen(snapshot, functions, group):
    table = {}
    for f in functions:
        table[f] = snapshot.fun_groups[group].functions[f]
    snapshot.fun_groups[group].functions = table


def groups(snapshot, *rest):
    return list(snapshot.fun_groups)


def any_group():
    """an arbitrary group name"""
    return None


def any_name():
    """an arbitrary function name"""
    return ""


def names(snapshot, *rest):
    """the names in an arbitrary group, in order"""
    return list(snapshot.fun_groups[any_group()].functions) if any_group() in snapshot.fun_groups else None


def entry(snapshot, *rest):
    """an arbitrary entry"""
    d = lookup(snapshot, any_name(), any_group())
    return (d.mod, d.glob_var, d.tag) if d is not None else None


def present(snapshot, functions, group):
    return group in snapshot.fun_groups

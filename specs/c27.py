"""C27: only modules used often enough are preloaded."""


def preloaded(functions, group, other, least):
    uses = {}
    for name, old in functions:
        new = other.get_by_name(name, group)
        if new:
            if old.mod:
                uses[old.mod.llvm] = uses.get(old.mod.llvm, 0) + 1
            if new.mod:
                uses[new.mod.llvm] = uses.get(new.mod.llvm, 0) + 1
    return {m for m, n in uses.items() if n >= least}

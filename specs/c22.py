"""C22: which table and entries a sysctl name or pattern means."""
from diffkemp.llvm_ir.llvm_source_finder import SourceNotFoundException
from diffkemp.llvm_ir.llvm_sysctl_module import LlvmSysctlModule


def means(name, pattern):
    if pattern == "*":
        return True
    if pattern.startswith("{") and pattern.endswith("}"):
        return name in pattern[1:-1].split("|")
    return name == pattern


def root(parts):
    """(table of the family, components left); no table for other families"""
    if parts[0] in ["kernel", "vm", "fs", "debug", "dev"]:
        return "sysctl_base_table", parts
    if parts[0] != "net" or len(parts) <= 2:
        return None, parts
    if parts[1] == "core":
        return "net_core_table", parts[2:]
    if parts[1] != "ipv4":
        return None, parts
    if parts[2] == "conf":
        return "devinet_sysctl.1", parts[4:]
    return "ipv4_table", parts[2:]


def definition(tree, name):
    table, parts = root(name.split("."))
    if table is None:
        raise SourceNotFoundException(name)
    for i, part in enumerate(parts):
        mod = LlvmSysctlModule(tree.get_module_for_symbol(table.split(".")[0]), table)
        if i == len(parts) - 1:
            return mod
        child = mod.get_child(part)
        if child is None:
            break
        table = child.name
    raise SourceNotFoundException(name)


def found(tree, name, result):
    """the table of the result (at an arbitrary moment of its life)"""
    return None if result is None else (result.ctl_table, result.mod)


def child(mod, name):
    r = mod.table_object.get_child(name)
    return None if r is None else (r[0], r[1])


def data(mod, name):
    r = mod.table_object.get_data(name)
    return None if r is None else (r[0], r[1])


def code_child(mod, name):
    r = mod.get_child(name)
    return None if r is None else (r.name, r.indices)


def code_data(mod, name):
    r = mod.get_data(name)
    return None if r is None else (r.name, r.indices)


# ---------------------------------------------------------------- building from a list of options
def record(snapshot, options):
    """every entry of every option: its handler and the users of its variable, in a group of its own"""
    tree = snapshot.source_tree
    for option in options:
        try:
            mod = tree.get_sysctl_module(option)
        except SourceNotFoundException:
            continue
        entries = mod.parse_sysctls(option)
        if not entries:
            continue
        for entry in entries:
            handler = mod.get_proc_fun(entry)
            if handler:
                try:
                    home = tree.get_module_for_symbol(handler)
                    snapshot.add_fun(name=handler, llvm_mod=home, glob_var=None, tag="proc handler function", group=entry)
                except SourceNotFoundException:
                    pass
            var = mod.get_data(entry)
            if not var:
                continue
            try:
                users = tree.get_modules_using_symbol(var.name)
            except SourceNotFoundException:
                continue
            for user in users:
                for fun in user.get_functions_using_param(var):
                    if fun == handler:
                        continue
                    snapshot.add_fun(name=fun, llvm_mod=user, glob_var=var.name, tag="using data variable \"{}\"".format(var.name), group=entry)

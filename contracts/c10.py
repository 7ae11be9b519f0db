from .snap import *


def schema(prog):
    s = snap_schema(prog)
    s.models["specs.c10.any_group"] = ext("any_group", Opt(Str), pure=True)
    s.models["specs.c10.any_name"] = ext("any_name", Str, pure=True)
    return s


def contracts():
    me = ("snapshot", Ref(SNAP))
    return [
        Contract("add_fun", SNAP + ".add_fun", "specs.c10.add", [me, ("name", Str), ("llvm_mod", Opt(Ref(MOD))), ("glob_var", Opt(Str)), ("tag", Opt(Str)),
                 ("group", Opt(Str))], observe=["specs.c10.groups", "specs.c10.names", "specs.c10.entry"], result=False, schema=schema, nopath=True),
        Contract("get_by_name", SNAP + ".get_by_name", "specs.c10.lookup", [me, ("name", Str), ("group", Opt(Str))], schema=schema),
        Contract("modules", SNAP + ".modules", "specs.c10.listed", [me], schema=schema),
        Contract("filter", SNAP + ".filter", "specs.c10.chosen", [me, ("functions", List(Str)), ("group", Opt(Str))], pre="specs.c10.present",
                 observe=["specs.c10.groups", "specs.c10.names", "specs.c10.entry"], result=False, schema=schema),
    ]


BOUNDED = ["Snapshot.to_yaml and Snapshot._from_yaml: structures of YAML values; checked on histories of additions and filterings with real YAML"]

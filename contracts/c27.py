from .snap import *


def contracts():
    return [Contract("_get_modules_to_cache", "diffkemp.diffkemp._get_modules_to_cache", "specs.c27.preloaded",
                     [("functions", List(Tuple(Str, Ref(DESC)))), ("group_name", Opt(Str)), ("other_snapshot", Ref(SNAP)), ("min_frequency", Int)],
                     schema=snap_schema)]

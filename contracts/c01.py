from .common import *


def contracts():
    return [
        Contract("Result.add_inner", RES + ".add_inner", "specs.c01.add_inner", [("self", Ref(RES)), ("result", Ref(RES))],
                 observe=["specs.c01.observe"], result=False, schema=result_schema),
        Contract("Result.Kind.from_string", RES + ".Kind.from_string", "specs.c01.verdict", [("string", Str)],
                 schema=result_schema, same_exc=False),
    ]

from .common import *


def schema(prog):
    return graph_schema(prog)


def counts(prog):
    s = result_schema(prog)
    return s


def contracts():
    r = [Contract("Result.report_symbol_stat", RES + ".report_symbol_stat", "specs.c24.symbols", [("self", Ref(RES)), ("show_errors", Bool)],
                  pre="specs.c24.counts_only", logs=["out"], schema=counts, merge_ifs=True)]
    for f, g in (("compared_inst_cnt", "instructions"), ("compared_inst_equal_cnt", "equal_instructions"), ("compared_lines_cnt", "lines")):
        r.append(Contract("FunctionStats." + f, STATS + "." + f, "specs.c24." + g, [("self", Ref(STATS))], schema=schema))
    return r


BOUNDED = ["Result.report_object_stat: set of objects with their own equality; checked on concrete results"]

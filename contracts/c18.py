from .common import *

W = "diffkemp.building.cc_wrapper."
KEYS = ["DB_FILENAME", "CLANG", "CLANG_APPEND", "CLANG_DROP", "LLVM_LINK"]


def schema(prog):
    s = file_system(result_schema(prog))
    s.index_total = True         # every entry has a colon; the wrapper is called with its name
    s.stubs["open"] = opener()
    s.stubs["os.environ.get"] = ext("setting", Opt(Str), pure=True)
    s.stubs["os.getcwd"] = ext("getcwd", Str, pure=True)
    s.models[W + "check_call"] = ext("run", None, ch="run", raises=(W + "CalledProcessError",))
    s.log_print = False
    return s


def case(complete, compiling=None):
    def pre(it, args):
        from pyvc.engine import Infeasible
        argv = it.seqof(args[0])[1]
        it.assume(z3.Length(argv) > 0)
        have = True
        for k in KEYS:
            v = it.schema.stubs["os.environ.get"](it, [vstr(z3.StringVal("DIFFKEMP_WRAPPER_" + k))], {})
            if it.branch(it.isnone(v)):
                have = False
                break
        if have != complete:
            raise Infeasible()
        if compiling is not None and it.branch(z3.Contains(z3.SubSeq(argv, 1, z3.Length(argv) - 1), z3.Unit(z3.StringVal("-c")))) != compiling:
            raise Infeasible()
    return pre


def contracts():
    mk = lambda n, p, part=None: Contract("wrapper (%s)" % n, W + "wrapper", "specs.c18.step", [("argv", List(Str))], pre=p, logs=["run", "fs"],
                                          schema=schema, merge_ifs=True, opts={"part": part})
    # the many ways through a linking step are divided by three of the decisions taken on the way; together the parts cover all
    bits = [(a, b, c) for a in (True, False) for b in (True, False) for c in (True, False)]
    return [mk("a setting is missing", case(False)), *[mk("compiling, part %d" % k, case(True, True), {11: k == 1}) for k in (1, 2)]] + [
        mk("linking, part %d" % (k + 1), case(True, False), {8: b[0], 11: b[1], 12: b[2]}) for k, b in enumerate(bits)]

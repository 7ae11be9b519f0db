from .common import *

M = "diffkemp.syndiff.function_syntax_diff"
NOEND = "diffkemp.utils.EndLineNotFound"
FMT = Enum(M + ".DiffFormat")
BYTES = Opaque("bytes")
MATCH = Opaque("Match")


def schema(prog):
    s = file_system(result_schema(prog))
    s.stubs["open"] = opener()
    s.stubs["File.readlines"] = ext("readlines", Seq(Str), ch="fs", raises=("UnicodeDecodeError",), pure=True)
    s.stubs["File.readline"] = ext("readline", Str, ch="fs", pure=True)
    s.stubs["tempfile.mkdtemp"] = ext("mkdtemp", Str, ch="fs")
    s.exc_bases["subprocess.CalledProcessError"] = ("Exception",)
    s.stubs["subprocess.check_output"] = ext("check_output", BYTES, ch="fs", raises=("subprocess.CalledProcessError",))
    s.stubs["bytes.decode"] = ext("decode", Str, pure=True)
    s.ext_values[M + ".UNIFIED_HUNK_HEAD_REGEX"] = lambda it: V(Opaque("HunkRe"), z3.Const("hunk_re", sort(Opaque("HunkRe"))))
    s.stubs["HunkRe.match"] = ext("match", Opt(MATCH), pure=True)
    s.stubs["Match.group"] = ext("group", Str, pure=True)
    return s


def users(prog):
    """callers see the contracts of make_diff and get_end_line"""
    s = schema(prog)
    s.int_total = True       # diff prints numerals where its format has line numbers
    s.models["diffkemp.utils.get_end_line"] = ext("get_end_line", Int, ch="fs", raises=(NOEND, "UnicodeDecodeError"))
    s.models[M + ".make_diff"] = ext("make_diff", Tuple(Str, Str, Str), ch="fs", raises=("UnicodeDecodeError", "subprocess.CalledProcessError"),
                                     names=("diff_format", "first_file", "second_file", "first_start", "second_start", "first_end", "second_end"))
    return s


def contracts():
    two = [("first_file", Str), ("second_file", Str)]
    i = lambda *n: [(x, Int) for x in n]
    return [
        Contract("extract_code", M + ".extract_code", "specs.c14.extract", [("file", Str)] + i("start", "end") + [("target", Str)], logs=["fs"], schema=schema),
        Contract("make_diff", M + ".make_diff", "specs.c14.compute", [("form", FMT)] + two + i("first_start", "second_start", "first_end", "second_end"),
                 logs=["fs"], schema=schema),
        Contract("unified_syntax_diff", M + ".unified_syntax_diff", "specs.c14.unified", two + i("first_line", "second_line", "first_end", "second_end"),
                 logs=["fs"], schema=users, merge_ifs=True),
        Contract("syntax_diff", M + ".syntax_diff", "specs.c14.context", two + [("name", Str), ("kind", Str)] + i("first_line", "second_line"),
                 logs=["fs"], schema=users, merge_ifs=True),
    ]

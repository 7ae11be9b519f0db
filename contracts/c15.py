from .common import *


def schema(prog):
    s = file_system(result_schema(prog))
    s.stubs["open"] = opener(raises=("OSError",))
    s.stubs["File.readlines"] = ext("readlines", Seq(Str), ch="fs", raises=("UnicodeDecodeError",), pure=True)
    return s


def contracts():
    return [Contract("get_end_line", "diffkemp.utils.get_end_line", "specs.c15.end", [("filename", Str), ("start", Int), ("kind", Str)],
                     pre="specs.c15.in_file", logs=["fs"], schema=schema)]

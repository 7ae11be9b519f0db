from .common import *

C = "diffkemp.semdiff.custom_pattern_config."
CFG = C + "CustomPatternConfig"


def base(prog):
    s = file_system(Schema(prog))
    s.cls(CFG, path=Opt(Str), patterns_path=Opt(Str), pattern_files=Set(Str), settings=Dict(Str, Y), llvm_only=Bool)
    s.literal_dicts = False
    s.exc_bases[C + "UnsupportedCustomPatternError"] = "ValueError"
    s.stubs["os.access"] = ext("access", Bool, pure=True)
    s.ext_values["os.R_OK"] = lambda it: vint(z3.IntVal(4))
    s.stubs["subprocess.check_call"] = ext("run", None, ch="run", names=("args", "stdout"), raises=("subprocess.CalledProcessError",))
    s.ext_values["subprocess.DEVNULL"] = lambda it: vint(z3.IntVal(-3))
    s.stubs["yaml.safe_load"] = ext("safe_load", Y, pure=True)
    s.models["diffkemp.utils.get_llvm_version"] = ext("llvm_version", Int, pure=True)
    return s


def no_llvm(prog):
    s = base(prog)
    s.models[CFG + "._add_llvm_pattern"] = ext("add_llvm", None, ch="run", names=("self", "path"), raises=(C + "UnsupportedCustomPatternError",))
    return s


def no_pattern(prog):
    s = base(prog)
    s.y_lists = True
    s.models[CFG + ".add_pattern"] = ext("add_pattern", None, ch="run", names=("self", "path"), raises=(C + "UnsupportedCustomPatternError", "ValueError"))
    return s


def whole(prog):
    s = no_pattern(prog)
    s.models[CFG + "._load_yaml"] = ext("load_yaml", None, ch="run", names=("self",), raises=(C + "UnsupportedCustomPatternError", "ValueError"))
    return s


ME = [("self", Ref(CFG)), ("path", Str)]
USED, MODE = "specs.c23.used", "specs.c23.mode"


def contracts():
    return [
        Contract("get_extension", CFG + ".get_extension", "specs.c23.extension", [("path", Str)], schema=base),
        Contract("_add_llvm_pattern", CFG + "._add_llvm_pattern", "specs.c23.llvm_pattern", ME, observe=[USED, MODE], logs=["run", "out"], schema=base),
        Contract("add_pattern", CFG + ".add_pattern", "specs.c23.pattern", ME, observe=[USED, MODE], logs=["run", "out"], schema=no_llvm),
        Contract("_load_yaml", CFG + "._load_yaml", "specs.c23.configuration", ME[:1], observe=[USED, MODE], logs=["run", "out", "fs"], schema=no_pattern),
        Contract("create_from_file", "specs.c23.code", "specs.c23.create", [("path", Str), ("patterns_path", Opt(Str))], logs=["run"], schema=whole),
    ]

from .common import *

B = "diffkemp.llvm_ir.kernel_llvm_source_builder.KernelLlvmSourceBuilder"


def schema(prog):
    return result_schema(prog)


def compile(prog):
    s = schema(prog)
    s.models[B + "._strip_bash_quotes"] = s.models["specs.c16.unquoted"] = ext("unquoted", Str, pure=True)
    return s


def sequence(prog):
    """the translations of one command under their contracts"""
    s = schema(prog)
    s.models[B + "._gcc_to_llvm"] = s.models["specs.c16.compiled"] = ext("compiled", Opaque("Command"), pure=True,
                                                                        raises=("diffkemp.llvm_ir.kernel_llvm_source_builder.BuildException",))
    s.models[B + "._ld_to_llvm"] = s.models["specs.c16.linked"] = ext("linked", Opaque("Command"), pure=True)
    return s


def contracts():
    return [
        Contract("_strip_bash_quotes", B + "._strip_bash_quotes", "specs.c16.unquoted", [("gcc_param", Str)], schema=schema),
        Contract("_gcc_to_llvm", B + "._gcc_to_llvm", "specs.c16.compiled", [("gcc_command", Str)], schema=compile, merge_ifs=True),
        Contract("_ld_to_llvm", B + "._ld_to_llvm", "specs.c16.linked", [("ld_command", Str)], schema=schema, merge_ifs=True),
        Contract("_kbuild_to_llvm_commands", B + "._kbuild_to_llvm_commands", "specs.c16.translated", [("commands", List(Str)), ("module_name", Str)],
                 schema=sequence, merge_ifs=True),
        Contract("_extract_command", B + "._extract_command", "specs.c16.first_of", [("command", Str), ("programs", List(Str))], schema=schema),
        Contract("_extract_gcc_or_ld_command_list", B + "._extract_gcc_or_ld_command_list", "specs.c16.build_steps", [("commands", List(Str))], schema=schema),
    ]

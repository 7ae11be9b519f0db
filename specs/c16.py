"""C16: kernel build commands are translated without losing semantic options."""
from diffkemp.llvm_ir.kernel_llvm_source_builder import BuildException


def unquoted(param):
    if "'" in param:
        return param.replace("'", "")
    return param.replace('"', "")


def dropped(p):
    """the compiler itself, warnings (but not dependency output by the preprocessor), code generation, machine, optimisation, debug and output"""
    return (p == "gcc" or p.startswith("-W") and "-MD" not in p or p.startswith("-f") or p.startswith("-m") or p.startswith("-O")
            or p == "-DCC_HAVE_ASM_GOTO" or p == "-g" or p == "-o" or p.endswith(".o"))


def neutral(p):
    """debug hashes are the same in all builds"""
    if p.startswith('-D"DEBUG_HASH='):
        p = '-D"DEBUG_HASH=1"'
    if p.startswith('-D"DEBUG_HASH2='):
        p = '-D"DEBUG_HASH2=1"'
    return p


def compiled(gcc_command):
    out = None
    command = ["clang", "-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fdebug-macro", "-Wno-format-security"]
    for p in gcc_command.split():
        if dropped(p):
            continue
        p = neutral(p)
        if p.endswith(".c"):
            out = p[:-2] + ".ll"
        command.append(unquoted(p))
    if out is None:
        raise BuildException("no C source")
    return command + ["-o", out]


def linked(ld_command):
    command = ["llvm-link", "-S"]
    for p in ld_command.split():
        if p.endswith(".o"):
            command.append(p[:-2] + ".ll")
        elif p == "-o":
            command.append(p)
    return command


def translated(commands, module_name):
    out = []
    for c in commands:
        c = c.lstrip()
        if c.startswith("gcc") and module_name + ".mod" not in c:
            out.append(compiled(c))
        elif c.startswith("ld") and module_name + ".ko" not in c:
            out.append(linked(c))
    return out


def first_of(command, programs):
    """the first of the commands separated by semicolons that runs one of the programs"""
    for c in command.split(";"):
        if any([c.lstrip().startswith(p) for p in programs]):
            return c.lstrip()
    return None


def build_steps(commands):
    out = []
    for c in commands:
        s = first_of(c, ["gcc", "ld"])
        if s:
            out.append(s)
    return out


def after(command, option):
    return command[command.index(option) + 1]


def object_of(command):
    return after(command, "-o")


def source_of(command):
    return after(command, "-c")


def has_object(command):
    return "-o" in command and command[-1] != "-o" and len(command) > 1


def has_source(command):
    return "-c" in command

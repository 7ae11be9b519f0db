"""C18: the compiler wrapper mirrors build steps and never hides failures."""
import os
from diffkemp.building.cc_wrapper import wrapper_env_vars, check_call, CalledProcessError


def step(argv):
    names = wrapper_env_vars
    database = os.environ.get(names["db_filename"])
    clang = os.environ.get(names["clang"])
    append = os.environ.get(names["clang_append"])
    drop = os.environ.get(names["clang_drop"])
    debug = os.environ.get(names["debug"])
    linker = os.environ.get(names["llvm_link"])
    if database is None or clang is None or append is None or drop is None or argv is None or linker is None:
        return 1
    added = append.split(",")
    dropped = drop.split(",")
    argv[0] = "gcc"
    try:
        check_call("gcc", argv)
    except CalledProcessError:
        return 1

    linking = "-c" not in argv
    tool = clang
    sources = False
    output = None
    args = []
    for i, a in enumerate(argv):
        if a in dropped:
            continue
        obj = a.endswith(".o") or a.endswith(".lo") or a.endswith(".ko")
        src = a.endswith(".c")
        if i > 1 and argv[i - 1] == "-o":
            if obj and not linking:
                a = a.rsplit(".", 1)[0] + ".ll"
            if not obj and linking:
                a = a + ".llw"
            output = a
        elif obj and linking:
            a = a.rsplit(".", 1)[0] + ".ll"
            tool = linker
        elif src and linking:
            sources = True
        args.append(a)
    if sources and tool == linker:
        tool = clang
        args = [a for a in args if not a.endswith(".ll")]
    if output is not None and not output.endswith(".ll") and not output.endswith(".llw"):
        return 0
    if output in ["conftest.ll", "conftest.llw"] or "conftest.c" in argv:
        return 0

    entries = []
    if output is not None:
        kind = "f:" if tool == linker else "o:"
        entries.append(kind + os.path.join(os.getcwd(), output))
    elif not linking:
        entries.extend(["o:" + os.path.join(os.getcwd(), os.path.basename(a).rsplit(".", 1)[0] + ".ll") for a in args if a.endswith(".c")])

    args[0] = tool
    if tool != linker:
        args.extend(added)
        args.extend(["-S", "-emit-llvm", "-g"])
    else:
        args = [a for a in args if a == tool or a.endswith(".ll") or a.endswith(".llw") or a == "-o"]
        kept = [args[0], "-S"]
        named = False
        for a in args[1:]:
            if named or os.path.exists(a) or a == "-o":
                kept.append(a)
                if named:
                    named = False
            if a == "-o":
                named = True
        args = kept
    try:
        check_call(tool, args)
    except CalledProcessError:
        return 0
    with open(database, "a") as f:
        for e in entries:
            if os.path.exists(e.split(":", 1)[1]):
                f.write(e + "\n")
    return 0


def given(argv):
    return len(argv) > 0

from .common import *

BP = "diffkemp.config.BuiltinPatterns"
PARSER = Opaque("Parser")
KINDS = ("action", "dest", "const", "choices", "default", "nargs", "type", "required")


def schema(prog):
    s = result_schema(prog)
    s.cls(BP, settings=Dict(Str, Bool))
    s.cls("specs.c19.Args", enable_pattern=List(Str), disable_pattern=List(Str))
    mk = ext("parser", PARSER, pure=True)
    for n in ("argparse.ArgumentParser", "Parser.add_subparsers", "Parser.add_parser"):
        s.stubs[n] = lambda it, args, kw: V(PARSER, z3.Const("parser", sort(PARSER)))
    s.stubs["Parser.set_defaults"] = lambda it, args, kw: NONE
    s.stubs["setattr:Parser.required"] = lambda it, o, v: None

    def option(it, args, kw):
        """only what determines the pattern options is recorded; the choices are a set"""
        name = it.litkey(args[1])
        dest = it.litkey(kw["dest"]) if "dest" in kw else None
        if name and name[0].startswith("--") and (name[0].endswith("able-pattern") or name[0].endswith("able-all-patterns") or
                                                   (dest and dest[0] in ("enable_pattern", "disable_pattern"))):
            zs = [z3.StringVal(name[0])]
            for k in KINDS:
                if k not in kw:
                    continue
                zs.append(z3.StringVal(k))
                v = kw[k]
                if k == "choices":
                    f = it.lower_any(v if it.isset(v) else it.bi_set([v], {}), Set(Str))
                    zs.append(it.sget(f))
                elif k == "default":
                    zs.append(it.seqof(v)[1] if it.islist(v) and it.seqof(v)[1] is not None else z3.Empty(z3.SeqSort(z3.StringSort())))
                else:
                    zs.append(it.coerce(v, Str))
            it.log("cli", "option_" + name[0], *zs)
        return NONE
    s.stubs["Parser.add_argument"] = option
    return s


def contracts():
    return [
        Contract("BuiltinPatterns.update_from_args", "specs.c19.configured", "specs.c19.wanted", [("args", Ref("specs.c19.Args"))], result=False, nopath=True,
                 observe=["specs.c19.switches"], schema=schema, merge_ifs=True),
        Contract("make_argument_parser", "specs.c19.offered", "specs.c19.known", [], logs=["cli"], schema=schema),
    ]

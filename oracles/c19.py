from .base import *
stub_simpll()
import io, contextlib
from diffkemp.cli import make_argument_parser
from diffkemp.config import BuiltinPatterns

RULE = "command lines with up to 5 pattern options over all names of the comparison and of the parser, plus the all-options, in any order; non-trivial: an option is given"
MAX = {"quick": 3000, "thorough": 30000}
DOC = ["struct-alignment", "function-splits", "unused-return-types", "kernel-prints", "dead-code", "numerical-macros", "relocations", "type-casts",
       "control-flow-only", "inverse-conditions", "reordered-bin-ops", "group-vars"]
OFF = ["type-casts", "control-flow-only"]


def cases(rng):
    yield {"opts": []}
    for n in DOC + ["unused-returns", "no-such"]:
        for o in ("--enable-pattern", "--disable-pattern"):
            yield {"opts": [[o, n]]}
    while True:
        opts = []
        for _ in range(rng.randint(0, 5)):
            if rng.random() < .25:
                opts.append([rng.choice(["--enable-all-patterns", "--disable-all-patterns"])])
            else:
                opts.append([rng.choice(["--enable-pattern", "--disable-pattern"]), rng.choice(DOC + OFF)])
        yield {"opts": opts}


def trivial(c):
    return not c["opts"]


def run(c):
    argv = ["compare", "old", "new"] + [x for o in c["opts"] for x in o]
    def parse():
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                return make_argument_parser().parse_args(argv)
            except SystemExit:
                return None
    args = parse()
    named = [o[1] for o in c["opts"] if len(o) > 1]
    if any(n not in DOC for n in named):
        return args is None, True
    if args is None:
        return "refused", "accepted"
    on = {o[1] for o in c["opts"] if o[0] == "--enable-pattern"}
    off = {o[1] for o in c["opts"] if o[0] == "--disable-pattern"}
    alls = {o[0] for o in c["opts"] if len(o) == 1}
    want = {}
    for n in DOC:
        v = n not in OFF
        if "--enable-all-patterns" in alls:
            v = True
        if "--disable-all-patterns" in alls:
            v = False
        if n in on:
            v = True
        if n in off:
            v = False
        want[n] = v
    if want["control-flow-only"]:
        want["type-casts"] = True
    p = BuiltinPatterns()
    p.update_from_args(args)
    return dict(p.settings), want

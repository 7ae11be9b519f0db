"""C19: pattern options take effect as given."""
from diffkemp.cli import make_argument_parser
from diffkemp.config import BuiltinPatterns
from argparse import ArgumentParser


class Args:
    def __init__(self, enable_pattern, disable_pattern):
        self.enable_pattern = enable_pattern
        self.disable_pattern = disable_pattern


def configured(args):
    p = BuiltinPatterns()
    p.update_from_args(args)
    return p


def wanted(args):
    """on if named to be enabled (or all are) and not disabled; off if disabled"""
    p = BuiltinPatterns()
    s = p.settings
    for name in p.settings:
        if name in args.disable_pattern:
            s[name] = False
        elif name in args.enable_pattern:
            s[name] = True
        elif "all" in args.disable_pattern:
            s[name] = False
        elif "all" in args.enable_pattern:
            s[name] = True
    if s["control-flow-only"]:
        s["type-casts"] = True
    return p


def switches(args, p):
    return [(n, p.settings[n]) for n in p.settings]


def offered():
    make_argument_parser()


def known():
    """exactly the patterns the comparison knows can be named"""
    names = set(BuiltinPatterns().settings.keys())
    ap = ArgumentParser()
    ap.add_argument("--enable-pattern", action="append", default=[], choices=names)
    ap.add_argument("--disable-pattern", action="append", default=[], choices=names)
    ap.add_argument("--enable-all-patterns", action="append_const", dest="enable_pattern", const="all")
    ap.add_argument("--disable-all-patterns", action="append_const", dest="disable_pattern", const="all")

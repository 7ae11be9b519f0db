"""C01: a composite verdict is the worst verdict of its parts."""
from diffkemp.semdiff.result import Result


def rank(kind):
    if kind == Result.Kind.NONE:
        return 0
    if kind == Result.Kind.EQUAL:
        return 1
    if kind == Result.Kind.ASSUMED_EQUAL:
        return 2
    if kind == Result.Kind.NOT_EQUAL:
        return 3
    if kind == Result.Kind.UNKNOWN:
        return 4
    if kind == Result.Kind.TIMEOUT:
        return 5
    return 6


def worse(a, b):
    return b if rank(b) > rank(a) else a


def add_inner(outer, part):
    outer.inner[part.first.name] = part
    outer.kind = worse(outer.kind, part.kind)


def observe(outer, part):
    return (rank(outer.kind), outer.inner)


def verdict(text):
    if text == "none":
        return Result.Kind.NONE
    if text == "equal":
        return Result.Kind.EQUAL
    if text == "assumed-equal":
        return Result.Kind.ASSUMED_EQUAL
    if text == "not-equal":
        return Result.Kind.NOT_EQUAL
    if text == "unknown":
        return Result.Kind.UNKNOWN
    if text == "timeout":
        return Result.Kind.TIMEOUT
    if text == "error":
        return Result.Kind.ERROR
    raise KeyError(text)

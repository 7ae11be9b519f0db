"""C24: statistics count every compared symbol in the right class."""
from diffkemp.semdiff.result import Result

K = Result.Kind


def share(n, total):
    return "{0} ({1:.0f}%)".format(n, n / total * 100)


def symbols(result, show_errors):
    total = len(result.inner)
    equal = len([r for r in result.inner.values() if r.kind == K.EQUAL])
    differ = len([r for r in result.inner.values() if r.kind == K.NOT_EQUAL])
    unknown = len([r for r in result.inner.values() if r.kind == K.UNKNOWN])
    failed = len([r for r in result.inner.values() if r.kind == K.ERROR or r.kind == K.TIMEOUT])
    empty = len([r for r in result.inner.values() if r.kind == K.NOT_EQUAL and all(x.diff == "" for x in r.inner.values())])
    if total > 0:
        print("Total symbols: {}".format(total))
        print("Equal:         " + share(equal, total))
        print("Not equal:     " + share(differ, total))
        print("(empty diff):  " + share(empty, total))
        print("Unknown:       " + share(unknown, total))
        print("Errors:        " + share(failed, total))


def counts_only(result, show_errors):
    return not show_errors


def instructions(stats):
    return stats.inst_cnt[0] + stats.inst_cnt[1]


def equal_instructions(stats):
    return stats.inst_equal_cnt[0] + stats.inst_equal_cnt[1]


def lines(stats):
    return stats.lines_cnt[0] + stats.lines_cnt[1]

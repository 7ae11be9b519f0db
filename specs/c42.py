"""C42: a kernel build leaves the compiler headers as they were."""
import os
import sys
from subprocess import check_call, CalledProcessError
from diffkemp.diffkemp import read_symbol_list, generate_from_function_list, generate_from_sysctl_list
from diffkemp.llvm_ir.kernel_llvm_source_builder import KernelLlvmSourceBuilder
from diffkemp.llvm_ir.kernel_source_tree import KernelSourceTree
from diffkemp.snapshot import Snapshot

MARK = "DiffKemp generated"
GOTO = 'asm goto(x)'
CALL = 'asm ("goto(" #x ")")'


class Args:
    pass


def disable(builder):
    """every change carries the mark"""
    for header in builder.compiler_headers:
        if os.path.isfile(header):
            try:
                null = open(os.devnull, "w")
                check_call(["sed", "-i", "s/" + GOTO + "/" + CALL + " \\/* " + MARK + " *\\//g", header], stderr=null)
                check_call(["sed", "-i", "/#ifdef CONFIG_CC_HAS_ASM_INLINE/i #undef CONFIG_CC_HAS_ASM_INLINE \\/\\/ " + MARK, header], stderr=null)
            except CalledProcessError:
                pass


def enable(builder):
    """exactly the marked changes are taken back"""
    for header in builder.compiler_headers:
        if os.path.isfile(header):
            try:
                null = open(os.devnull, "w")
                check_call(["sed", "-i", "s/" + CALL + " \\/\\* " + MARK + " \\*\\//" + GOTO + "/g", header], stderr=null)
                check_call(["sed", "-i", "/#undef CONFIG_CC_HAS_ASM_INLINE \\/\\/ " + MARK + "/d", header], stderr=null)
            except CalledProcessError:
                pass


def build(args):
    """prepared once, restored on every way out"""
    source = KernelSourceTree(args.source_dir, KernelLlvmSourceBuilder(args.source_dir))
    kind = "sysctl" if args.sysctl else "function"
    try:
        snapshot = Snapshot.create_from_source(source, args.output_dir, kind, not args.no_source_dir)
    except BaseException:
        source.source_finder.finalize()
        raise
    try:
        symbols = read_symbol_list(args.symbol_list)
        if symbols:
            if args.sysctl:
                generate_from_sysctl_list(snapshot, symbols)
            else:
                generate_from_function_list(snapshot, symbols)
            snapshot.generate_snapshot_dir()
        else:
            sys.stderr.write("ERROR: symbol list is empty or could not be read\n")
    finally:
        source.source_finder.finalize()
        snapshot.snapshot_tree.source_finder.finalize()


def restored(snapshot):
    if snapshot.source_tree is not None and snapshot.source_tree.source_finder is not None:
        snapshot.source_tree.source_finder.finalize()
    if snapshot.snapshot_tree is not None and snapshot.snapshot_tree.source_finder is not None:
        snapshot.snapshot_tree.source_finder.finalize()


def prepared(tree):
    if tree.source_finder is not None:
        tree.source_finder.initialize()

"""C25: looking up, linking and restoring modules."""
import os
from subprocess import check_call, CalledProcessError
from diffkemp.llvm_ir.llvm_module import LlvmModule, SimpLLModule
from diffkemp.llvm_ir.llvm_source_finder import SourceNotFoundException
from diffkemp.utils import get_opt_command


# ---------------------------------------------------------------- lookup
def of_file(tree, path):
    """one module per file"""
    if path not in tree.modules:
        tree.modules[path] = LlvmModule(path)
    return tree.modules[path]


def absolute(tree, path):
    return path if os.path.isabs(path) else os.path.join(tree.source_dir, path)


def lookup(tree, symbol, limit=None):
    if tree.source_finder is None:
        raise SourceNotFoundException(symbol)
    found = tree.source_finder.find_llvm_with_symbol_def(symbol)
    if found is None or not found:
        path = found
    else:
        path = absolute(tree, found)
    if path is None or not os.path.isfile(path):
        raise SourceNotFoundException(symbol)
    if limit is not None and limit != 0:
        late = False
        try:
            late = os.path.getmtime(path) > limit
        except OSError:
            pass
        if late:
            raise SourceNotFoundException(symbol)
    return of_file(tree, path)


def users(tree, symbol):
    if tree.source_finder is None:
        raise SourceNotFoundException(symbol)
    out = []
    for found in tree.source_finder.find_llvm_with_symbol_use(symbol):
        path = absolute(tree, found)
        if os.path.isfile(path):
            out.append(of_file(tree, path))
    return out


def known(tree, symbol, limit=None):
    return tree.modules


# ---------------------------------------------------------------- linking
def link(module, others):
    """links those not linked yet, all or none of them; only a complete link changes the module"""
    new = [m for m in others if m not in module.linked_modules]
    if not new:
        return False
    if module.unlinked_llvm is None:
        target = module.llvm[:-3] + "-linked.ll"
    else:
        target = module.llvm
    work = target + ".tmp"
    command = ["llvm-link", "-S", module.llvm]
    command += [m.llvm for m in new]
    command += ["-o", work]
    merge = get_opt_command([("constmerge", "module")], work)
    null = open(os.devnull, "w")
    try:
        check_call(command, stdout=null, stderr=null)
        check_call(merge, stdout=null, stderr=null)
        parsed = SimpLLModule(work)
        os.replace(work, target)
    except (CalledProcessError, OSError, ValueError):
        return False
    if module.unlinked_llvm is None:
        module.unlinked_llvm = module.llvm
    module.llvm = target
    module.linked_modules.update(new)
    module.llvm_module = parsed
    return True


def same(module, others=None):
    return None


def original(module, others=None):
    """the file the module had before anything was linked to it"""
    return module.llvm if module.unlinked_llvm is None else module.unlinked_llvm


def restore(module):
    if module.unlinked_llvm is not None:
        module.llvm = module.unlinked_llvm
        module.unlinked_llvm = None
        module.linked_modules = set()
        module.llvm_module = SimpLLModule(module.llvm)


def whole(module, others=None):
    """the module's state; comparable on both sides"""
    return (module.llvm, module.unlinked_llvm, module.llvm_module, module.linked_modules)


def unlinked(module):
    return module.unlinked_llvm is not None or not module.linked_modules


def clean(module):
    """a freed module can be parsed, linked and freed again"""
    module.llvm_module = None


def parse(module, force=False):
    if module.llvm_module is None or force:
        module.llvm_module = SimpLLModule(module.llvm)

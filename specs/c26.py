"""C26: modules and their sources moved under another root."""
import os
import re
import shutil


def inside(path, root):
    return os.path.relpath(path, root).split(os.sep)[0] != os.pardir


def place(path, root, new_root):
    """the same place under the new root"""
    return os.path.join(new_root, os.path.relpath(path, root))


def moved_line(line, root, new_root):
    """lines defining constants stay as they are"""
    if "constant" in line:
        return line
    return line.replace(root.strip("/"), new_root.strip("/"))


def move(mod, root, new_root):
    if inside(mod.llvm, root):
        target = place(mod.llvm, root, new_root)
        old = open(mod.llvm, "r")
        new = open(target, "w")
        for line in old.readlines():
            new.write(moved_line(line, root, new_root))
        mod.llvm = target
    if mod.source and inside(mod.source, root):
        target = place(mod.source, root, new_root)
        shutil.copyfile(mod.source, target)
        mod.source = target


def included(mod):
    """the C sources and headers named by the debug information"""
    pattern = re.compile(r"filename:\s*\"([^\"]*)\", " r"directory:\s*\"([^\"]*)\"")
    out = set()
    for line in open(mod.llvm, "r").readlines():
        m = pattern.search(line)
        if m and (m.group(1).endswith(".h") or m.group(1).endswith(".c")):
            out.add(os.path.join(m.group(2), m.group(1)))
    return out


def copy(tree, modules, target):
    for mod in modules:
        if inside(mod.llvm, tree.source_dir):
            os.makedirs(os.path.join(target.source_dir, os.path.dirname(os.path.relpath(mod.llvm, tree.source_dir))), exist_ok=True)
        for src in mod.get_included_sources():
            if inside(src, tree.source_dir):
                dest = place(src, tree.source_dir, target.source_dir)
                if not os.path.isfile(dest):
                    os.makedirs(os.path.dirname(dest), exist_ok=True)
                    shutil.copyfile(src, dest)
        mod.move_to_other_root_dir(tree.source_dir, target.source_dir)

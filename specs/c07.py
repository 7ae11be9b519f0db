"""C07: the function cache lists each reusable pair under its source-file pair."""
import os
from diffkemp.semdiff.caching import SimpLLCache


def update(cache, vertices):
    groups = {}
    for v in vertices:
        if v.cachable:
            if v.files not in groups:
                groups[v.files] = []
            groups[v.files].append(v)
    for files, vs in groups.items():
        if files not in cache.cache_map:
            cache.cache_map[files] = SimpLLCache.CacheFile(cache.directory, files[0], files[1])
        with open(cache.cache_map[files].filename, "a") as f:
            for left, right in [v.names for v in vs]:
                f.write("%s:%s\n" % (left, right))


def clear(cache):
    for f in cache.cache_map.values():
        os.remove(f.filename)
    os.rmdir(cache.directory)


def name(directory, left, right):
    common = os.path.commonprefix([left, right])
    return os.path.join(directory, os.path.relpath(left, common).replace("/", "$") + ":" + os.path.relpath(right, common).replace("/", "$"))


def name_of(directory, left, right):
    return SimpLLCache.CacheFile(directory, left, right).filename


def files(cache, vertices=None):
    return cache.cache_map

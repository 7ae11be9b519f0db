"""C23: custom pattern files are all validated and used."""
import os
import yaml
from subprocess import check_call, CalledProcessError, DEVNULL
from diffkemp.semdiff.custom_pattern_config import CustomPatternConfig, UnsupportedCustomPatternError
from diffkemp.utils import get_llvm_version


def readable(path):
    if not os.access(path, os.R_OK):
        raise ValueError("unreadable")


def extension(path):
    return os.path.splitext(path)[1].lower()[1:]


def refuse(config, message):
    mode = config.settings["on_parse_failure"]
    if mode == "ERROR":
        raise UnsupportedCustomPatternError(message)
    if mode == "WARN":
        print(message)


def llvm_pattern(config, path):
    if get_llvm_version() >= 16:
        passes = "-passes=module(verify)"
    else:
        passes = "-verify"
    command = ["opt", path, passes]
    if get_llvm_version() >= 15:
        command.append("-opaque-pointers=1")
    ok = True
    try:
        check_call(command, stdout=DEVNULL)
    except CalledProcessError:
        ok = False
    if ok:
        config.pattern_files.add(path)
    else:
        refuse(config, "failed to parse pattern file " + path)


def pattern(config, path):
    full = path
    if config.patterns_path:
        full = os.path.join(config.patterns_path, path)
    readable(full)
    kind = extension(full)
    if kind == "ll":
        config._add_llvm_pattern(full)
    else:
        refuse(config, full + ": " + kind + " pattern files are not supported")


def configuration(config):
    with open(config.path, "r") as f:
        data = yaml.safe_load(f)
    if "patterns" in data:
        if "on_parse_failure" in data:
            mode = data["on_parse_failure"]
            if mode not in ["ERROR", "WARN"]:
                raise ValueError("unknown failure mode")
            config.settings["on_parse_failure"] = mode
        for p in data["patterns"]:
            config.add_pattern(p)


def create(path, patterns_path):
    readable(path)
    config = CustomPatternConfig()
    config.path = path
    config.patterns_path = patterns_path
    config.pattern_files = set()
    config.settings = {"on_parse_failure": "ERROR"}
    config.llvm_only = True
    if extension(path) == "ll":
        config.add_pattern(path)
    else:
        config._load_yaml()
    return seen(config)


def seen(config):
    return (config.path, config.patterns_path, config.pattern_files, config.settings["on_parse_failure"])


def code(path, patterns_path):
    return seen(CustomPatternConfig.create_from_file(path, patterns_path))


# observation
def used(config, *rest):
    return config.pattern_files


def mode(config, *rest):
    return config.settings["on_parse_failure"]


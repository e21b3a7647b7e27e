"""Renders mbo's two generated headers (what Bazel's rules would write) from /repo's working tree."""
import os
import re
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def starlark(path, **extra):
    """Loads a .bzl file that is plain enough to be Python."""

    def fail(msg):
        raise ValueError("%s: %s" % (path, msg))

    class Attr:
        def __getattr__(self, _):
            return lambda *a, **k: None

    class Struct:
        def __init__(self, **kw):
            self.__dict__.update(kw)

    env = {"load": lambda *a, **k: None, "fail": fail, "rule": lambda **k: (lambda **kk: None)}
    env["type"] = lambda x: "string" if isinstance(x, str) else type(x).__name__
    env.update(attr=Attr(), Label=lambda x: x, struct=Struct, native=Attr(), **extra)
    source = open(path).read().replace(".elems()", "")
    exec(compile(source, path, "exec"), env)
    return env


def flag_default(pkg, name):
    text = re.sub(r"#.*", "", open("%s/%s/BUILD.bazel" % (REPO, pkg)).read())
    m = re.search(r'name\s*=\s*"%s"\s*,\s*build_setting_default\s*=\s*([^,\n)]+)' % re.escape(name), text)
    return eval(m.group(1), {"True": True, "False": False})


def mangle_constant(version=None, seed=None, buckets=None):
    bzl = starlark(REPO + "/mbo/hash/hash.bzl")
    gen = starlark(REPO + "/mbo/hash/internal/hash_mangle_seed.bzl", hash=bzl["hash"])
    if version is None:
        module = re.sub(r"#.*", "", open(REPO + "/MODULE.bazel").read())
        version = re.search(r'module\([^)]*version\s*=\s*"([^"]*)"', module, re.S).group(1)
    if seed is None:
        seed = flag_default("mbo/hash", "mangle_seed")
    if buckets is None:
        buckets = flag_default("mbo/hash", "mangle_seed_buckets")
    return gen["mangle_constant"](version, seed, buckets), gen


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def generate(out, throws=False, unroll=None, constant=None):
    text = open(REPO + "/mbo/config/internal/config.h.in").read()
    if unroll is None:
        unroll = flag_default("mbo/config", "limited_ordered_max_unroll_capacity")
    text = text.replace("kRequireThrows = false;", "kRequireThrows = %s;" % str(throws).lower())
    text = text.replace("kUnrollMaxCapacityDefault = 16;", "kUnrollMaxCapacityDefault = %d;" % unroll)
    write(out + "/mbo/config/config_gen.h", text)
    default, gen = mangle_constant()
    if constant is None:
        constant = default
    write(out + "/mbo/hash/hash_mangle_seed_gen.h", gen["_HEADER"].replace("@MANGLE_CONSTANT@", "0x%XULL" % constant))


if __name__ == "__main__":
    generate(sys.argv[1], throws=len(sys.argv) > 2 and sys.argv[2] == "throws")

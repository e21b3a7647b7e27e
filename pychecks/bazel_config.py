"""The configuration header: every combination of the build settings, as the compiler sees it."""
import os
import subprocess

from pychecks import bazel_tools, mcpy
from pychecks.bazel_tools import bazel
from pychecks.mcpy import Skip

REPO = None
deep = False
PROBE = """#include <cstdio>
#include "mbo/config/config.h"
static_assert(mbo::config::kRequireThrows || !mbo::config::kRequireThrows);
int main() { std::printf("%d %zu", mbo::config::kRequireThrows ? 1 : 0, mbo::config::kUnrollMaxCapacityDefault); }
"""


def setup(repo, tier):
    global REPO, deep
    REPO, deep = repo, tier == "thorough"


def generate(c, throws, capacity, name="config_gen"):
    w = bazel_tools.world(REPO, package="mbo/config", settings={"//mbo/config:require_throws": throws, "//mbo/config:limited_ordered_max_unroll_capacity": capacity})
    with open(os.path.join(REPO, "mbo/config/internal/config.h.in"), "rb") as i:
        w.source("mbo/config/internal/config.h.in", i.read())
    w.load("mbo/config/internal/config.bzl")["config_gen"](name=name, output="config_gen.h", template="internal/config.h.in")
    return w


def sec_settings(c):
    """What is set is what the code sees; without exceptions nothing throws."""
    throws = c.flip()
    capacity = c.pick([0, 1, 4, 5, 15, 16, 17, 31, 32, 33, 64, 100, 160, 1000] if deep else [4, 8, 16, 17, 32, 160])
    exceptions = c.flip()
    cxx = c.pick(["g++", "clang++"])
    w = generate(c, throws, capacity)
    gen = os.path.join(w.root, w.files["mbo/config/config_gen.h"].root.path)
    with open("probe.cc", "w") as o:
        o.write(PROBE)
    r = subprocess.run([cxx, "-std=c++20", "-fexceptions" if exceptions else "-fno-exceptions", "-iquote", gen, "-iquote", REPO, "probe.cc", "-o", "probe"], capture_output=True, timeout=120)
    out = subprocess.run(["./probe"], capture_output=True, timeout=60).stdout.decode() if r.returncode == 0 else r.stderr.decode()[:300]
    c.step()
    want = "%d %d" % (throws and exceptions, capacity)
    c.state((throws, capacity, exceptions, cxx, out))
    c.check(out == want, lambda: "require_throws %r, capacity %d, %s exceptions: %s sees %r, not %r" % (throws, capacity, "with" if exceptions else "without", cxx, out, want))


SECTIONS = {"settings": sec_settings}


def main(prop, tier, spec, work, repo, verif, replay, runmod):
    return mcpy.run(__name__, prop, tier, spec, work, repo, verif, replay, runmod, ())

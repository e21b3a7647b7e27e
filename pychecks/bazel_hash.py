"""hash_bzl_verify: the tests pass on the tree, and each fails as soon as one of its inputs is hashed differently by either side."""
import os
import subprocess

from pychecks import bazel_tools, mcpy
from pychecks.bazel_tools import bazel
from pychecks.mcpy import Skip

REPO = None
deep = False
ALGOS = ["dumbo", "fnv1a", "mumbo"]


def setup(repo, tier):
    global REPO, deep
    REPO, deep = repo, tier == "thorough"


def inputs():
    """The inputs that the rule compares, from its own declaration."""
    w = bazel_tools.world(REPO, package="mbo/hash")
    env = w.load("mbo/hash/internal/hash_bzl_verify.bzl")
    got = {}

    def write_file(name, out, content=(), **kw):
        got[out] = list(content)
    env["write_file"] = write_file
    env["native"] = bazel.Struct(genrule=lambda **kw: None)
    env["diff_test"] = lambda **kw: None
    env["hash_bzl_verify"](name="v")
    return got["v_inputs.txt"]


STUB = """#!/usr/bin/python3
import subprocess, sys
r = subprocess.run([%r] + sys.argv[1:], stdin=sys.stdin, stdout=subprocess.PIPE, check=True).stdout.decode().split("\\n")
if sys.argv[1] == %r:
    %s
sys.stdout.write("\\n".join(r))
"""


def sec_compare(c):
    """One digit of one hash, of the command or of the build's port, or a missing line."""
    data = inputs()
    algo = c.pick(ALGOS)
    side = c.pick(["none", "command", "port", "missing line"])
    at = c.choose(len(data)) if side != "none" else 0
    digit = c.pick([0, 15, 7] if deep else [0, 15]) if side in ("command", "port") else 0
    w = bazel_tools.world(REPO, package="mbo/hash")
    exe = bazel_tools.exe["hash_tool"]
    if side in ("command", "missing line"):
        p = os.path.abspath("stub")
        how = "r[%d] = r[%d][:%d] + ('0' if r[%d][%d] != '0' else '1') + r[%d][%d:]" % (at, at, digit, at, digit, at, digit + 1) if side == "command" else "del r[%d]" % at
        with open(p, "w") as o:
            o.write(STUB % (exe, algo, how))
        os.chmod(p, 0o755)
        exe = p
    w.tool("//mbo/hash:hash_tool", exe, "mbo/hash/hash_tool")
    w.tool("//mbo/diff", bazel_tools.exe["diff"], "mbo/diff/diff")
    if side == "port":
        port = w.load("mbo/hash/hash.bzl")["hash"]
        h, wrong = getattr(port, algo), data[at]
        setattr(port, algo, lambda d, *a, **kw: h(d, *a, **kw) ^ (1 << (60 - 4 * digit)) if d == wrong else h(d, *a, **kw))
    w.load("mbo/hash/internal/hash_bzl_verify.bzl")["hash_bzl_verify"](name="v")
    got = {a: w.run_test("v_%s_test" % a, "dir")[0] == 0 for a in ALGOS}
    c.step()
    c.state((algo, side, at, digit, repr(got)))
    if side == "port" and data.count(data[at]) > 1:
        raise Skip
    want = {a: side == "none" or a != algo for a in ALGOS}
    c.check(got == want, lambda: "%s of %s wrong for input %d (%r): the tests pass: %r" % (side, algo, at, data[at], got))


def sec_covers(c):
    """Every tail length of every block size is among the inputs, and no input is two lines."""
    n = c.choose(10)
    data = inputs()
    c.step()
    c.state(n)
    c.check(all("\n" not in d and "\r" not in d for d in data), "an input is more than one line")
    c.check(any(len(d) == n for d in data), lambda: "no input of length %d" % n)


SECTIONS = {"compare": sec_compare, "covers": sec_covers}


def main(prop, tier, spec, work, repo, verif, replay, runmod):
    bazel_tools.build(["hash_tool", "diff"], work, runmod)
    return mcpy.run(__name__, prop, tier, spec, work, repo, verif, replay, runmod, ())

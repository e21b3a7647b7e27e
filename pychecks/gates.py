"""The gates a commit has to pass: each accepts exactly what its rule allows, over all small inputs."""
import io
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
from contextlib import redirect_stderr, redirect_stdout

from pychecks import mcpy
from pychecks.mcpy import Skip

REPO = None
deep = False
code = {}


def setup(repo, tier):
    global REPO, deep
    REPO, deep = repo, tier == "thorough"
    sys.dont_write_bytecode = True
    for n in ("check_header_guards", "check_done_gate"):
        p = os.path.join(repo, ".pre-commit", n + ".py")
        code[n] = (compile(open(p).read(), p, "exec"), p)


def run_py(name, args=()):
    """-> (exit code, all output)"""
    old, out = sys.argv, io.StringIO()
    sys.argv = [name, *args]
    try:
        with redirect_stdout(out), redirect_stderr(out):
            try:
                exec(code[name][0], {"__name__": "__main__", "__file__": code[name][1]})
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception as e:
                rc = 1
                out.write("exception %r" % e)
    finally:
        sys.argv = old
    return int(rc), out.getvalue()


def put(path, text, mode=None):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "w") as o:
        o.write(text)
    if mode:
        os.chmod(path, mode)


def clean():
    for n in os.listdir("."):
        shutil.rmtree(os.path.abspath(n)) if os.path.isdir(n) and not os.path.islink(n) else os.remove(os.path.abspath(n))


def run(script, *args, path="/usr/bin:/bin", **env):
    r = subprocess.run(["bash", os.path.join(REPO, script), *args], capture_output=True, timeout=60, stdin=subprocess.DEVNULL, env={"PATH": path, "LC_ALL": "C", "HOME": os.getcwd(), **env})
    return r.returncode, (r.stdout + r.stderr).decode()


PATHS = [("a/b.h", "A_B_H_"), ("mbo/x-y/Z_1.h", "MBO_X_Y_Z_1_H_"), ("c.d.h", "C_D_H_"), ("a/b.cc", None), ("a/b.hpp", None)]
LINES = ["#ifndef @", "#ifndef WRONG_H_", "#define @", "#define WRONG_H_", "#define @ 1", "#endif  // @", "#endif  // WRONG_H_", "#endif", "#ifndef NDEBUG", "int x;", "// #ifndef @"]


def sec_guards(c):
    """Header guards."""
    path, guard = c.pick(PATHS if deep else PATHS[:4])
    n = c.choose(6 if deep else 5)
    lines = [c.pick(LINES).replace("@", guard or "A_B_CC_") for _ in range(n)]
    clean()
    put(path, "".join(l + "\n" for l in lines))
    if c.flip():
        put("other.h", "#ifndef OTHER_H_\n#define OTHER_H_\n#endif  // OTHER_H_\n")
        rc, out = run_py("check_header_guards", ["other.h", path])
    else:
        rc, out = run_py("check_header_guards", [path])
    c.step()
    opens = [l.split()[1] for l in lines if l.startswith("#ifndef")]
    closes = [l for l in lines if l.startswith("#endif")]
    good = guard is None or bool(opens) and opens[0] == guard and "#define " + guard in lines and (not closes or closes[-1] in ("#endif", "#endif  // " + guard))
    c.state((path, tuple(lines), rc))
    c.check((rc == 0) == good, lambda: "%s with %r: exit %d: %s" % (path, lines, rc, out[:300]))
    c.check((path in out) == (not good), lambda: "%s with %r: reports %s" % (path, lines, out[:300]))


def sec_done(c):
    """The gate needs every job."""
    jobs = [j for j in ("build", "test", "lint") if c.flip()]
    needs = [j for j in ("build", "test", "lint") if c.flip()]
    form = c.pick(["absent", "string", "list", "flow", "twice", "empty"])
    if (form in ("absent", "empty")) != (not needs) or form == "string" and len(needs) != 1:
        raise Skip
    at = c.choose(2)
    text = {"absent": "", "empty": "    needs: []\n", "string": "    needs: %s\n" % "".join(needs[:1]), "list": "    needs:\n" + "".join("      - %s\n" % n for n in needs),
            "flow": "    needs: [%s]\n" % ", ".join(needs), "twice": "    needs: [%s]\n" % ", ".join(needs + needs)}[form]
    gate = "  done:\n%s    runs-on: x\n" % text
    other = "".join("  %s:\n    needs: [done]\n    runs-on: x\n" % j for j in jobs)
    clean()
    put(".github/workflows/main.yml", "name: m\non: push\njobs:\n" + (gate + other if at else other + gate))
    rc, out = run_py("check_done_gate")
    c.step()
    missing = sorted(set(jobs) - set(needs))
    c.state((tuple(jobs), tuple(needs), form, rc))
    c.check((rc == 0) == (not missing) and all("'%s'" % j in out for j in missing), lambda: "jobs %r, needs %r (%s): exit %d %s" % (jobs, needs, form, rc, out))


VERSIONS = ["1.2.3", "1.2.4", "1.2", "1.2.3-rc1", "1.2.30", "0.0.1", "0.10.0"]


def sec_version(c):
    """The declared version is the documented one."""
    a, b = c.pick(VERSIONS), c.pick(VERSIONS)
    head = c.pick(["", "module_version = 3\n", "# a comment\n"])
    other = c.pick(["9.9.9", a, b])
    first = c.pick(["", "About versions.\n\n", "## 7.7.7\n"])
    clean()
    put("MODULE.bazel", head + 'module(\n    name = "m",\n    version = "%s",\n)\nbazel_dep(name = "x", version = "%s")\n' % (a, other))
    put("CHANGELOG.md", first + "# %s\n\n- text\n\n# %s\n" % (b, other))
    rc, out = run(".pre-commit/check_version.sh")
    c.step()
    c.state((a, b, head, other, first))
    c.check((rc == 0) == (a == b), lambda: "%s and %s: exit %d %s" % (a, b, rc, out))


TESTS = [("EXPECT_THAT(a, Eq(b));", 0), ("  EXPECT_EQ(a, b);", 1), ("ASSERT_NE(a, b);", 1), ("EXPECT_TRUE(a);", 0), ("// EXPECT_EQ(a, b);", 0), ("a; // use EXPECT_EQ(a, b)", 0), ("EXPECT_STREQ (a, b);", 1), ("MY_EXPECT_EQ(a, b);", 0),
         ("EXPECT_EQ", 0), ("EXPECT_NEAR(a, b, c); // close", 1), ("EXPECT_DOUBLE_EQ(a, b);", 1), ("using ::testing::Eq;", 0), ("EXPECT_THAT(a, testing::Eq(b));", 2), ("EXPECT_THAT(a, ::mbo::testing::IsOk());", 2),
         ("INSTANTIATE(testing::Values(1));", 0), ("class T : public testing::Test {", 0), ("testing::TempDir();", 0), ("// testing::Eq(b)", 0), ("ASSERT_LE(testing::Eq(1), 2);", 3), ("EXPECT_GEM(a);", 0)]


def sec_matchers(c):
    """Tests use matchers, imported by name."""
    n = 1 + c.choose(2)
    files, want = [], {}
    clean()
    for k in range(n):
        path = c.pick(["mbo/x/a_test.cc", "mbo/testing/status.h", "mbo/testing/a_test.cc"]) if k == 0 else "mbo/y/b_test.cc"
        lines = [c.pick(TESTS) for _ in range(c.choose(3 if n == 1 or deep and k == 0 else 2))]
        put(path, "".join(t + "\n" for t, _ in lines))
        bits = 0
        for _, b in lines:
            bits |= b
        if path == "mbo/testing/status.h":
            bits &= 1
        want[path] = bits
        files.append(path)
    rc, out = run("tools/check_test_matchers.sh", *files)
    c.step()
    c.state((repr(want), out))
    c.check((rc == 0) == (not any(want.values())), lambda: "%r: exit %d %s" % (want, rc, out))
    for f, bits in want.items():
        got = sum(1 for l in out.splitlines() if l.startswith(f + ":"))
        c.check(got == bin(bits).count("1"), lambda: "%s: %d reports, not %d: %s" % (f, got, bin(bits).count("1"), out))


BAZEL = "#!/bin/bash\n[ \"$1\" = query ] || exit 9\n%s\nexit %d\n"
TARGETS = ["//a:x", "//a:y", "//b/c:z"]


def sec_targets(c):
    """The list of targets to lint is exactly the tagged ones."""
    tagged = [t for t in TARGETS if c.flip()]
    listed = [t for t in TARGETS if c.flip()]
    bazel = c.pick(["answers", "fails", "none"])
    if c.flip():
        tagged.reverse()
    prefix = c.pick(["", "@@"])
    clean()
    put("bazelmod/clang_tidy_targets.bzl", '"""Targets like "//d:e"."""\n\nCLANG_TIDY_MANUAL_TARGETS = [\n%s]\n' % "".join('    "%s",\n' % t for t in listed))
    os.makedirs("bin")
    for t in ("sed", "sort", "comm", "bash", "cat"):
        os.symlink("/usr/bin/" + t, "bin/" + t)
    if bazel != "none":
        put("bin/bazel", BAZEL % ("\n".join("echo '%s%s'" % (prefix, t) for t in tagged), bazel == "fails"), 0o755)
    rc, out = run(".pre-commit/check_clang_tidy_targets.sh", path=os.path.abspath("bin"))
    c.step()
    good = bazel != "answers" or not tagged or set(tagged) == set(listed)
    c.state((tuple(tagged), tuple(listed), bazel, prefix))
    c.check((rc == 0) == good, lambda: "tagged %r, listed %r, bazel %s: exit %d %s" % (tagged, listed, bazel, rc, out))
    if not good:
        c.check(all(("    " + t in out) == (t in set(tagged) ^ set(listed)) for t in TARGETS), lambda: "tagged %r, listed %r: %s" % (tagged, listed, out))


SECTIONS = {"guards": sec_guards, "done": sec_done, "version": sec_version, "matchers": sec_matchers, "targets": sec_targets}


def main(prop, tier, spec, work, repo, verif, replay, runmod):
    return mcpy.run(__name__, prop, tier, spec, work, repo, verif, replay, runmod, ())

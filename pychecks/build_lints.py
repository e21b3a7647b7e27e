"""The BUILD and source lints: every small BUILD file in the shape buildifier gives it, against its model."""
import io
import os
import shutil
import subprocess
import sys
from contextlib import redirect_stderr, redirect_stdout
from pathlib import Path

from pychecks import mcpy
from pychecks.mcpy import Skip

REPO = None
deep = False
code = {}


def setup(repo, tier):
    global REPO, deep
    REPO, deep = repo, tier == "thorough"
    sys.path.insert(0, os.path.join(repo, "tools"))
    sys.dont_write_bytecode = True
    os.environ.update(GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null")
    for f in os.listdir("."):
        (shutil.rmtree if os.path.isdir(f) else os.unlink)(os.path.abspath(f))
    for n in ("check_cc_library_tested", "check_cc_target_naming", "check_headers_claimed", "check_status_assert"):
        p = os.path.join(repo, "tools", n + ".py")
        code[n] = compile(open(p).read(), p, "exec")


def cli(name, args):
    old, out, err = sys.argv, io.StringIO(), io.StringIO()
    sys.argv = [name] + args
    try:
        with redirect_stdout(out), redirect_stderr(err):
            try:
                exec(code[name], {"__name__": "__main__", "__file__": os.path.join(REPO, "tools", name + ".py")})
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception as e:
                rc = "exception %r" % e
    finally:
        sys.argv = old
    return int(rc) if isinstance(rc, bool) else rc, out.getvalue(), err.getvalue()


def write(path, text):
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def rule_text(kind, name, deps, form):
    """A rule as buildifier writes it: one attribute per line. Returns its lines."""
    out = ["%s(" % kind, '    name = "%s",' % name]
    if form & 1:
        out += ["    srcs = [", '        "%s.cc",' % name, '        ":gen",', "    ],"]
    if deps is not None:
        if form & 2 and len(deps) > 1:
            out += ["    deps = ["] + ['        "%s",' % d for d in deps[:1]] + ["    ] + select({", '        ":cond": [', '            "%s",' % deps[1], "        ],", '        "//conditions:default": [],', "    }),"]
        elif len(deps) == 1:
            out += ['    deps = ["%s"],' % deps[0]]
        else:
            out += ["    deps = ["] + ['        "%s",' % d for d in deps] + ["    ],"]
    if form & 1:
        out += ["    data = [", '        ":%s",' % "lib_a_cc", "    ],"]
    return out + [")"]


def report(err, package_file):
    """The (line, quoted name) pairs reported."""
    import re
    return sorted((int(m.group(1)), m.group(2)) for m in re.finditer(re.escape(package_file) + r":(\d+): [^']*'([^']+)'", err))


def sec_tested(c):
    """A library is fine exactly if a test beside it depends on it."""
    package = c.pick(["pkg/sub", "pkg", ""])
    libs = [c.pick(["lib_a_cc", "lib_a"]), "lib_b_cc"][: 1 + c.choose(2)]
    other = c.pick(["//pkg/sub:", "//pkg:", "//:", "@m//pkg:", "//pkg/su:"])
    deps_pool = [[], [":lib_b_cc"], [":%s" % libs[0]], [other + libs[0]], [":lib_b_cc", ":" + libs[0]], [other + libs[0], other + "lib_b_cc"]]
    blocks = [("cc_library", l, c.pick([None, [":lib_b_cc"]]) if l != "lib_b_cc" else [":" + libs[0]]) for l in libs]
    for k in range(1 + c.choose(2)):
        kind = c.pick(["cc_test", "sh_test", "cc_binary", "cc_test_suite"] if k == 0 else ["cc_test", "cc_library"])
        blocks.append((kind, "t%d_cc" % k, c.pick(deps_pool)))
    if deep and c.flip():
        blocks.reverse()
    form = c.choose(4) if deep else c.choose(2) * 3
    lines, at, tested, wanted = ["# comment", 'load("//x:y.bzl", "cc_library")', ""], {}, set(), []
    for kind, name, deps in blocks:
        if kind == "cc_library":
            wanted.append((len(lines) + 1, name))
        if kind.endswith("_test"):
            for d in deps or []:
                if d.startswith(":") or d.startswith("//%s:" % package):
                    tested.add(d.split(":")[1])
        lines += rule_text(kind, name, deps, form) + [""]
    wanted = sorted(w for w in wanted if w[1] not in tested)
    path = os.path.join(package, "BUILD.bazel") if package else "BUILD.bazel"
    write(path, "\n".join(lines) + "\n")
    for args in ([path], []):
        rc, out, err = cli("check_cc_library_tested", args)
        c.step()
        c.check(rc == (1 if wanted else 0) and report(err, path) == wanted, lambda: "%s\n%s: exit %r, reported %r instead of %r\n%s" % ("\n".join(lines), path, rc, report(err, path), wanted, err))
        c.check(bool(wanted) or not err + out, "noise")
    os.unlink(path)
    c.state((path, tuple(lines)))


def sec_naming(c):
    """Exactly the libraries with other names are reported."""
    names = ["a_cc", "a", "cc", "_cc", "a_cc_x", "a_ccc"]
    blocks, lines, wanted = [], [], []
    for k in range(1 + c.choose(3 if deep else 2)):
        kind, name, form = c.pick(["cc_library", "cc_test", "my_cc_library", "cc_library_x", "cc_binary"]), c.pick(names), c.choose(4)
        if kind == "cc_library" and not name.endswith("_cc"):
            wanted.append((len(lines) + 1, name))
        if form == 3:
            lines += ['%s(name = "%s")' % (kind, name)]
        elif form == 2:
            lines += ["%s(" % kind, '    srcs = ["a.cc"],', '    name = "%s",' % name, '    tags = ["x"],', ")"]
        else:
            lines += rule_text(kind, name, [":q"] if form else None, form)
        if c.flip():
            lines += [""]
    path = c.pick(["BUILD.bazel", "p/BUILD", "p/q/BUILD.bazel"])
    write(path, "\n".join(lines) + "\n")
    for args in ([path], []):
        rc, out, err = cli("check_cc_target_naming", args)
        c.step()
        c.check(rc == (1 if wanted else 0) and report(err, path) == sorted(wanted), lambda: "%s\n%s: exit %r, reported %r instead of %r\n%s" % ("\n".join(lines), path, rc, report(err, path), wanted, err))
        for _, n in wanted:
            c.check("'%s_cc'" % n in err, "no suggestion: " + err)
    os.unlink(path)
    c.state((path, tuple(lines)))


def sec_walk(c):
    """All packages are visited except generated and vendored trees."""
    dirs = [("a", 1), ("a/b", 1), ("external/x", 0), ("bazel-out/y", 0), ("a/third_party/z", 0), (".git", 0), ("a/bazel-bin", 0), ("externals", 1), ("bazel", 1), ("my-bazel-x", 1), ("", 1)]
    have = [(d, w) for k, (d, w) in enumerate(dirs) if c.flip()]
    kind = c.pick(["BUILD.bazel", "BUILD"])
    root = os.path.abspath("walk")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    back = os.getcwd()
    os.chdir(root)
    try:
        for d, _ in have:
            write(os.path.join(d, kind) if d else kind, 'cc_library(\n    name = "bad",\n)\n')
        for tool in ("check_cc_target_naming", "check_cc_library_tested"):
            rc, out, err = cli(tool, [])
            c.step()
            want = sorted(os.path.join(d, kind) if d else kind for d, w in have if w)
            got = sorted(l.strip().split(":")[0] for l in err.splitlines() if ": cc_library" in l)
            c.check(rc == (1 if want else 0) and got == want, lambda: "%s: exit %r, %r instead of %r" % (tool, rc, got, want))
        c.state(tuple(have))
    finally:
        os.chdir(back)


def sec_headers(c):
    """Every header is listed in the BUILD file of its package."""
    headers = ["mbo/a.h", "mbo/p/b.h", "mbo/p/sub/c.h"]
    builds = {b: [] for b in ("mbo/BUILD.bazel", "mbo/p/BUILD.bazel", "mbo/p/sub/BUILD.bazel") if c.flip()}
    here = [h for h in headers if c.flip()]
    pool = {"mbo/BUILD.bazel": ["a.h", "p/b.h", "p/sub/c.h"], "mbo/p/BUILD.bazel": ["b.h", "sub/c.h", "c.h"], "mbo/p/sub/BUILD.bazel": ["c.h"]}
    for b in builds:
        builds[b] = [n for n in pool[b] if c.flip()]
    explicit = c.choose(3)
    wanted = []
    for h in here:
        d = os.path.dirname(h)
        while d and d + "/BUILD.bazel" not in builds:
            d = os.path.dirname(d)
        if not d or os.path.relpath(h, d) not in builds[d + "/BUILD.bazel"]:
            wanted.append(h)
    root = os.path.abspath("hdr")
    if not os.path.isdir(root + "/.git"):
        os.makedirs(root)
        subprocess.run(["git", "init", "-q"], cwd=root, check=True)
    back = os.getcwd()
    os.chdir(root)
    try:
        shutil.rmtree(root + "/mbo", ignore_errors=True)
        for h in here:
            write(h, "")
        for b, names in builds.items():
            write(b, 'cc_library(\n    name = "x_cc",\n    hdrs = [\n%s    ],\n)\n' % "".join('        "%s",\n' % n for n in names))
        write("mbo/x.txt", "")
        if explicit == 0:
            subprocess.run(["git", "add", "-A"], check=True)
        if explicit and not here:
            raise Skip()
        rc, out, err = cli("check_headers_claimed", [] if explicit == 0 else here + ["mbo/x.txt", "other/y.h"] if explicit == 1 else here)
        c.step()
        got = sorted(l.strip().split(" ->")[0] for l in out.splitlines() if " -> " in l)
        c.check(rc == (1 if wanted else 0) and got == sorted(wanted), lambda: "headers %r builds %r: exit %r, %r instead of %r\n%s%s" % (here, builds, rc, got, wanted, out, err))
        c.state((tuple(here), repr(builds)))
    finally:
        os.chdir(back)


def sec_asserts(c):
    """A value asserted to be good and then dereferenced close by is reported, nothing else."""
    far = c.choose(10)
    first = c.pick(["ASSERT_THAT(v, IsOk());", "  ASSERT_THAT( v , IsOk() );", "EXPECT_THAT(v, IsOk());", "ASSERT_THAT(v, IsOkAndHolds(1));", "ASSERT_THAT(w, IsOk());"])
    use = c.pick(["foo(*v);", "v->x();", "*vx;", "av->x;", "v.value();", "x = *v + 1;", "// nothing"])
    name = c.pick(["a_test.cc", "a.cc"])
    lines = ["", first] + ["x();"] * far + [use]
    write(name, "\n".join(lines) + "\n")
    rc, out, err = cli("check_status_assert", [name])
    c.step()
    bad = name == "a_test.cc" and "ASSERT" in first and "IsOk()" in first and "w" not in first and use in ("foo(*v);", "v->x();", "x = *v + 1;") and far < 8
    c.check(rc == int(bad) and ("a_test.cc:2:" in err) == bad, lambda: "%r: exit %r %s" % (lines, rc, err))
    c.state((name, tuple(lines)))


SECTIONS = {"tested": sec_tested, "naming": sec_naming, "walk": sec_walk, "headers": sec_headers, "asserts": sec_asserts}


def main(prop, tier, spec, work, repo, verif, replay, runmod):
    return mcpy.run(__name__, prop, tier, spec, work, repo, verif, replay, runmod, ())

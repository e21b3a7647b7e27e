"""mope and mope_test: the rules are carried out over small sets of templates, data and goldens."""
import os
import subprocess

from pychecks import bazel_tools, mcpy
from pychecks.bazel_tools import bazel
from pychecks.mcpy import Skip

REPO = None
deep = False

TEMPLATES = {"plain": "no tags\n", "value": "<{{name}}|{{what}}>\n", "section": "{{#item}}\n- {{name}}\n{{/item}}\n", "bare": "{{name}}", "broken": "{{#item}}\n- {{name}}\n"}
INIS = {"one": "name=one\n[item]\nname=first\n[item:1]\nname=second\n", "two": "name=two $HOME\n"}
ARGS = [[], ["--set=what=set"], ["--set=what=a b,name=c"]]


def setup(repo, tier):
    global REPO, deep
    REPO, deep = repo, tier == "thorough"


def start(flag="", tool=None):
    w = bazel_tools.world(REPO)
    w.tool("//mbo/mope", bazel_tools.exe["mope"], "mbo/mope/mope")
    w.tool("//mbo/diff", bazel_tools.exe["diff"], "mbo/diff/diff")
    w.settings["//mbo/mope:clang_format"] = flag
    w.files["//:clang-format"] = config = bazel.File(".clang-format")
    w.put(config, "BasedOnStyle: Google\n")
    p = os.path.join(w.root, "llvm-clang-format")
    if tool:
        w.put(bazel.File("llvm-clang-format"), tool)
        os.chmod(p, 0o755)
    w.tool("@llvm_toolchain_llvm//:bin/clang-format", p, "external/llvm/bin/clang-format")
    return w


def expansion(w, template, ini, args):
    """What the command itself makes of the template with that data; None if it fails."""
    r = subprocess.run([bazel_tools.exe["mope"], *args, "--template=" + os.path.join(w.root, template.path)] + (["--ini=" + os.path.join(w.root, ini.path)] if ini else []), capture_output=True, timeout=60, env={"PATH": "/usr/bin:/bin"})
    return None if r.returncode else r.stdout.decode()


# Of a template with base name %: its label, and that of the output.
PLACES = [("%.mope", "%.golden"), ("%.tpl", "%.gen"), ("sub/%.mope", "sub/%.golden"), ("%.cc.tpl", "%.cc.golden"), ("a %.tpl", "a %.gen")]


def sec_expand(c):
    """Each output is the expansion of its own template with its own data."""
    n = 1 + c.choose(2)
    w = start()
    args = c.pick(ARGS if n == 1 or deep else ARGS[1:2])
    srcs, outs, data, want = [], [], [], []
    for k in range(n):
        src, out = (x.replace("%", "xy"[k]) for x in c.pick(PLACES if n == 1 or deep else PLACES[1:3]))
        kind = c.pick(sorted(TEMPLATES) if n == 1 else ["value", "section", "broken"])
        ini = c.pick([None, "one", "two"])
        t = w.source("pkg/" + src, TEMPLATES[kind] + ("%d\n" % k if kind == "plain" else ""))
        base = os.path.basename(src).rsplit(".", 1)[0]
        i = None
        if ini:
            where = c.pick(["", "sub/", "data/"]) if n == 1 else ["", "data/"][k]
            i = w.source("pkg/%s%s.ini" % (where, base), INIS[ini])
            data.append("%s%s.ini" % (where, base))
        srcs.append(src)
        out = out.replace(".golden", c.pick(["", ".golden"])) if n == 1 else out
        outs.append(out)
        want.append((out, expansion(w, t, i, args)))
    if (n == 1 or deep) and c.flip():
        w.source("pkg/other.ini", "name=other\n")
        data.insert(0, "other.ini")
    if n == 2 and c.flip():
        outs.reverse()
        data.reverse()
    try:
        w.load("mbo/mope/mope.bzl")["mope"](name="m", srcs=srcs, outs=outs, data=data, args=args)
        got = [(o, w.read(w.files["pkg/" + o])) for o, _ in want]
    except bazel.Fail as e:
        got = "fails: %s" % e
    c.step()
    c.state((tuple(srcs), tuple(data), repr(got)))
    if any(x is None for _, x in want):
        c.check(isinstance(got, str), lambda: "%r with %r: a template that cannot be expanded builds: %r" % (srcs, data, got))
    else:
        c.check(got == want, lambda: "%r with %r, %r makes %r, not %r" % (srcs, data, args, got, want))


def sec_golden(c):
    """The test passes exactly if every golden is what its template expands to."""
    n = 1 + c.choose(2)
    name = c.pick(["some_test", "some_tests"][:2 if n == 1 else 1])
    w = start()
    args = c.pick(ARGS[:2] if n == 1 or deep else ARGS[1:2])
    srcs, outs, data, good = [], [], [], True
    for k in range(n):
        src, out = (x.replace("%", "xy"[k]) for x in c.pick(PLACES[:1] + PLACES[2:4] if n == 1 or deep else PLACES[2:4]))
        kind = c.pick(["value", "section", "bare"] if n == 1 or deep else ["value", "section"])
        ini = c.pick([None, "one", "two"] if n == 1 or deep else [None, "one"])
        t = w.source("pkg/" + src, TEMPLATES[kind])
        i = None
        if ini:
            base = src.rsplit(".", 1)[0]
            i = w.source("pkg/%s.ini" % base, INIS[ini])
            data.append("%s.ini" % base)
        want = expansion(w, t, i, args)
        state = c.pick(["same", "changed", "stale", "cut", "longer"] if n == 1 else ["same", "changed"])
        if state == "changed":
            text = want.replace("n", "N", 1) if "n" in want else "x" + want
        elif state == "stale":
            text = expansion(w, t, None if ini else w.source("pkg/stale.ini", INIS["one"]), args)
        elif state == "cut":
            text = want[:-1]
        else:
            text = want + ("\n" if state == "longer" else "")
        good = good and text == want
        w.source("pkg/" + out, text)
        srcs.append(src)
        outs.append(out)
    if n == 2 and c.flip():
        outs.reverse()
    w.load("mbo/mope/mope.bzl")["mope_test"](name=name, srcs=srcs, outs=outs, data=data, args=args)
    ran = [w.run_test(t.lstrip(":"), "dir") for t in w.tests[name]]
    c.step()
    passed = all(rc == 0 for rc, _, _ in ran)
    c.state((tuple(srcs), tuple(data), good, passed))
    c.check(len(ran) >= 1 and passed == good, lambda: "%r with %r, goldens %r: passed %r" % (srcs, data, outs, [(x[0], x[1][-200:]) for x in ran]))


def sec_names(c):
    """Templates and outputs that do not go together are refused."""
    names = ["x", "y", "x.cc", "xy"]
    srcs = [n for n in names if c.flip()]
    outs = [n for n in names if c.flip()]
    kind = c.choose(4)
    if not srcs or not outs:
        raise Skip
    w = start()
    for n in srcs:
        w.source("pkg/%s.mope" % n, "text %s\n" % n)
    env = w.load("mbo/mope/mope.bzl")
    try:
        if kind == 0:
            env["mope"](name="m", srcs=[n + ".mope" for n in srcs], outs=[n + ".gen" for n in outs])
            got = [w.read(w.files["pkg/%s.gen" % n]) for n in outs]
        else:
            for n in outs:
                w.source("pkg/%s.golden" % n, "text %s\n" % n)
            name = [None, "m_test", "m_tests", "m"][kind]
            env["mope_test"](name=name, srcs=[n + ".mope" for n in srcs], outs=[n + ".golden" for n in outs])
            got = [w.run_test(t.lstrip(":"), "dir")[0] for t in w.tests[name]]
    except bazel.Fail as e:
        got = None
    c.step()
    ok = set(srcs) == set(outs) and kind != 3
    c.state((tuple(srcs), tuple(outs), kind))
    c.check((got is not None) == ok, lambda: "%r and %r, %d: %r" % (srcs, outs, kind, got))
    if ok:
        c.check(got == ["text %s\n" % n for n in outs] if kind == 0 else got == [0] * len(outs), lambda: "%r and %r, %d: %r" % (srcs, outs, kind, got))


STUB = "#!/bin/bash\n[ \"$1\" = --version ] && { echo version; exit 0; }\nfor a; do echo \"$a\"; done\necho %s\ntr a-z A-Z\n"


def sec_format(c):
    """Formatting: the output is what the selected tool makes of the expansion, and the expansion itself if there is no tool."""
    flag = c.pick(["default", "path", "auto", "not executable"])
    where = c.pick(["found", "nowhere"]) if flag in ("auto", "not executable") else "found"
    fails = where == "found" and c.flip()
    sort = c.flip()
    n = 1 + c.choose(2)
    stub = STUB % "one" + ("exit 3\n" if fails else "")
    w = start("", stub if flag == "default" else None)
    bins = os.path.join(w.root, "bin")
    os.makedirs(bins)
    for t in ("cp", "cat", "which", "tr", "bash", "env"):
        os.symlink("/usr/bin/" + t, os.path.join(bins, t))
    w.PATH = bins
    w.ENV = {"LLVM_PATH": os.path.join(w.root, "llvm")}
    if flag == "path":
        w.put(bazel.File("tools/fmt"), stub)
        os.chmod(os.path.join(w.root, "tools/fmt"), 0o755)
        w.settings["//mbo/mope:clang_format"] = os.path.join(w.root, "tools/fmt")
    elif flag == "auto":
        w.settings["//mbo/mope:clang_format"] = "clang-format-auto"
    elif flag == "not executable":
        w.settings["//mbo/mope:clang_format"] = os.path.join(w.root, "tools/none")
    if flag in ("auto", "not executable") and where == "found":
        place = c.pick(["llvm/bin/clang-format", "bin/clang-format-18", "bin/clang-format-23", "bin/clang-format-15", "external/llvm_toolchain_llvm/bin/clang-format", "external/toolchains_llvm++llvm+llvm_toolchain_llvm/bin/clang-format"])
        w.put(bazel.File(place), stub)
        os.chmod(os.path.join(w.root, place), 0o755)
    attrs = {} if sort else {"sort_includes": False}
    srcs, outs = [], []
    for k in range(n):
        w.source("pkg/%d.h.tpl" % k, "<{{name}}> %d\n" % k)
        srcs.append("%d.h.tpl" % k)
        outs.append("%d.h%s" % (k, ".gen" if n == 1 and c.flip() else ""))
    w.source("pkg/0.h.ini", "name=value\n")
    try:
        w.load("mbo/mope/mope.bzl")["mope"](name="m", srcs=srcs, outs=outs, data=["0.h.ini"], clang_format=True, **attrs)
        got = [w.read(w.files["pkg/" + o]) for o in outs]
    except bazel.Fail as e:
        got = None
    c.step()
    c.state((flag, where, fails, sort, n, tuple(outs)))
    if fails:
        c.check(got is None, lambda: "the tool fails, the build does not: %r" % (got,))
        return
    c.check(got is not None, lambda: "%r %r does not build" % (flag, where))
    for k, text in enumerate(got):
        plain = "<%s> %d\n" % ("value" if k == 0 else "{{name}}", k)
        if where == "nowhere":
            c.check(text == plain, lambda: "without a tool: %r" % text)
        else:
            lines = text.split("\n")
            c.check(text.endswith("one\n" + plain.upper()), lambda: "%r: %r is not what the tool made of %r" % (flag, text, plain))
            c.check({"--assume-filename=pkg/%d.h" % k, "--style=file:.clang-format", "--sort-includes=%d" % sort} <= set(lines), lambda: "tool called with %r" % (lines,))


SECTIONS = {"expand": sec_expand, "golden": sec_golden, "names": sec_names, "format": sec_format}


def main(prop, tier, spec, work, repo, verif, replay, runmod):
    bazel_tools.build(["mope", "diff"], work, runmod)
    return mcpy.run(__name__, prop, tier, spec, work, repo, verif, replay, runmod, ())

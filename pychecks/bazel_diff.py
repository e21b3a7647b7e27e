"""diff_test: the test that the rule generates is run, over its attributes and over the ways in which it can find its files."""
import itertools
import os
import subprocess

from pychecks import bazel_tools, mcpy
from pychecks.bazel_tools import bazel
from pychecks.mcpy import Skip

REPO = None
deep = False

# attribute -> values, the first is the default
ATTRS = {
    "algorithm": ["myers", "direct", "naive", "unified"], "context": [-1, 0, 1, 7], "file_header_use": ["both", "left", "none", "right"],
    "format": ["unified", "context", "normal", "side-by-side"], "ignore_all_space": [False, True], "ignore_consecutive_space": [False, True],
    "ignore_blank_lines": [False, True], "ignore_case": [False, True], "ignore_matching_chunks": [True, False], "ignore_matching_lines": ["", "^#", "it's \"$HOME\""],
    "ignore_trailing_space": [False, True], "ignore_missing_final_newline": [False, True], "minimal": [False, True], "regex_replace_lhs": ["", "/a+/b/", "|'$x|`y`|"],
    "regex_replace_rhs": ["", "/b/a/"], "show_chunk_headers": [True, False], "skip_left_deletions": [False, True], "strip_comments": ["", "#", "//"],
    "strip_parsed_comments": [True, False], "width": [-1, 20, 60]}
PAIRS = [("a\nb\nc\n", "a\nb\nc\n"), ("a\nb\nc\n", "a\nb \nc\n"), ("a\nx y\nc\n", "a\nX  y\nc\n"), ("a\n\nb\n", "a\nb\n"), ("a\n# one\nb\n", "a\n# two\nb\n"), ("a\nb\n", "a\nb"),
         ("a\ngone\nb\n", "a\nb\n"), ("a\nb\n", "a\nnew\nb\n"), ("a\n'x # y' # one\n", "a\n'x # y' // two\n"), ("1\n2\n3\n4\n5\n6\n7\n8\n9\n", "one\n2\n3\n4\n5\n6\n7\n8\nnine\n"), ("aaa\nb\n", "b\nb\n"), ("", "a\n"),
         ("a\nb#\n# one\n", "a\nb#\nb\n# two\n")]


def setup(repo, tier):
    global REPO, deep
    REPO, deep = repo, tier == "thorough"


def flags(attrs):
    """The options of the command, read from the rule's documentation."""
    r = []
    for k, v in {"show_chunk_headers": True, **attrs}.items():
        if v == ATTRS[k][0] and k != "show_chunk_headers":
            continue
        r.append("--%s=%s" % (k, str(v).lower() if isinstance(v, bool) else v))
    return r


def make(w, name, old, new, attrs, tool):
    env = w.load("mbo/diff/diff.bzl")
    w.tool("//mbo/diff", tool, "mbo/diff/diff")
    env["diff_test"](name=name, file_old=old, file_new=new, **attrs)


def chosen(c, n):
    """Up to n attributes with values other than the default."""
    names = sorted(ATTRS)
    at, attrs = 0, {}
    for _ in range(n):
        k = c.choose(len(names) - at + 1)
        if k == 0:
            break
        name = names[at + k - 1]
        at += k
        attrs[name] = ATTRS[name][1 + c.choose(len(ATTRS[name]) - 1)]
    return attrs


def sec_outcome(c):
    """The test passes exactly if the command finds no difference with the same options, and shows what it finds."""
    attrs = chosen(c, 2 if deep else 1)
    pair = c.choose(len(PAIRS))
    extra = c.choose(2 if len(attrs) < 2 else 1)
    refused = attrs.get("algorithm") == "unified" and attrs.get("format", "unified") != "unified"
    w = bazel_tools.world(REPO)
    old, new = w.source("pkg/old.txt", PAIRS[pair][0]), w.generated("pkg/new.txt", PAIRS[pair][1])
    given = dict(attrs)
    if extra:
        given["failure_message"] = "it's \"$HOME\" `x` \\"
    try:
        make(w, "t", old, new, given, bazel_tools.exe["diff"])
    except bazel.Fail as e:
        c.step()
        c.check(refused, lambda: "%r refused: %s" % (attrs, e))
        return
    c.check(not refused, lambda: "%r accepted" % (attrs,))
    rc, out, err = w.run_test("t")
    srcdir = os.path.join(w.root, "rf", "t.runfiles", bazel.MAIN)
    want = subprocess.run([bazel_tools.exe["diff"]] + flags(attrs) + [srcdir + "/pkg/old.txt", srcdir + "/pkg/new.txt"], capture_output=True, timeout=60)
    c.step()
    c.state((rc, want.stdout.replace(w.root.encode(), b"")))
    what = lambda: "%r over %r: test exits %r, command exits %r; test shows %r, command %r (%r)" % (attrs, PAIRS[pair], rc, want.returncode, out[-300:], want.stdout[-300:], err[-200:])
    c.check((rc == 0) == (want.returncode == 0), what)
    c.check(out == want.stdout, what)
    if rc and extra:
        c.check(given["failure_message"].encode() in err, what)


RECORDER = """#!/bin/bash
printf '%s\\0' "$@" > "$(dirname "$0")/args"
exit $(cat "$(dirname "$0")/rc")
"""


def sec_options(c):
    """Every attribute reaches the command; its exit code decides."""
    attrs = chosen(c, 3 if deep else 2)
    result = c.choose(4)
    if attrs.get("algorithm") == "unified" and attrs.get("format", "unified") != "unified":
        raise Skip()
    w = bazel_tools.world(REPO)
    old, new = w.source("pkg/old.txt", "x"), w.generated("pkg/new.txt", "y")
    stub = os.path.join(w.root, "bazel-out/k8/bin/mbo/diff/diff")
    os.makedirs(os.path.dirname(stub), exist_ok=True)
    with open(stub, "w") as f:
        f.write(RECORDER)
    os.chmod(stub, 0o755)
    make(w, "t", old, new, attrs, stub)
    d = os.path.join(w.root, "rf", "t.runfiles", bazel.MAIN, "mbo/diff")
    os.makedirs(d)
    with open(d + "/rc", "w") as f:
        f.write(str(result))
    rc, out, err = w.run_test("t")
    c.step()
    args = open(d + "/args", "rb").read().decode().split("\0")[:-1]
    got, files, k = {}, [], 0
    while k < len(args):
        a = args[k]
        k += 1
        if a == "--":
            files += args[k:]
            break
        if not a.startswith("-") or a == "-":
            files.append(a)
            continue
        n, eq, v = a.lstrip("-").partition("=")
        if not eq and n.startswith("no") and n[2:] in ATTRS:
            n, v = n[2:], "false"
        elif not eq and isinstance(ATTRS.get(n, [0])[0], bool):
            v = "true"
        elif not eq and k < len(args):
            v = args[k]
            k += 1
        got[n] = v
    c.state(tuple(sorted(got.items())))
    for n, vals in ATTRS.items():
        v = attrs.get(n, vals[0])
        if n not in got:
            g = vals[0]
        elif isinstance(v, bool):
            g = got[n] in ("1", "true", "t", "yes", "y")
        elif isinstance(v, int):
            g = int(got[n])
        else:
            g = got[n]
        c.check(g == v, lambda: "%s=%r: the command gets %r (%r)" % (n, v, got.get(n), args))
    base = os.path.join(w.root, "rf", "t.runfiles", bazel.MAIN)
    c.check([os.path.join(base, f) for f in files] == [base + "/pkg/old.txt", base + "/pkg/new.txt"], lambda: "files %r" % (files,))
    c.check((rc == 0) == (result == 0), lambda: "the command exits %d, the test %d" % (result, rc))


# name, repository, generated
PLACES = [("pkg/f.txt", "", False), ("pkg/f.txt", "", True), ("f.txt", "", False), ("lib/f.txt", "repo+", False), ("lib/f.txt", "repo+", True), ("external_data/f.txt", "", False), ("externals/f.txt", "", True),
          ("pkg/external/f.txt", "", False), ("a b$c/it's.txt", "", False), ("pkg/f.txt.golden", "", False), ("x/_main/pkg/f.txt", "", False)]


def sec_places(c):
    """Whatever the kind and place of the two files, the test compares these two and no others."""
    pa, pb = c.pick(PLACES), c.pick(PLACES)
    mode = c.pick(["dir", "manifest", "srcdir"])
    same = c.flip()
    if mode == "manifest" and any(" " in p[0] for p in (pa, pb)):
        raise Skip()
    w = bazel_tools.world(REPO)
    put = lambda p, d, t: (w.generated if p[2] else w.source)(d + p[0] if p[1] or d == "" else p[0].replace("f.txt", d + "f.txt"), t, p[1])
    if pa == pb:
        pb = (pb[0] + ".new", pb[1], pb[2])
    old, new = put(pa, "", "text\n"), put(pb, "", "text\n" if same else "other\n")
    if old.runfile == new.runfile:
        raise Skip()
    # Files that are merely called similarly, of the opposite content.
    decoy = os.path.join(w.root, "decoy")
    with open(decoy, "w") as f:
        f.write("decoy\n" if same else "text\n")
    extra = {}
    for f in (old, new):
        extra["aaa" + f.runfile] = decoy
        extra["0/" + f.runfile] = decoy
        extra[f.runfile + "x"] = decoy
        extra[f.runfile.rsplit("/", 1)[0] + "/" + f.runfile] = decoy
    for f in (old, new):
        extra.pop(f.runfile, None)
    make(w, "t", old, new, {}, bazel_tools.exe["diff"])
    rc, out, err = w.run_test("t", mode, tuple(extra.items()))
    c.step()
    c.state((pa, pb, mode, same, rc))
    c.check((rc == 0) == same, lambda: "%r and %r by %s, which %s: exit %r %s" % (pa, pb, mode, "are the same" if same else "differ", rc, err[-400:].decode(errors="replace")))
    c.check(rc == 0 or b"differ" in err, lambda: "no word of a difference: %r" % (err[-300:],))


def sec_missing(c):
    """A file that is not there fails the test."""
    mode = c.pick(["dir", "manifest", "srcdir"])
    gone = c.choose(3)
    w = bazel_tools.world(REPO)
    old, new = w.source("pkg/old.txt", ""), w.generated("pkg/new.txt", "")
    make(w, "t", old, new, {}, bazel_tools.exe["diff"])
    info = w.targets["t"][0].runfiles.files.items
    for k, f in enumerate((old, new)):
        if gone >> k & 1 or gone == 2:
            info.remove(f)
    if gone == 0:
        info.remove(old)
    rc, out, err = w.run_test("t", mode)
    c.step()
    c.state((mode, gone, rc))
    c.check(rc not in (0,), lambda: "%s with a missing file passes" % mode)


SECTIONS = {"outcome": sec_outcome, "options": sec_options, "places": sec_places, "missing": sec_missing}


def main(prop, tier, spec, work, repo, verif, replay, runmod):
    bazel_tools.build(["diff"], work, runmod)
    return mcpy.run(__name__, prop, tier, spec, work, repo, verif, replay, runmod, ())

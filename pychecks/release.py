"""Releases: the scripts that tag a version and pack its archive, over all small states of the repository they run in.

Everything happens in a scratch repository with a local bare origin; signing and the pull request command are stand-ins."""
import io
import os
import shutil
import subprocess
import sys
import tarfile

from pychecks import mcpy
from pychecks.mcpy import Skip

REPO = None
deep = False


def setup(repo, tier):
    global REPO, deep
    REPO, deep = repo, tier == "thorough"


GPG = """#!/bin/bash
cat > /dev/null
echo >&2
echo "[GNUPG:] SIG_CREATED D" >&2
echo "-----BEGIN PGP SIGNATURE-----"
echo "-----END PGP SIGNATURE-----"
"""
GH = """#!/bin/bash
echo "$*" >> "$GH_LOG"
case "$1 $2" in
  "pr create") [ "$GH_MODE" != nocreate ] || { echo "no"; exit 1; }; echo "https://github.com/helly25/mbo/pull/17" ;;
  "pr merge") case " $* " in *" --admin "*) [ "$GH_MODE" = merge ] ;; esac ;;
esac
"""


def env(**more):
    top = os.getcwd()
    return {"PATH": os.path.join(top, "bin") + ":/usr/bin:/bin", "HOME": os.path.join(top, "home"), "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C", "TMPDIR": os.path.join(top, "tmp"),
            "GIT_AUTHOR_DATE": "2026-01-02T03:04:05Z", "GIT_COMMITTER_DATE": "2026-01-02T03:04:05Z", **more}


def git(*a, cwd="work", check=True):
    r = subprocess.run(["git", *a], cwd=cwd, capture_output=True, env=env(), timeout=60)
    if check and r.returncode:
        raise RuntimeError("git %r: %s" % (a, r.stderr.decode()))
    return r.stdout.decode()


def put(path, text, mode=None):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "w") as o:
        o.write(text)
    if mode:
        os.chmod(path, mode)


def get(path):
    with open(path) as i:
        return i.read()


def fresh(files):
    """A work tree on main, equal to the main of its origin."""
    for d in ("work", "origin", "home", "bin", "tmp", "other"):
        shutil.rmtree(os.path.join(os.getcwd(), d), ignore_errors=True)
    for d in ("work", "home", "bin", "tmp"):
        os.makedirs(d)
    put("bin/gpg", GPG, 0o755)
    put("home/.gitconfig", "[user]\n\tname = a\n\temail = a@b.c\n\tsigningkey = k\n[init]\n\tdefaultBranch = main\n[safe]\n\tdirectory = *\n[gpg]\n\tprogram = %s/bin/gpg\n[advice]\n\tdetachedHead = false\n[gc]\n\tauto = 0\n" % os.getcwd())
    git("init", "-q", "--bare", "-b", "main", "origin", cwd=".")
    git("init", "-q", "-b", "main")
    for p, t in files.items():
        put("work/" + p, t[0] if isinstance(t, tuple) else t, t[1] if isinstance(t, tuple) else None)
    git("add", "-A", "-f")
    git("commit", "-q", "-m", "one")
    git("remote", "add", "origin", os.path.abspath("origin"))
    git("push", "-q", "-u", "origin", "main")


MODULE = 'module(\n    name = "helly25_mbo",\n    version = "%s",\n)\n\nbazel_dep(name = "other", version = "1.2.3")\nbazel_dep(name = "dev", version = "2.0")\n'
CHANGES = "# %s\n\n- New: `a`.\n- Fixed b.\n\n# 1.2.2\n\n- Old.\n"
PATCH = "--- a/MODULE.bazel\n+++ b/MODULE.bazel\n@@ -6,2 +6,1 @@\n bazel_dep(name = \"other\", version = \"1.2.3\")\n-bazel_dep(name = \"dev\", version = \"2.0\")\n"

# What may be different from a repository in which version 1.2.3 is about to be released.
KINDS = {
    "arguments": [["1.2.3"], [], ["1.2.4"], ["1.2"], ["1.2.3.4"], ["v1.2.3"], ["1.2.3", "1.2.3"], ["1.2.3-rc1"], ["1.2.2"]],
    "versions": [("1.2.3", "1.2.3"), ("1.2.4", "1.2.3"), ("1.2.3", "1.2.4"), ("1.2.4", "1.2.4"), ("1.2", "1.2"), ("1.2.3-rc1", "1.2.3-rc1"), ("1.2.3.4", "1.2.3.4")],
    "branch": ["main", "feature", "detached"],
    "sync": ["equal", "behind", "ahead", "apart", "rewritten"],
    "dirty": ["clean", "modified", "staged", "untracked"],
    "tags": [[], ["1.2.3"], ["1.2.30"], ["11.2.3"], ["1x2y3"], ["1.2.3-rc1"], ["1.2.2", "1.2.1"]],
    "patch": ["applies", "stale", "missing"],
    "gh": ["none", "merge", "auto", "nocreate"],
}


def sec_trigger(c):
    """A version is tagged and pushed exactly if everything is in order; otherwise nothing changes anywhere."""
    names = list(KINDS)
    at, is_ = 0, {k: v[0] for k, v in KINDS.items()}
    for _ in range(3 if deep else 2):
        k = c.choose(len(names) - at + 1)
        if k == 0:
            break
        name = names[at + k - 1]
        at += k
        is_[name] = KINDS[name][1 + c.choose(len(KINDS[name]) - 1)]
    module, changes = is_["versions"]
    files = {"MODULE.bazel": MODULE % module, "CHANGELOG.md": CHANGES % changes, "README.md": "read\n"}
    if is_["patch"] != "missing":
        files[".github/workflows/bazelmod.patch"] = PATCH if is_["patch"] == "applies" else PATCH.replace('"dev"', '"gone"')
    fresh(files)
    for t in is_["tags"]:
        git("tag", "-a", t, "-m", "tag " + t)
    if is_["tags"]:
        git("push", "-q", "origin", "--tags")
    if is_["sync"] in ("behind", "apart"):
        git("clone", "-q", "origin", "other", cwd=".")
        put("other/README.md", "read more\n")
        git("commit", "-q", "-am", "two", cwd="other")
        git("push", "-q", cwd="other")
    if is_["sync"] in ("ahead", "apart"):
        put("work/README.md", "local\n")
        git("commit", "-q", "-am", "local")
    if is_["sync"] == "rewritten":  # another commit with the same tree
        git("commit", "-q", "--amend", "-m", "again")
    if is_["branch"] == "feature":
        git("checkout", "-q", "-b", "feature")
    elif is_["branch"] == "detached":
        git("checkout", "-q", "--detach")
    if is_["dirty"] == "modified":
        put("work/README.md", "dirty\n")
    elif is_["dirty"] == "staged":
        put("work/README.md", "dirty\n")
        git("add", "README.md")
    elif is_["dirty"] == "untracked":
        put("work/new.txt", "new\n")
    if is_["gh"] != "none":
        put("bin/gh", GH, 0o755)

    def state():
        return git("for-each-ref", "--format=%(refname) %(objectname)", cwd="origin"), git("for-each-ref", "--format=%(refname) %(objectname)", "refs/heads", "refs/tags"), git("status", "--porcelain", "--branch").split("...")[0], git("rev-parse", "HEAD"), get("work/MODULE.bazel"), get("work/CHANGELOG.md")
    before = state()
    main = git("rev-parse", "HEAD").strip()
    r = subprocess.run(["bash", os.path.join(REPO, "tools/trigger_release.sh"), *is_["arguments"]], cwd="work", capture_output=True, timeout=120, stdin=subprocess.DEVNULL,
                       env=env(GH_MODE=is_["gh"], GH_LOG=os.path.abspath("gh.log")))
    after = state()
    c.step()
    what = {k: v for k, v in is_.items() if v != KINDS[k][0]}
    version = is_["arguments"][0] if is_["arguments"] else ""
    parts = version.split(".")
    good = (len(is_["arguments"]) == 1 and version == module == changes and len(parts) == 3 and all(p.isdigit() for p in parts) and is_["branch"] == "main" and is_["sync"] == "equal"
            and is_["dirty"] == "clean" and version not in is_["tags"] and is_["patch"] == "applies")
    c.state((repr(what), r.returncode))
    c.sample("%r -> exit %d %s" % (what, r.returncode, r.stderr.decode()[-80:]))
    if not good:
        c.check(r.returncode != 0, lambda: "%r: exit 0" % (what,))
        c.check(before == after, lambda: "%r: refused (%d), yet something changed: %r" % (what, r.returncode, [x for x in zip(before, after) if x[0] != x[1]]))
        return
    c.check(r.returncode == 0, lambda: "%r: exit %d %s" % (what, r.returncode, (r.stdout + r.stderr).decode()[-400:]))
    follow = "%s.%s.%d" % (parts[0], parts[1], int(parts[2]) + 1)
    refs = dict(x.split(" ") for x in after[0].splitlines())
    old = dict(x.split(" ") for x in before[0].splitlines())
    bump = "refs/heads/chore/bump_version_to_" + follow
    c.check(set(refs) - set(old) == {"refs/tags/" + version, bump}, lambda: "%r: origin has %r" % (what, sorted(refs)))
    c.check(all(refs.get(k) == v for k, v in old.items()), lambda: "%r: moved %r -> %r" % (what, old, refs))
    tag = git("cat-file", "tag", version, cwd="origin")
    c.check("object %s\n" % main in tag and "\n-----BEGIN PGP SIGNATURE-----" in tag, lambda: "%r: the tag is %s" % (what, tag))
    c.check("- New: `a`.\n- Fixed b.\n" in tag and "Old" not in tag and version in tag.split("\n\n", 1)[1], lambda: "%r: the tag says %s" % (what, tag))
    c.check(git("rev-list", "%s..%s" % (main, bump), cwd="origin").split() == [refs[bump]], "%r: the bump is not one commit on top" % (what,))
    c.check(git("diff", "--name-only", main, bump, cwd="origin").split() == ["CHANGELOG.md", "MODULE.bazel"], "%r: the bump changes other files" % (what,))
    c.check(git("show", bump + ":MODULE.bazel", cwd="origin") == MODULE % follow, lambda: "%r: bumped to %s" % (what, git("show", bump + ":MODULE.bazel", cwd="origin")))
    c.check(git("show", bump + ":CHANGELOG.md", cwd="origin") == "# %s\n\n" % follow + CHANGES % changes, lambda: "%r: bumped to %s" % (what, git("show", bump + ":CHANGELOG.md", cwd="origin")))


EXCLUDED = [".bcr/x.json", ".gitattributes", ".github/workflows/x.yml", ".gitignore", ".pre-commit/x.sh", ".pre-commit-config.yaml", ".trunk/trunk.yaml", "mbo/hash/measurements/x.py", "mbo/hash/measurements/sub/y", "tools/x.sh", "tools/sub/deep/y"]
KEPT = {"LICENSE": "license\n", "mbo/hash/hash.h": "hash\n", "toolsmith/x": "kept\n", "mbo/hash/measurements_x/y": "kept\n", "run.sh": ("#!/bin/sh\n", 0o755), "mbo/BUILD.bazel": "inner\n", "bazelmod/dev.MODULE.bazel": "dev\n", "a b/c d": "blank\n", ".clang-format": "style\n"}


def prepare(tag, work="work"):
    return subprocess.run(["bash", ".github/workflows/release_prep.sh"], cwd=work, capture_output=True, timeout=120, stdin=subprocess.DEVNULL, env=env(GITHUB_REF_NAME=tag))


def archive(path):
    with tarfile.open(path) as t:
        return {m.name: (t.extractfile(m).read(), bool(m.mode & 0o100)) if m.isfile() else m.linkname if m.issym() else None for m in t.getmembers()}


def sec_archive(c):
    """The archive is the patched tree without the development files."""
    kind = c.choose(3)
    if kind == 0:  # versions
        tag = c.pick(["1.2.3", "1.2.4", "v1.2.3", "1.2", "1.2.30"])
        module, changes = c.pick(["1.2.3", "1.2.4", "1.2.30", "1.2"]), c.pick(["1.2.3", "1.2.4", "1.2.30", "1.2"])
        gone = set()
        drift = "exact"
    else:  # which of the files are there
        tag = module = changes = "1.2.3"
        names = [n for n in EXCLUDED if n != ".gitattributes"] + sorted(KEPT)
        gone = {n for n in (c.pick([None] + names), c.pick([None] + names)) if n} if kind == 1 else {n for n in names if n in EXCLUDED} if c.flip() else set()
        drift = c.pick(["exact", "moved", "fuzzy", "stale"]) if kind == 2 else "exact"
    stale = drift == "stale"
    patch = {"exact": PATCH, "moved": PATCH.replace("@@ -6,2 +6,1 @@", "@@ -3,2 +3,1 @@"), "fuzzy": PATCH.replace("@@ -6,2 +6,1 @@\n", "@@ -5,3 +5,2 @@\n gone\n"), "stale": PATCH.replace('"dev"', '"gone"')}[drift]
    files = {"MODULE.bazel": MODULE % module, "CHANGELOG.md": CHANGES % changes, "BUILD.bazel": "root\n", "tools/header.txt": "# header\n", ".github/workflows/bazelmod.patch": patch,
             ".github/workflows/release_prep.sh": get(os.path.join(REPO, ".github/workflows/release_prep.sh")), ".gitattributes": "*.md text\n"}
    files.update({n: "development\n" for n in EXCLUDED if n not in files and n not in gone})
    if ".gitignore" in files:
        files[".gitignore"] = "mbo-*.tar.gz\n"
    files.update({n: t for n, t in KEPT.items() if n not in gone})
    fresh(files)
    head = git("rev-parse", "HEAD")
    r = prepare(tag)
    c.step()
    what = (tag, module, changes, sorted(gone), drift)
    c.state((what, r.returncode))
    path = "work/mbo-%s.tar.gz" % tag
    if not tag == module == changes or stale:
        c.check(r.returncode != 0 and not os.path.exists(path), lambda: "%r: exit %d" % (what, r.returncode))
        return
    c.check(r.returncode == 0, lambda: "%r: exit %d %s" % (what, r.returncode, r.stderr.decode()[-300:]))
    got = archive(path)
    top = "mbo-%s/" % tag
    want = {top + "MODULE.bazel": (MODULE % module).replace('bazel_dep(name = "dev", version = "2.0")\n', ""), top + "CHANGELOG.md": CHANGES % changes, top + "VERSION": tag}
    want.update({top + n: t for n, t in KEPT.items() if n not in gone})
    want = {n: (t[0].encode(), True) if isinstance(t, tuple) else (t.encode(), False) for n, t in want.items()}
    build = got.pop(top + "BUILD.bazel", (b"", 0))[0].decode()
    c.check(build.startswith("# header\n") and "helly25_mbo" in build and build != "root\n", lambda: "%r: the root BUILD is %r" % (what, build))
    have = {n: v for n, v in got.items() if v is not None}
    c.check(have == want, lambda: "%r: the archive has %r, not %r" % (what, {n: v for n, v in have.items() if want.get(n) != v}, {n: v for n, v in want.items() if have.get(n) != v}))
    c.check(not any(n.rstrip("/") in [top + e for e in (".bcr", ".github", ".pre-commit", ".trunk", "mbo/hash/measurements", "tools")] for n in got), lambda: "%r: directories %r" % (what, sorted(n for n, v in got.items() if v is None)))
    c.check(git("rev-parse", "HEAD") == head and git("diff", "--cached", "--name-only") == "", "%r: the index or HEAD changed" % (what,))
    c.check(os.listdir("tmp") == [], lambda: "%r: left %r" % (what, os.listdir("tmp")))
    notes = r.stdout.decode()
    c.check("- New: `a`.\n- Fixed b.\n" in notes and "Old" not in notes and 'bazel_dep(name = "helly25_mbo", version = "%s")' % tag in notes, lambda: "%r: notes %s" % (what, notes[:500]))


def tracked():
    r = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z"], capture_output=True, timeout=60)
    return [f for f in r.stdout.decode().split("\0") if f]


def sec_tree(c):
    """The tree under test itself can be released under its version, and under no other."""
    delta = c.choose(3)
    names = tracked()
    if not names:
        raise Skip
    files = {}
    for n in names:
        p = os.path.join(REPO, n)
        if os.path.islink(p) or not os.path.isfile(p):
            continue
        with open(p, "rb") as i:
            files[n] = i.read()
    fresh({"README": "x\n"})
    git("rm", "-q", "README")
    for n, b in files.items():
        p = os.path.join("work", n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as o:
            o.write(b)
        os.chmod(p, 0o755 if os.access(os.path.join(REPO, n), os.X_OK) else 0o644)
    attrs = files.get(".gitattributes", b"")
    put("work/.gitattributes", "".join(l + "\n" for l in attrs.decode().splitlines() if "lfs" not in l))
    git("add", "-A", "-f")
    git("commit", "-q", "-m", "tree")
    import re
    version = re.search(r'version = "([^"]*)"', files["MODULE.bazel"].decode()).group(1)
    tag = [version, version + "1", "0.0.1"][delta]
    r = prepare(tag)
    c.step()
    c.state((tag, r.returncode))
    if delta:
        c.check(r.returncode != 0, "tag %s of version %s: exit 0" % (tag, version))
        return
    c.check(r.returncode == 0, lambda: "the tree cannot be released: %s" % r.stderr.decode()[-500:])
    got = archive("work/mbo-%s.tar.gz" % tag)
    top = "mbo-%s/" % tag
    outside = (".bcr/", ".github/", ".pre-commit/", ".trunk/", "mbo/hash/measurements/", "tools/")
    single = (".gitattributes", ".gitignore", ".pre-commit-config.yaml")
    for n, b in files.items():
        if n.startswith(outside) or n in single:
            c.check(top + n not in got, "%s is in the archive" % n)
        else:
            p = os.path.join("work", n)
            with open(p, "rb") as i:
                c.check(got.get(top + n, (None,))[0] == i.read(), "%s is not in the archive as it is in the tree" % n)
    c.check(set(n for n, v in got.items() if v is not None) <= {top + n for n in files} | {top + "VERSION"}, lambda: "the archive has more: %r" % sorted(set(n for n, v in got.items() if v is not None) - {top + n for n in files}))
    c.check(got[top + "MODULE.bazel"][0] != files["MODULE.bazel"] and got[top + "VERSION"][0] == tag.encode(), "the patch is not in the archive")


SECTIONS = {"trigger": sec_trigger, "archive": sec_archive, "tree": sec_tree}


def main(prop, tier, spec, work, repo, verif, replay, runmod):
    return mcpy.run(__name__, prop, tier, spec, work, repo, verif, replay, runmod, ())

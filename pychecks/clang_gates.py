"""The clang-tidy gate and the clang-format launcher, with stand-ins for the tools, over all small situations."""
import json
import os
import shutil
import subprocess

from pychecks import mcpy
from pychecks.gates import clean, put
from pychecks.mcpy import Skip

REPO = None
deep = False


def setup(repo, tier):
    global REPO, deep
    REPO, deep = repo, tier == "thorough"


def run(script, *args):
    bins = os.path.abspath("bin")
    r = subprocess.run(["/bin/bash", os.path.join(REPO, script), *args], capture_output=True, timeout=60, stdin=subprocess.DEVNULL,
                       env={"PATH": bins, "LC_ALL": "C", "HOME": os.getcwd(), "LLVM_PATH": os.path.abspath("llvm"), "TMPDIR": os.path.abspath("tmp"), "LOG": os.path.abspath("log")})
    return r.returncode, r.stdout.decode(), r.stderr.decode()


def base():
    clean()
    os.makedirs("bin")
    os.makedirs("tmp")
    for t in ("bash", "basename", "which", "grep", "head", "mktemp", "tee", "rm", "cat", "python3", "env", "sh", "dirname"):
        os.symlink("/usr/bin/" + t, "bin/" + t)


# In the order in which they are to be considered; "out" is the output base that bazel reports.
HERMETIC = ["@/external/llvm_toolchain_llvm/bin/", "@/external/toolchains_llvm++llvm+llvm_toolchain_llvm/bin/", "out/external/toolchains_llvm++llvm+llvm_toolchain_llvm_llvm/bin/"]
PLACES = HERMETIC + ["bin/%s-23", "bin/%s-18", "llvm/bin/%s", "bin/%s"]

TIDY = """#!/bin/bash
me=%r
if [ "$1" = --version ]; then
  echo "LLVM (http://llvm.org/):"
  echo "  LLVM version %s"
  exit 0
fi
{ echo "CALL $me"; for a; do echo "$a"; done; } >> "$LOG"
rc=0
for a; do
  case "$a" in
    *.cc|*.h)
      echo "checked $a"
      for w in %s; do [ "$a" != "$w" ] || rc=1; done
      for w in %s; do [ "$a" != "$w" ] || { echo "$a:1:1: error: no such file [clang-diagnostic-error]"; rc=%d; }; done ;;
  esac
done
exit $rc
"""


def install(tool, places, text):
    link = "bazel-" + os.path.basename(os.getcwd())
    for k, (p, more) in enumerate(places):
        full = p.replace("@", link) + tool if p.endswith("/") else p % tool
        put(full, text(full if not full.startswith(("bin", "llvm")) else os.path.abspath(full), more), 0o755)
    if any(p.startswith("out") for p, _ in places):
        put("bin/bazel", "#!/bin/bash\n[ \"$*\" = \"info output_base\" ] && echo %s\n" % os.path.abspath("out"), 0o755)


FILES = ["mbo/a.cc", "mbo/a_test.cc", "mbo/b.h", "mbo/stale.cc", "mbo/hash/measurements/smhasher3/x.cc", "mbo/b_test.cc"]


def calls():
    """-> [(tool, [arguments])]"""
    r = []
    if os.path.exists("log"):
        for l in open("log").read().splitlines():
            if l.startswith("CALL "):
                r.append((l[5:], []))
            else:
                r[-1][1].append(l)
    return r


def sec_tidy(c):
    """It passes exactly if it could check all files and found nothing."""
    files = [f for f in FILES if c.flip()]
    database = c.pick(["relative", "absolute", "none"])
    where = [f for f in FILES[:3] + FILES[5:] if f in files]
    bad = c.pick([None] + where)
    broken = c.pick([None] + where)
    status = c.choose(2) if broken else 0
    base()
    if database != "none":
        known = [f for f in FILES if f not in ("mbo/stale.cc", "mbo/b.h", FILES[4])]
        put("compile_commands.json", json.dumps([{"directory": os.getcwd() if database == "relative" else "/elsewhere", "file": f if database == "relative" else os.path.abspath(f), "command": "c"} for f in known]))
    for f in FILES:
        put(f, "// text\n")
    install("clang-tidy", [("bin/%s", "21.1.8")], lambda me, v: TIDY % (me, v, bad or "", broken or "", status))
    rc, out, err = run("tools/clang_tidy.sh", *files)
    c.step()
    got = calls()
    linted = [a for _, args in got for a in args if a.startswith("mbo/")]
    wanted = [f for f in files if "smhasher3" not in f]
    what = (files, database, bad, broken, status)
    c.state((repr(what), rc))
    stale = "mbo/stale.cc" in files
    good = database != "none" and not (stale or bad or broken)
    c.check((rc == 0) == good, lambda: "%r: exit %d %s" % (what, rc, err))
    c.check(os.listdir("tmp") == [], "%r: leaves files behind" % (what,))
    if database == "none" or stale:
        c.check(not linted, lambda: "%r: checks %r" % (what, linted))
        c.check(not stale or database == "none" or "mbo/stale.cc" in err, lambda: "%r: does not name the file: %s" % (what, err))
        return
    c.check(sorted(linted) == sorted(wanted), lambda: "%r: checks %r" % (what, linted))
    c.check(all("checked " + f in out for f in wanted), lambda: "%r: the findings are not shown" % (what,))
    for _, args in got:
        tests = [a for a in args if a.endswith("_test.cc")]
        c.check(not tests or len(tests) == len([a for a in args if a.startswith("mbo/")]), lambda: "%r: tests and other files together" % (what,))
        c.check(any(a.startswith("--checks=-") for a in args) == bool(tests), lambda: "%r: called with %r" % (what, args))
        c.check("-p" in args and not any("fix" in a for a in args), lambda: "%r: called with %r" % (what, args))
    if broken:
        c.check("PARSE" in err.upper(), lambda: "%r: a file that does not parse is not pointed out: %s" % (what, err))


def sec_choice(c):
    """The first tool that is there and new enough is used; without any it fails."""
    tool = c.pick(["clang-tidy", "clang-format"])
    versions = ["22.1.8", "18.0.0", "17.0.6", "9.0.1", "none"] if tool == "clang-tidy" else [""]
    places = []
    for p in PLACES:
        if c.flip():
            places.append((p, c.pick(versions) if len(places) < (2 if deep else 1) else versions[0]))
    if len(places) > (4 if deep else 3):
        raise Skip
    base()
    for f in FILES[:1]:
        put(f, "// text\n")
    put("compile_commands.json", json.dumps([{"directory": os.getcwd(), "file": FILES[0]}]))
    install(tool, places, (lambda me, v: TIDY % (me, v, "", "", 0)) if tool == "clang-tidy" else lambda me, v: "#!/bin/bash\n{ echo \"CALL %s\"; for a; do echo \"$a\"; done; } >> \"$LOG\"\nexit 7\n" % me)
    args = [FILES[0]] if tool == "clang-tidy" else ["-i", "a b", "--style=file", "*"]
    rc, out, err = run("tools/%s.sh" % tool.replace("-", "_"), *args)
    c.step()
    usable = [p for p, v in places if v == "" or v != "none" and int(v.split(".")[0]) >= 18]
    got = calls()
    c.state((tool, tuple(places), rc))
    if not usable:
        c.check(rc != 0 and not got, lambda: "%s at %r: exit %d, calls %r" % (tool, places, rc, got))
        return
    first = usable[0].replace("@", "bazel-" + os.path.basename(os.getcwd()))
    first = first + tool if first.endswith("/") else os.path.abspath(first % tool)
    c.check(rc == (0 if tool == "clang-tidy" else 7), lambda: "%s at %r: exit %d %s" % (tool, places, rc, err))
    c.check(len(got) == 1 and os.path.abspath(got[0][0]) == os.path.abspath(first), lambda: "%s at %r: uses %r, not %s" % (tool, places, got, first))
    if tool == "clang-format":
        c.check(got[0][1] == args, lambda: "called with %r" % (got[0][1],))


SECTIONS = {"tidy": sec_tidy, "choice": sec_choice}


def main(prop, tier, spec, work, repo, verif, replay, runmod):
    return mcpy.run(__name__, prop, tier, spec, work, repo, verif, replay, runmod, ())

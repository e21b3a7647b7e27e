#!/usr/bin/env python3
"""Creates and confirms planted bugs.

  plant.py make SPEC.py [ID...]     writes seeded/<id>/ from the entries of SPEC.py (a list BUGS) and confirms each
  plant.py confirm ID...            applies, builds, tests, runs the demo and the check, and undoes
Each entry: dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo=<C++ source or bash text>, shim=bool, libs="", kind="cc"|"sh").
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")  # elsewhere: without build and tests
SEED = os.path.join(VERIF, "seeded")

DEMO_CC = """#!/bin/bash
# Compiles demo.cc against the working tree (cwd) and runs it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O0 -w -ftemplate-depth=4096 %(exc)s-iquote . -iquote _build/gen %(shim)s"$here/demo.cc" %(repo)s-o "$tmp/demo" %(libs)s-lpthread
cd "$tmp"
./demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def BUILD():
    return sh("bash /opt/vp/build.sh" if REPO == "/repo" else "true")


def clean():
    sh(["git", "-C", REPO, "checkout", "--", "."])


def make(e):
    d = os.path.join(SEED, e["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in e["edits"]:
        p = os.path.join(REPO, f)
        t = open(p).read()
        assert t.count(old) == 1, (e["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE, text=True).stdout
    clean()
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": e["prop"], "needs": e["needs"], "what_it_breaks": e["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if e.get("kind", "cc") == "cc":
        open(d + "/demo.cc", "w").write(e["demo"].lstrip("\n"))
        shim = ""
        if e.get("shim"):
            if os.path.isdir(d + "/shim"):
                shutil.rmtree(d + "/shim")
            shutil.copytree(VERIF + "/shim", d + "/shim")
            shim = '-isystem "$here/shim" '
        open(d + "/demo.sh", "w").write(DEMO_CC % dict(
            exc="" if e.get("shim") or e.get("exc") else "-fno-exceptions ", shim=shim, libs=(e.get("libs", "") + " ").lstrip(),
            repo="".join(r + " " for r in e.get("repo", []))))
    else:
        open(d + "/demo.sh", "w").write(e["demo"].lstrip("\n"))
        for n, t in e.get("extra", {}).items():
            open(os.path.join(d, n), "w").write(t.lstrip("\n"))


def confirm(bid, check=True):
    d = os.path.join(SEED, bid)
    meta = json.load(open(d + "/meta.json"))
    clean()
    res = {}
    BUILD()
    r = sh(["bash", d + "/demo.sh"], cwd=REPO)
    res["demo_clean"] = r.returncode
    if r.returncode:
        print(r.stdout[-1500:])
    try:
        r = sh(["git", "-C", REPO, "apply", d + "/patch.diff"])
        assert r.returncode == 0, r.stdout
        r = BUILD()
        res["build"] = r.returncode
        if r.returncode:
            print(r.stdout[-1500:])
        res["lost"] = []
        if REPO == "/repo":
            sh("bash /opt/vp/test.sh /tmp/plant_out.json")
            o = json.load(open("/tmp/plant_out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            res["lost"] = [t for t in base["stable"] if t not in set(o["passed"])][:5]
        r = sh(["bash", d + "/demo.sh"], cwd=REPO)
        res["demo_bug"] = r.returncode
        if check:
            r = sh([VERIF + "/run.py", meta["property"]], timeout=900, env=dict(os.environ, VERIF_REPO=REPO))
            res["check"] = r.returncode
            res["viol"] = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "  " == l[:2]][:3]
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
    finally:
        clean()
    good = res["demo_clean"] == 0 and res["build"] == 0 and not res["lost"] and res["demo_bug"] != 0
    print(bid, meta["property"], "COUNTS" if good else "DOES-NOT-COUNT", "CAUGHT" if res.get("check") == 1 else "MISSED", json.dumps(res)[:600], flush=True)
    return good


def main():
    mode = sys.argv[1]
    check = "--no-check" not in sys.argv
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    if mode == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        for e in ns["BUGS"]:
            if args[1:] and e["id"] not in args[1:]:
                continue
            make(e)
            confirm(e["id"], check)
    else:
        for b in args:
            confirm(b, check)
    BUILD()


if __name__ == "__main__":
    main()

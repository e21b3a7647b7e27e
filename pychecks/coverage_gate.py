"""Coverage gates: reports, policies, markers and changes against a model of what they describe."""
import io
import json
import os
import shutil
import subprocess
import sys
from contextlib import redirect_stderr, redirect_stdout

from pychecks import mcpy
from pychecks.mcpy import Skip

REPO = None
deep = False
code = {}


def setup(repo, tier):
    global REPO, deep
    REPO = repo
    deep = tier == "thorough"
    sys.path.insert(0, os.path.join(repo, "tools"))
    sys.dont_write_bytecode = True
    os.environ.update(GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null")
    for f in os.listdir("."):
        (shutil.rmtree if os.path.isdir(f) else os.unlink)(os.path.abspath(f))
    for n in ("coverage", "coverage_sources"):
        p = os.path.join(repo, "tools", n + ".py")
        code[n] = compile(open(p).read(), p, "exec")


def cli(name, args):
    """Runs the tool as a program: exit status, output, errors."""
    old, out, err = sys.argv, io.StringIO(), io.StringIO()
    sys.argv = [name] + args
    try:
        with redirect_stdout(out), redirect_stderr(err):
            try:
                exec(code[name], {"__name__": "__main__", "__file__": os.path.join(REPO, "tools", name + ".py")})
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception as e:
                rc = "exception %r" % e
    finally:
        sys.argv = old
    return int(rc) if isinstance(rc, bool) else rc, out.getvalue(), err.getvalue()


def write(path, text):
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def lcov(records):
    """records: (path, {line: hits}, [(line, name, hits)], [(line, taken text)])."""
    out = ""
    for path, lines, funcs, branches in records:
        out += "TN:\nSF:%s\n" % path
        for k, n, _ in funcs:
            out += "FN:%d,%s\n" % (k, n)
        for _, n, h in funcs:
            out += "FNDA:%d,%s\n" % (h, n)
        for k, (line, taken) in enumerate(branches):
            out += "BRDA:%d,0,%d,%s\n" % (line, k, taken)
        for k, h in sorted(lines.items()):
            out += "DA:%d,%d\n" % (k, h)
        out += "LH:0\nLF:%d\nend_of_record\n" % len(lines)
    return out


def metric(cov, total):
    return {"covered": cov, "total": total, "percent": round(100.0 * cov / total, 2) if total else None}


def measure(files, only=None):
    """files: {path: (lines, functions [(line, hits)], branches [(line, bool)])}"""
    v = {"lines": [0, 0], "functions": [0, 0], "branches": [0, 0]}
    for p, (lines, funcs, branches) in files.items():
        at = None if only is None else only.get(p, set())
        for k, h in lines.items():
            if at is None or k in at:
                v["lines"][0] += h > 0
                v["lines"][1] += 1
        if only is None:
            v["functions"][0] += sum(h > 0 for _, h in funcs)
            v["functions"][1] += len(funcs)
        for k, t in branches:
            if at is None or k in at:
                v["branches"][0] += t
                v["branches"][1] += 1
    return {k: metric(*x) for k, x in v.items()}


def run_gate(c, records, policy, files, extra=(), changed=None):
    """Runs the gate and compares with what the files say. files: those selected."""
    write("r.lcov", lcov(records))
    write("p.json", json.dumps(policy))
    for f in ("s.json", "s.md"):
        if os.path.exists(f):
            os.unlink(f)
    rc, out, err = cli("coverage", ["--lcov", "r.lcov", "--policy", "p.json", "--json-summary", "s.json", "--summary", "s.md"] + list(extra))
    c.step()
    what = lambda: "records %r policy %r files %r\nexit %r\n%s%s" % (records, policy, files, rc, out, err)
    if not files:
        c.check(rc == 2, lambda: "no files: " + what())
        return rc, out, err
    import fnmatch
    want = {"overall": measure(files)}
    floors, targets = {"overall": policy.get("minimum", {})}, {"overall": policy.get("minimum", {})}
    for n, cat in policy.get("categories", {}).items():
        want[n] = measure({p: d for p, d in files.items() if any(fnmatch.fnmatchcase(p, g) for g in cat["include"])})
        floors[n] = dict(policy.get("minimum", {}), **cat.get("minimum", {}))
        targets[n] = policy.get("minimum", {})
    bad = [(n, m) for n, limits in floors.items() for m, low in limits.items() if want[n][m]["percent"] is None or want[n][m]["percent"] < low]
    patch = None
    patch_bad = []
    if changed is not None:
        patch = measure(files, changed)
        if patch["lines"]["total"] or patch["branches"]["total"]:
            patch_bad = [m for m in ("lines", "branches") if patch[m]["total"] and patch[m]["percent"] < policy.get("patch_minimum", {}).get(m, 0)]
        else:
            patch = None
    c.check(rc == (1 if bad or patch_bad else 0), lambda: "expected failures %r %r: %s" % (bad, patch_bad, what()))
    got = json.load(open("s.json"))
    c.check(got.get("measurements") == want, lambda: "measured %r\nexpected %r\n%s" % (got.get("measurements"), want, what()))
    c.check(got.get("minimums") == floors and got.get("targets") == targets, lambda: "limits: " + what())
    c.check(got.get("patch") == patch, lambda: "patch %r expected %r: %s" % (got.get("patch"), patch, what()))
    for n, m in bad:
        c.check(any(n in l and m in l for l in err.splitlines()), lambda: "failure of %s %s not reported: %s" % (n, m, what()))
    c.check(len([l for l in err.splitlines() if "failed" in l]) == len(bad) + len(patch_bad), lambda: "number of failures reported: " + what())
    if changed is not None:
        gaps = set()
        if patch_bad:
            for p, (lines, _, branches) in files.items():
                gaps |= {"line: %s:%d" % (p, k) for k, h in lines.items() if not h and k in changed.get(p, ())}
                gaps |= {"branch: %s:%d" % (p, k) for k, t in branches if not t and k in changed.get(p, ())}
        shown = [l.replace("uncovered patch ", "") for l in err.splitlines() if l.startswith("uncovered")]
        c.check(sorted(shown) == sorted(gaps), lambda: "uncovered %r expected %r: %s" % (shown, gaps, what()))
    c.check(open("s.md").read() == out, lambda: "summary file differs from output: " + what())
    rows = [[x.strip() for x in l.strip("|").split("|")] for l in out.splitlines() if l.startswith("|")]
    widths = {tuple(k for k, ch in enumerate(l) if ch == "|") for l in out.split("###")[0].splitlines() if l.startswith("|")}
    c.check(len(widths) == 1, lambda: "table is not aligned: " + what())
    for n, m in want.items():
        row = [r for r in rows if r[0] == n]
        c.check(len(row) == 1, lambda: "row of %s: %s" % (n, what()))
        cells = []
        for k in ("lines", "functions", "branches"):
            cells += ["n/a" if m[k]["percent"] is None else "%.2f%%" % m[k]["percent"], str(m[k]["covered"]), str(m[k]["total"])]
        c.check(row[0][2:] == cells, lambda: "row %r: %s" % (row, what()))
        names = [k for k in ("lines", "functions", "branches") if k in floors[n]]
        nodata = [k[0].upper() for k in names if m[k]["percent"] is None]
        fail = [k[0].upper() for k in names if m[k]["percent"] is not None and m[k]["percent"] < floors[n][k]]
        low = [k[0].upper() for k in names if m[k]["percent"] is not None and floors[n][k] <= m[k]["percent"] < targets[n].get(k, floors[n][k])]
        status = "; ".join(t + "/".join(x) for t, x in (("NO DATA: ", nodata), ("FAIL: ", fail), ("LOW: ", low)) if x)
        c.check(row[0][1] == ("N/A" if not floors[n] else "**%s**" % status if status else "OK"), lambda: "status %r expected %r: %s" % (row[0][1], status, what()))
    c.state((rc, out))
    c.sample(out)
    return rc, out, err


def taken(t):
    return t not in ("-", "0")


def sec_merge(c):
    """Two records, of one or two files, however the path is written."""
    names = ["mbo/a.h", "/w/mbo/a.h", "C:\\w\\mbo\\a.h", "mbo/b/c.h", "/x/other.h", "/x/mbo/b/c.h"]
    records, files = [], {}
    for k in range(2):
        path = c.pick(names)
        h1, h2 = c.pick([(a, b) for a in range(3) for b in range(3)] if deep else [(1, 0), (2, 1), (0, 2), (2, 0)])
        lines = {n: h - 1 for n, h in ((3, h1), (5, h2)) if h}
        f = [(3, "f%d" % k, c.choose(2))] if c.flip() else []
        b = [(5, c.pick(["-", "0", "2"] if deep or k == 0 else ["-", "2"]))]
        records.append((path, lines, f, b))
        p = path.replace("\\", "/")
        if "mbo/" not in p:
            continue
        p = p[p.index("mbo/"):]
        x = files.setdefault(p, ({}, [], []))
        for n, h in lines.items():
            x[0][n] = x[0].get(n, 0) + h
        x[1].extend((n, h) for n, _, h in f)
        x[2].extend((n, taken(t)) for n, t in b)
    shutil.rmtree("mbo", ignore_errors=True)
    run_gate(c, records, {"minimum": {"lines": 50}}, files)


def sec_policy(c):
    """Which files count, where, and against which limits."""
    hits = [c.choose(4) for _ in range(3)]  # covered lines of 3
    paths = ["mbo/a/x.h", "mbo/a/y_test.cc", "mbo/b/z.h"]
    records = [(p, {k + 1: int(k < h) for k in range(3)}, [(1, "f", h)], [(2, "1" if h > 1 else "-"), (2, "0")]) for p, h in zip(paths, hits)]
    policy = {}
    if c.flip():
        policy["include"] = c.pick([["mbo/**"], ["mbo/a/*"], ["mbo/b/*", "*_test.cc"], []])
    if c.flip():
        policy["exclude"] = c.pick([["*_test.cc"], ["mbo/a/*"], ["mbo/**"]])
    policy["minimum"] = c.pick([{}, {"lines": 60}, {"lines": 100, "functions": 60, "branches": 50}])
    kind = c.choose(4)
    if kind:
        policy["categories"] = {"A": {"include": ["mbo/a/*"]}, "B": {"include": ["mbo/b/*"]}}
        if kind > 1:
            policy["categories"]["B"]["minimum"] = [{"lines": 30}, {"branches": 90, "functions": 0}][kind - 2]
    import fnmatch
    m = lambda p, gs: any(fnmatch.fnmatchcase(p, g) for g in gs)
    files = {p: (r[1], [(n, h) for n, _, h in r[2]], [(n, taken(t)) for n, t in r[3]]) for p, r in zip(paths, records)
             if m(p, policy.get("include", ["mbo/**"])) and not m(p, policy.get("exclude", []))}
    shutil.rmtree("mbo", ignore_errors=True)
    run_gate(c, records, policy, files)


def sec_markers(c):
    """Lines excluded, functions excluded or merged by markers in the source."""
    n = 4 if deep else 3
    marks = ["", "// LCOV_EXCL_LINE", "// LCOV_EXCL_BR_LINE", "// LCOV_EXCL_FUNC_LINE", "// LCOV_MERGE_FUNC_LINE"]
    src = [(c.pick(marks), c.flip()) for _ in range(n)]
    shape = c.choose(4)
    write("mbo/a.h", "".join("x%s %s\n" % (" {" if b else "", m) for m, b in src))
    hits = [(1, 0, 2, 0), (0, 0, 0, 1), (3, 1, 1, 1), (0, 1, 0, 0)][shape]
    lines = {k + 1: hits[k] for k in range(n)}
    funcs = [(k + 1, "f%d_%d" % (k, j), (hits[k] + j) % 2) for k in range(n) for j in range(2)]
    branches = [(k + 1, t) for k in range(n) for t in ("-", str(hits[k]))]
    records = [("mbo/a.h", lines, funcs, branches)]
    ex_line = {k + 1 for k, (m, _) in enumerate(src) if "EXCL_LINE" in m}
    ex_branch = ex_line | {k + 1 for k, (m, _) in enumerate(src) if "EXCL_BR" in m}
    ex_func, group = set(), {}
    for k, (m, _) in enumerate(src):
        if "FUNC" not in m:
            continue
        for j in range(k, n):
            if "EXCL" in m:
                ex_func.add(j + 1)
            else:
                group[j + 1] = k + 1
            if src[j][1]:
                break
    merged, plain = {}, []
    for k, _, h in funcs:
        if k in ex_func:
            continue
        if k in group:
            merged[group[k]] = max(h, merged.get(group[k], 0))
        else:
            plain.append((k, h))
    files = {"mbo/a.h": ({k: h for k, h in lines.items() if k not in ex_line}, plain + list(merged.items()), [(k, taken(t)) for k, t in branches if k not in ex_branch])}
    run_gate(c, records, {"minimum": {"functions": 50, "lines": 40}}, files)
    os.unlink("mbo/a.h")


def git(*args):
    env = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")
    return subprocess.run(["git", *args], check=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True).stdout


def sec_patch(c):
    """Only changed lines count for the patch, whatever was changed."""
    old = ["o%d" % k for k in range(4)]
    new, added = [], set()
    for k in range(4):
        op = c.choose(5 if k < 2 or deep else 3)
        if op == 1:
            new.append("c%d" % k)
            added.add(len(new))
        elif op == 2:
            pass
        else:
            new.append(old[k])
            if op >= 3:
                new.append(["i%d" % k, "++ b/mbo/b.h"][op - 3])
                added.add(len(new))
    other = c.choose(3)  # nothing, a new file before, a deleted file before
    root = os.path.abspath("g")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + "/mbo")
    back = os.getcwd()
    os.chdir(root)
    try:
        git("init", "-q", "-b", "main")
        write("mbo/m.h", "".join(l + "\n" for l in old))
        write("mbo/b.h", "b\n" * 6)
        if other == 2:
            write("mbo/a.h", "a\na\n")
        git("add", ".")
        git("commit", "-qm", "base")
        git("branch", "base")
        write("mbo/m.h", "".join(l + "\n" for l in new))
        if other == 1:
            write("mbo/a.h", "a\na\n")
        elif other == 2:
            os.unlink("mbo/a.h")
        git("add", "-A")
        git("commit", "-qm", "change", "--allow-empty")
        changed = {"mbo/m.h": added}
        if other == 1:
            changed["mbo/a.h"] = {1, 2}
        records, files = [], {}
        for p, n in (("mbo/m.h", 6), ("mbo/b.h", 6)) + ((("mbo/a.h", 2),) if other == 1 else ()):
            lines = {k: k % 2 for k in range(1, n + 1) if k != 4}
            branches = [(k, t) for k in range(1, n + 1, 2) for t in ("-", "1")]
            records.append((p, lines, [], branches))
            files[p] = (lines, [], [(k, taken(t)) for k, t in branches])
        run_gate(c, records, {"patch_minimum": {"lines": 60, "branches": 50}}, files, ["--base-ref", "base"], changed)
    finally:
        os.chdir(back)
    shutil.rmtree(root, ignore_errors=True)


def sec_sources(c):
    """Grouping sources by category keeps exactly the selected records."""
    root = os.path.abspath("w")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    back = os.getcwd()
    os.chdir(root)
    try:
        records, want, conflict = [], "", False
        policy = {"categories": {"A": {"include": ["mbo/a/*"]}, "B": {"include": ["mbo/b/*", "mbo/c.h"]}}}
        both = c.flip()
        if both:
            policy["categories"]["B"]["include"].append("mbo/a/y.h")
        if c.flip():
            policy["exclude"] = ["*/x.h"]
        for k in range(3):
            p = c.pick(["mbo/a/x.h", "mbo/a/y.h", "mbo/c.h", "mbo/zzz.h", "ext/q.h", ""])
            if not p:
                continue
            absolute = c.flip()
            empty = c.choose(3) if k == 0 else 0
            write(p, "text of " + p)
            body = lambda sf: "TN:\nSF:%s\nDA:1,1\nLF:%d\nFNF:0\nBRF:%d\nend_of_record\n" % (sf, 0 if empty else 1, 2 if empty == 2 else 0)
            records.append(body(os.path.join(root, p) if absolute else p))
            if empty == 1 or not p.startswith("mbo/") or p == "mbo/a/x.h" and "exclude" in policy:
                continue
            cats = (["A"] if p.startswith("mbo/a/") else []) + (["B"] if p == "mbo/c.h" or both and p == "mbo/a/y.h" else [])
            if len(cats) != 1:
                conflict = True
                continue
            want += body(os.path.join(os.path.realpath(root), "src", cats[0], p))
        write("in.lcov", "".join(records))
        write("p.json", json.dumps(policy))
        rc, out, err = cli("coverage_sources", ["in.lcov", "out.lcov", "--policy", "p.json", "--source-root", "src"])
        c.step()
        if conflict:
            c.check(rc != 0, "a source of no or two categories passed")
            return
        got = open("out.lcov").read() if os.path.exists("out.lcov") else None
        c.check(rc == 0 and got == want, lambda: "%r -> exit %r %r\nexpected %r\n%s" % (records, rc, got, want, err))
        for l in want.splitlines():
            if l.startswith("SF:"):
                c.check(open(l[3:]).read() == "text of " + l[l.index("/mbo/") + 1:], lambda: "linked source " + l)
        c.state(want)
    finally:
        os.chdir(back)


SECTIONS = {"merge": sec_merge, "policy": sec_policy, "markers": sec_markers, "patch": sec_patch, "sources": sec_sources}


def main(prop, tier, spec, work, repo, verif, replay, runmod):
    return mcpy.run(__name__, prop, tier, spec, work, repo, verif, replay, runmod, ())

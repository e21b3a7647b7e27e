"""What is kept: caches, coverage reports and the pages about them, over all small histories."""
import html.parser
import io
import itertools
import json
import os
import shutil
import sys
from contextlib import redirect_stderr, redirect_stdout

from pychecks import mcpy
from pychecks.mcpy import Skip

REPO = None
deep = False
code = {}


def setup(repo, tier):
    global REPO, deep
    REPO, deep = repo, tier == "thorough"
    sys.path.insert(0, os.path.join(repo, "tools"))
    sys.dont_write_bytecode = True
    for n in ("cache_cleanup", "coverage_index"):
        p = os.path.join(repo, "tools", n + ".py")
        code[n] = compile(open(p).read(), p, "exec")


def cli(name, args, stdin=""):
    old, out, err, oin = sys.argv, io.StringIO(), io.StringIO(), sys.stdin
    sys.argv, sys.stdin = [name] + args, io.StringIO(stdin)
    try:
        with redirect_stdout(out), redirect_stderr(err):
            try:
                exec(code[name], {"__name__": "__main__", "__file__": os.path.join(REPO, "tools", name + ".py")})
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception as e:
                rc = "exception %r" % e
    finally:
        sys.argv, sys.stdin = old, oin
    return int(rc) if isinstance(rc, bool) else rc, out.getvalue(), err.getvalue()


TIMES = ["2026-08-14T12:00:00Z", "2026-08-14T12:00:01Z", "2026-09-01T00:00:00Z", "2027-01-01T00:00:00Z"]
MOMENTS = ["2026-08-14T12:00:00Z", "2026-08-14T12:00:00.09Z", "2026-08-14T12:00:00.1Z", "2026-08-14T12:00:00.1000001Z", "2026-08-14T12:00:00.25Z", "2026-08-14T12:00:00.9Z", "2026-08-14T12:00:01Z", "2026-08-14T12:00:01.05Z"]


def sec_moments(c):
    """Times of one second are told apart, however many digits they have."""
    n = 2 + c.choose(2)
    at = [c.choose(len(MOMENTS)) for _ in range(n)]
    if len(set(at)) < n:
        raise Skip()
    rc, out, err = cli("cache_cleanup", ["p-"], json.dumps([{"id": k, "key": "p-x", "createdAt": MOMENTS[a]} for k, a in enumerate(at)]))
    c.step()
    c.state(tuple(at))
    want = [k for _, k in sorted((a, k) for k, a in enumerate(at))][:-1]
    c.check(rc == 0 and [int(x) for x in out.split()] == want, lambda: "%r: exit %r deletes %r, not %r" % ([MOMENTS[a] for a in at], rc, out, want))


def sec_caches(c):
    """All but the newest of the caches with the prefix go, nothing else."""
    n = c.choose(6 if deep else 5)
    caches = []
    for k in range(n):
        caches.append({"id": (k * 7 + 3) % 11, "key": c.pick(["p-x", "p-y", "q-p-", "p"]), "createdAt": TIMES[c.choose(4 if deep else 3)]})
    rc, out, err = cli("cache_cleanup", ["p-"], json.dumps(caches))
    c.step()
    match = [x for x in caches if x["key"].startswith("p-")]
    got = [int(x) for x in out.split()]
    what = lambda: "%r: exit %r, deleted %r" % (caches, rc, got)
    c.check(rc == 0 and len(set(got)) == len(got) and set(got) <= {x["id"] for x in match}, what)
    kept = [x for x in match if x["id"] not in got]
    c.check(len(kept) == min(1, len(match)), what)
    if kept:
        c.check(kept[0]["createdAt"] == max(x["createdAt"] for x in match), what)
    order = [next(x["createdAt"] for x in caches if x["id"] == i) for i in got]
    c.check(order == sorted(order), lambda: "not oldest first: " + what())
    c.state((repr(caches)))


def sec_cache_usage(c):
    args = c.pick([[], ["a", "b"], ["a"]])
    data = c.pick(["[]", "{}", "1", "nonsense"])
    rc, out, err = cli("cache_cleanup", args, data)
    c.step()
    c.check((rc == 0) == (len(args) == 1 and data == "[]") and out == "" and (len(args) == 1 or rc == 2), "exit %r %s%s" % (rc, out, err))


def write(path, text):
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def metric(cov, total):
    return {"covered": cov, "total": total, "percent": round(100.0 * cov / total, 2) if total else None}


def metrics(k):
    return {"lines": metric(9 - k, 10), "functions": metric(k, 3), "branches": metric(k, 4 * k)}


class Page(html.parser.HTMLParser):
    """Tables as rows of (text, links), checked for matching tags."""

    def __init__(self):
        super().__init__()
        self.stack, self.rows, self.links, self.text, self.bad = [], [], [], "", []
        self.row_class = []

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "meta":
            return
        self.stack.append(tag)
        if tag == "tr":
            self.rows.append([])
            self.row_class.append(a.get("class"))
        if tag in ("td", "th"):
            self.rows[-1].append(["", []])
        if tag == "a":
            self.links.append(a["href"])
            if self.rows and self.rows[-1]:
                self.rows[-1][-1][1].append(a["href"])

    def handle_endtag(self, tag):
        if not self.stack or self.stack.pop() != tag:
            self.bad.append(tag)

    def handle_data(self, d):
        self.text += d
        if ("td" in self.stack or "th" in self.stack) and self.rows and self.rows[-1]:
            self.rows[-1][-1][0] += d


def page(path):
    p = Page()
    p.feed(open(path, encoding="utf-8").read())
    p.close()
    return p


def sec_newer(c):
    """A report may replace another exactly if its event is not older."""
    def meta(name):
        m = {"created": TIMES[c.choose(3)], "run": [5, 12, 100][c.choose(3)], "attempt": c.choose(2) + 1 if name == "a" else c.choose(3) + 1}
        write("sum.json", json.dumps({"measurements": {"overall": metrics(1)}}))
        rc, out, err = cli("coverage_index", ["metadata", "sum.json", "main", name, "--created-at", m["created"], "--started-at", TIMES[c.choose(2)], "--completed-at", TIMES[3], "--head-sha", "abcdef0123", "--run-attempt", str(m["attempt"]), "--run-id", str(m["run"])])
        c.check(rc == 0, lambda: err)
        got = json.load(open(name))
        c.check(got["target"] == "main" and got["coverage"] == metrics(1) and got["source"]["created_at"] == m["created"] and got["source"]["run_id"] == m["run"] and got["source"]["run_attempt"] == m["attempt"] and got["source"]["head_sha"] == "abcdef0123", lambda: "metadata %r" % got)
        return (m["created"], m["run"], m["attempt"])
    a, b = meta("a"), meta("b")
    c.step()
    ab, ba = cli("coverage_index", ["newer", "a", "b"])[0], cli("coverage_index", ["newer", "b", "a"])[0]
    c.check(ab == (0 if a >= b else 1) and ba == (0 if b >= a else 1), lambda: "%r %r: %r %r" % (a, b, ab, ba))
    c.state((a, b))


def sec_site(c):
    """The overview lists the newest report of every target: main, releases from the newest, requests from the newest."""
    root = os.path.abspath("site")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    dirs = ["main", "tag/1.9.0", "tag/1.10.0", "tag/0.12.3", "pr/9", "pr/10", "pr/123"]
    have = []
    for k, d in enumerate(dirs):
        if c.flip():
            run = 0 if k in (1, 4) and c.flip() else 7 + k
            m = {"schema": 1, "target": d, "coverage": metrics(k % 4), "source": {"created_at": TIMES[k % 3], "started_at": TIMES[0], "completed_at": "2026-09-01T0%d:30:00%s" % (k, ["Z", "+02:00"][k % 2]), "run_id": run, "run_attempt": 1 + k % 2, "head_sha": "abcdef01%d" % k}}
            write(os.path.join(root, d, "coverage-meta.json"), json.dumps(m))
            have.append((d, k, m))
    write(os.path.join(root, "other/x/coverage-meta.json"), "{}")
    rc, out, err = cli("coverage_index", ["site", root, "index.html"])
    c.step()
    c.check(rc == 0, lambda: "exit %r %s" % (rc, err))
    p = page("index.html")
    order = ["main", "tag/1.10.0", "tag/1.9.0", "tag/0.12.3", "pr/123", "pr/10", "pr/9"]
    want = sorted(have, key=lambda x: order.index(x[0]))
    rows = [r for r in p.rows if r and r[0][1]]
    what = lambda: "%r: rows %r" % ([d for d, _, _ in have], rows)
    c.check(not p.bad and not p.stack, lambda: "tags do not match " + repr(p.bad + p.stack))
    c.check([r[0][1][0].rstrip("/") for r in rows] == [d for d, _, _ in want], what)
    c.check(("No coverage reports" in p.text) == (not have), what)
    for r, (d, k, m) in zip(rows, want):
        kind, _, num = d.partition("/")
        c.check(r[0][0] == {"main": "main", "tag": "release " + num, "pr": "PR " + num}[kind], what)
        c.check(r[1][1][0].endswith({"main": "/tree/main", "tag": "/releases/tag/v" + num, "pr": "/pull/" + num}[kind]), what)
        if m["source"]["run_id"]:
            hour = k - 2 * (k % 2)
            stamp = "2026-09-01 %02d:30:00" % hour if hour >= 0 else "2026-08-31 %02d:30:00" % (24 + hour)
            c.check(r[2][0] == stamp + " UTC", what)
            c.check(r[3][0] == m["source"]["head_sha"][:7] and r[3][1][0].endswith("/commit/" + m["source"]["head_sha"]), what)
            c.check(r[4][1][0].endswith("/actions/runs/%d" % m["source"]["run_id"]) and ("attempt 2" in r[4][0]) == (k % 2 == 1), what)
        else:
            c.check([x[0] for x in r[2:5]] == ["n/a"] * 3 and not r[2][1] + r[3][1] + r[4][1], what)
        x = metrics(k % 4)
        c.check([y[0] for y in r[5:]] == ["n/a" if x[n]["percent"] is None else "%.2f%%" % x[n]["percent"] for n in ("lines", "functions", "branches")], what)
    c.state(tuple(d for d, _, _ in have))


def sec_duplicates(c):
    """Of several records of a target the newest counts, whatever the order they are found in."""
    root = os.path.abspath("dup")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    keys = []
    for k in range(3):
        key = (TIMES[c.choose(2)], [9, 10][c.choose(2)], 1 + c.choose(2))
        keys.append((key, k))
        write(os.path.join(root, "pr", str(k + 1), "coverage-meta.json"), json.dumps({"schema": 1, "target": "pr/7", "coverage": metrics(k), "source": {"created_at": key[0], "started_at": TIMES[0], "completed_at": TIMES[3 - k], "run_id": key[1], "run_attempt": key[2], "head_sha": "%d123456789" % k}}))
    rc, out, err = cli("coverage_index", ["site", root, "dup.html"])
    c.step()
    rows = [r for r in page("dup.html").rows if r and r[0][1]]
    best = max(k for k, _ in keys)
    c.check(rc == 0 and len(rows) == 1 and rows[0][3][0] in ["%d123456789"[:2].replace("%d", str(k)) + "123456" for key, k in keys if key == best], lambda: "%r: %r %s" % (keys, rows, err))
    c.state(tuple(keys))


def sec_report(c):
    """The page of a report shows every category, its state against floor and target, and leads back."""
    target = c.pick(["main", "tag/1.2.3", "pr/12", "a/b/<c>&"])
    cats = ["overall", "A & <B>"]
    measured = {n: {"lines": metric(c.choose(3) * 5, 10), "functions": metric(1, 2) if c.flip() else metric(0, 0), "branches": metric(3, 4)} for n in cats}
    minimums = {"overall": c.pick([{}, {"lines": 50}, {"lines": 60, "functions": 40}])}
    targets = {"overall": minimums["overall"], cats[1]: c.pick([{}, {"lines": 90, "branches": 70}])}
    minimums[cats[1]] = c.pick([{}, {"lines": 40, "functions": 60}, {"branches": 80}])
    summary = {"schema": 1, "measurements": measured, "minimums": minimums, "targets": targets}
    patch = c.choose(3)
    if patch:
        summary["patch"] = {"lines": metric(1, 3), "branches": metric(0, 0 if patch == 1 else 2)}
    write("s.json", json.dumps(summary))
    rc, out, err = cli("coverage_index", ["report", "s.json", target, "r.html"])
    c.step()
    c.check(rc == 0, lambda: "exit %r %s" % (rc, err))
    p = page("r.html")
    what = lambda: "%r %r: rows %r text %r" % (target, summary, p.rows, p.text[-300:])
    c.check(not p.bad and not p.stack, lambda: "tags do not match: " + what())
    c.check(("mbo coverage: " + target) in p.text, what)
    c.check("lcov/" in p.links and "../" * (target.count("/") + 1) in p.links, lambda: "links %r: %s" % (p.links, what()))
    for n in cats:
        at = [k for k, r in enumerate(p.rows) if r and r[0][0] == n]
        c.check(len(at) == 1, what)
        row, cls = [x[0] for x in p.rows[at[0]]], p.row_class[at[0]]
        cells, fail, low = [], "", ""
        for m in ("lines", "functions", "branches"):
            v = measured[n][m]
            cells += ["n/a" if v["percent"] is None else "%.2f%%" % v["percent"], str(v["covered"]), str(v["total"])]
            floor = minimums[n].get(m, 0)
            if v["percent"] is None or v["percent"] < floor:
                fail += "/" * bool(fail) + m[0].upper()
            elif v["percent"] < targets[n].get(m, floor):
                low += "/" * bool(low) + m[0].upper()
        c.check(row[2:] == cells, what)
        c.check(row[1] == ("FAIL: " + fail if fail else "LOW: " + low if low else "OK") and (cls is not None and "fail" in cls) == bool(fail), what)
    has = [r for r in p.rows if [x[0] for x in r] == (["33.33%", "n/a"] if patch == 1 else ["33.33%", "0.00%"])]
    c.check(len(has) == (1 if patch else 0), what)
    c.state((target, repr(summary)))


SECTIONS = {"caches": sec_caches, "moments": sec_moments, "cache_usage": sec_cache_usage, "newer": sec_newer, "site": sec_site, "duplicates": sec_duplicates, "report": sec_report}


def main(prop, tier, spec, work, repo, verif, replay, runmod):
    return mcpy.run(__name__, prop, tier, spec, work, repo, verif, replay, runmod, ())

#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the tables of DESIGN.md from catalog.py, props.py and seeded/."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import catalog  # noqa: E402
import props  # noqa: E402

assert set(props.PROPS) == set(catalog.C), set(props.PROPS) ^ set(catalog.C)
with open(V + "/properties.jsonl", "w") as f:
    for i, p in sorted(catalog.C.items()):
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        if p["observe"]:
            a["observe_at"] = p["observe"]
        n = p["statement"].replace("e.g.", "").count(". ") + 1
        assert n <= 3, (i, n)
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
for i, p in sorted(catalog.C.items()):
    checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                   "thorough_cmd": "python3 run.py %s --tier thorough" % i, "technique": p["tech"],
                   "level": props.PROPS[i]["level"], "level_note": p["note"] or "exhaustive within the stated bounds, on the real code"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": []},
          open(V + "/MANIFEST.json", "w"), indent=1)
def fill(text, marker, rows):
    """`text` with `rows` between the marker's comment and the next end comment."""
    start = text.index("<!-- %s -->" % marker)
    end = text.index("<!-- end -->", start)
    return text[:start] + "<!-- %s -->\n" % marker + "\n".join(rows) + "\n" + text[end:]


ENUM = "stateless bounded-exhaustive model checking: "
rows = ["| Id | Property | What is explored, against what |", "| --- | --- | --- |"]
for i, p in sorted(catalog.C.items()):
    tech = p["tech"][len(ENUM):] if p["tech"].startswith(ENUM) else p["tech"]
    rows.append("| %s | %s | %s |" % (i, p["title"].replace("|", "\\|"),
                                      (tech + ("; " + p["note"] if p["note"] else "")).replace("|", "\\|")))
design = fill(open(V + "/DESIGN.md").read(), "table", rows)
# Planted bugs which the checks missed at first, and were then strengthened to catch.
MISSED = {"tstring-rfind-first", "markdown-center-odd", "mope-ini-section-value", "log-exit-flush", "demangle-leak", "glob-extension-size", "release-same-tree", "assign-steals-lvalue", "mope-long-name"}
if os.path.isdir(V + "/seeded"):  # (the checks see no planted bugs)
    rows = ["| Planted bug | Caught by | What breaks | What it needs |", "| --- | --- | --- | --- |"]
    for b in sorted(os.listdir(V + "/seeded")):
        m = V + "/seeded/%s/meta.json" % b
        if os.path.exists(m):
            m = json.load(open(m))
            rows.append("| %s%s | %s | %s | %s |" % (b, "*" if b in MISSED else "", m["property"],
                                                   m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
    design = fill(design, "planted", rows)
open(V + "/DESIGN.md", "w").write(design)
print(len(checks), "properties")

"""Markdown tables: every document against a reading of its own."""
import io
import os
import re
from contextlib import redirect_stderr, redirect_stdout

from pychecks import mcpy
from pychecks.mcpy import Skip

tool = None
deep = False


def setup(repo, tier):
    global tool, deep
    tool = mcpy.load(repo, "align_markdown_tables")
    deep = tier == "thorough"


def cells_of(row):
    """The texts between unescaped pipes, without those at the ends."""
    cells, cur, k, row = [], "", 0, row.strip()
    while k < len(row):
        if row[k] == "\\" and k + 1 < len(row):
            cur += row[k:k + 2]
            k += 2
        elif row[k] == "|":
            cells.append(cur)
            cur = ""
            k += 1
        else:
            cur += row[k]
            k += 1
    ended = cur == "" and len(cells) > 0
    cells.append(cur)
    if row.startswith("|"):
        cells = cells[1:]
    if ended and len(cells) > 1:
        cells = cells[:-1]
    elif ended and row.startswith("|") and len(cells) == 1:
        pass  # a single pipe
    return [c.strip() for c in cells]


def is_delimiter(line):
    return "|" in line and all(re.fullmatch(r":?-+:?", c) for c in cells_of(line))


def fence_of(line):
    m = re.fullmatch(r" {0,3}(`{3,}|~{3,})(.*)", line.rstrip("\r"))
    return (m.group(1), m.group(2)) if m else None


def parts_of(lines):
    """Yields (first, end, is table)."""
    k, fence = 0, None
    while k < len(lines):
        f = fence_of(lines[k])
        if fence:
            if f and f[0][0] == fence[0] and len(f[0]) >= len(fence) and f[1].strip() == "":
                fence = None
            yield k, k + 1, False
            k += 1
            continue
        if f and not (f[0][0] == "`" and "`" in f[1]):
            fence = f[0]
            yield k, k + 1, False
            k += 1
            continue
        if "|" in lines[k] and k + 1 < len(lines) and not fence_of(lines[k + 1]) and is_delimiter(lines[k + 1]):
            e = k + 2
            while e < len(lines) and "|" in lines[e] and not fence_of(lines[e]):
                e += 1
            yield k, e, True
            k = e
            continue
        yield k, k + 1, False
        k += 1


def indent(s):
    return s[:len(s) - len(s.lstrip())]


def judge(c, text, out):
    """Whether out is the text with its tables aligned."""
    old, new = text.split("\n"), out.split("\n")
    show = lambda what: lambda: "%s:\n%r\nbecame\n%r" % (what, text, out)
    c.check(len(old) == len(new), show("lines appeared or vanished"))
    for b, e, table in parts_of(old):
        if not table:
            c.check(old[b] == new[b], show("line %d outside of tables changed" % b))
            continue
        rows = [cells_of(r) for r in old[b:e]]
        if len(rows[0]) != len(rows[1]) or len({indent(r) for r in old[b:e]}) > 1:
            raise Skip()
        cols = max(map(len, rows))
        rows = [r + [""] * (cols - len(r)) for r in rows]
        widths = [max([3] + [len(r[k]) for j, r in enumerate(rows) if j != 1]) for k in range(cols)]
        for j, r in enumerate(rows):
            line = new[b + j]
            c.check(line.endswith("\r") == old[b + j].endswith("\r"), show("line ending of line %d" % (b + j)))
            line = line.rstrip("\r")
            pos = len(indent(old[b]))
            c.check(line.startswith(indent(old[b]) + "|") and indent(line) == indent(old[b]), show("start of line %d" % (b + j)))
            for k in range(cols):
                cell = line[pos + 2:pos + 2 + widths[k]]
                good = line[pos:pos + 2] == "| " and line[pos + 2 + widths[k]:pos + 4 + widths[k]] == " |" and len(cell) == widths[k]
                mark = rows[1][k]
                left, right = mark.startswith(":"), mark.endswith(":")
                if j == 1:
                    good = good and cell == (":" if left else "-") + "-" * (widths[k] - 2) + (":" if right else "-")
                else:
                    good = good and cell.strip() == r[k]
                    before, after = len(cell) - len(cell.lstrip()), len(cell) - len(cell.rstrip())
                    if r[k]:
                        good = good and (after == 0 if right and not left else abs(before - after) <= 1 if right and left else before == 0)
                c.check(good, show("cell %d of line %d is %r" % (k, b + j, cell)))
                pos += 3 + widths[k]
            c.check(len(line) == pos + 1, show("end of line %d" % (b + j)))


def aligned(c, text):
    out = tool.align_text(text)
    c.step()
    judge(c, text, out)
    again = tool.align_text(out)
    c.check(again == out, lambda: "aligning again changes %r to %r" % (out, again))
    c.state(out)
    c.sample("%r -> %r" % (text, out))
    return out


def sec_header(c):
    row = "".join(c.pick("| a\\") for _ in range(c.choose(8 if deep else 7)))
    if "|" not in row:
        raise Skip()
    n = len(cells_of(row))
    marks = c.pick(["-", ":-", "-:", ":---:"])
    outer = c.flip()
    delim = "|".join([marks] * n)
    if outer or n == 1:
        delim = "|" + delim + "|"
    aligned(c, indent(row) + row.strip() + "\n" + indent(row) + delim + "\n" + indent(row) + "|b|")


def sec_body(c):
    row = "".join(c.pick("| a\\:-") for _ in range(c.choose(7 if deep else 6)))
    if "|" not in row:
        raise Skip()
    marks = c.pick(["---|---", "|:-|-:|", "|-|:-:|", "|-:|-|:-|"])
    head = "|".join("h" * (k + 1) for k in range(len(cells_of(marks))))
    aligned(c, head + "\n" + marks + "\n" + row.strip() + "\nend")


def sec_wide(c):
    """Cells of all widths, many columns, many rows."""
    w = 1 + c.choose(200 if deep else 100)
    marks = c.pick(["-", ":-", "-:", ":-:", "-" * w, ":" + "-" * w + ":"])
    cell = c.pick(["x" * w, "x " * (w // 2) + "y", "\\|" * w, "é" * w])
    other = c.pick(["", "z", "z" * (w - 1), "zz"])
    cols = c.pick([1, 2, 9])
    rows = c.pick([1, 2, 25])
    at = c.choose(rows) if rows < 25 else c.pick([0, 9, 24])
    body = ["|" + "|".join(cell if r == at and k == cols - 1 else other for k in range(cols)) + "|" for r in range(rows)]
    aligned(c, "|" + "|".join("h" * (1 + k % 3) for k in range(cols)) + "|\n|" + "|".join([marks] * cols) + "|\n" + "\n".join(body) + "\n")


POOL = ["", "text", "| a | b |", "|-|-|", "|:-:|--:|", "c | dddd", "```", "~~~", "````", "```cpp", "   ~~~~ ", "| \\| |\\\\|", "x|", "```a```"]


def sec_documents(c):
    n = c.choose(6 if deep else 5) + 1
    lines = [c.pick(POOL) for _ in range(min(n, 4))]
    if n > 4:
        lines += [c.pick(POOL) for _ in range(n - 4)]
    aligned(c, "\n".join(lines))


def sec_indented(c):
    ind = c.pick(["  ", "    ", "\t"])
    rows = [c.pick(["a|b", "| a | b |", "|a|b", "a|b|"]), c.pick(["-|-", "|:-:|--:|"])] + [c.pick(["ccccc|d", "|e|ff|", "|g|"]) for _ in range(c.choose(3))]
    cr = c.choose(2)
    tail = c.pick(["", " ", "  "])
    aligned(c, "\n".join(["para", ""] + [ind + r + tail + ("\r" if cr else "") for r in rows] + [""]))


UNALIGNED = b"x\n| a | bb |\n|-|-|\n|ccc|d|\n"
ALIGNED = b"x\n| a   | bb  |\n| --- | --- |\n| ccc | d   |\n"
FILES = [("aligned", ALIGNED, 0), ("unaligned", UNALIGNED, 1), ("crlf", UNALIGNED.replace(b"\n", b"\r\n"), 1), ("crlf aligned", ALIGNED.replace(b"\n", b"\r\n"), 0),
         ("unterminated", UNALIGNED[:-1], 1), ("empty", b"", 0), ("not utf8", b"\xff\n" + UNALIGNED, 2), ("missing", None, 2), ("utf8", "é|b\n-|-\nü|dd\n".encode(), 1), ("cr inside", b"a\rb\n" + UNALIGNED, 1)]


def sec_files(c):
    n = c.choose(4)
    which = [c.pick(FILES) for _ in range(n)]
    check = c.flip()
    paths = []
    for k, (_, data, _) in enumerate(which):
        p = "f%d.md" % k
        if os.path.exists(p):
            os.unlink(p)
        if data is not None:
            with open(p, "wb") as f:
                f.write(data)
        paths.append(p)
    err = io.StringIO()
    try:
        with redirect_stderr(err), redirect_stdout(io.StringIO()):
            rc = tool.main((["--check"] if check else []) + paths)
    except SystemExit as e:
        rc = e.code
    except Exception as e:  # a traceback: exit status 1
        rc = "exception %r" % e
    c.step()
    want = 2 if any(w == 2 for _, _, w in which) else 1 if any(w == 1 for _, _, w in which) else 0
    names = [x for x, _, _ in which]
    c.check(rc == want, "%s check=%s: exit %s instead of %s" % (names, check, rc, want))
    failed = False
    for p, (name, data, w) in zip(paths, which):
        failed |= w == 2
        if data is None:
            c.check(not os.path.exists(p), "%s: created" % name)
            continue
        with open(p, "rb") as f:
            now = f.read()
        if check or w != 1:
            c.check(now == data, "%s: changed to %r" % (name, now))
        elif not failed or now != data:
            judge(c, data.decode(), now.decode())
            c.check(now != data, "%s: not changed" % name)
        if want != 2:
            c.check((p in err.getvalue()) == (w == 1), "%s: reported wrongly: %s" % (name, err.getvalue()))
    c.state((names, check))


SECTIONS = {"header": sec_header, "body": sec_body, "wide": sec_wide, "documents": sec_documents, "indented": sec_indented, "files": sec_files}


def main(prop, tier, spec, work, repo, verif, replay, runmod):
    return mcpy.run(__name__, prop, tier, spec, work, repo, verif, replay, runmod, ())

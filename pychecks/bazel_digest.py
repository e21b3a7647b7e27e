"""verify_digest_test: the test that the rule generates is run over all small sets of files, digests and damage."""
import hashlib
import os
import subprocess

from pychecks import bazel_tools, mcpy
from pychecks.bazel_tools import bazel
from pychecks.mcpy import Skip

REPO = None
deep = False
ALGS = {"md5": None, "sha1": None, "sha224": None, "sha256": None, "sha384": None, "sha512": None, "sha512-224": "sha512_224", "sha512-256": "sha512_256", "sha3-224": "sha3_224",
        "sha3-256": "sha3_256", "sha3-384": "sha3_384", "sha3-512": "sha3_512", "shake128": 32, "shake256": 32, "blake2b": None, "blake2b-256": 0}


def setup(repo, tier):
    global REPO, deep
    REPO, deep = repo, tier == "thorough"


def digest(alg, data):
    how = ALGS[alg]
    if how == 0:
        return hashlib.blake2b(data, digest_size=32).hexdigest()
    if alg.startswith("shake"):
        return {"shake128": hashlib.shake_128, "shake256": hashlib.shake_256}[alg](data).hexdigest(how)
    return hashlib.new(how or alg, data).hexdigest()


PLACES = [("pkg/f%d.txt", "", False), ("pkg/f%d.bin", "", True), ("lib/f%d", "repo+", False), ("f%d", "", False), ("pkg/a b%d.txt", "", False), ("pkg/it's $x%d", "", False)]
# The state of one entry, and whether the test may pass.
STATES = [("good", True), ("changed", False), ("gone", False), ("flipped digit", False), ("upper case", True), ("short", False), ("not hex", False), ("empty", False), ("appended newline", False)]
SIDE = [("two files", True), ("two files, second changed", False), ("two files, first changed", False), ("binary mark", True), ("sidecar gone", False), ("no final newline", True)]


def entry(c, w, k, alg, place, form, state, given, drop):
    text = b"contents %d\n" % k
    name, repo, gen = place
    f = (w.generated if gen else w.source)(name % k, text if state not in ("changed", "appended newline") else b"contents!\n" if state == "changed" else text + b"\n", repo)
    h = digest(alg, text)
    if state == "flipped digit":
        h = h[:-1] + ("0" if h[-1] != "0" else "1")
    elif state == "upper case":
        h = h.upper()
    elif state == "short":
        h = h[:-2]
    elif state == "not hex":
        h = h[:-1] + "g"
    elif state == "empty":
        h = ""
    if state == "gone":
        drop.append(f)
    if form == "inline":
        given.setdefault("checksums", {})[f] = h
        return
    line = "%s  %s" % (h, f.short_path)
    if state == "binary mark":
        line = "%s *%s" % (h, f.short_path)
    if state.startswith("two files"):
        other = w.source("pkg/other%d" % k, b"other" if "changed" not in state else b"changed")
        given.setdefault("digests_extra", []).append(other)
        line2 = "%s  %s" % (digest(alg, b"other"), other.short_path)
        line = line2 + "\n" + line if "first" in state else line + "\n" + line2
    where = name % k
    side = where + ".sum" if "$" in name else os.path.join(os.path.dirname(where), "s%d.sum" % k)
    s = (w.generated if gen else w.source)(side, b"" if state == "empty" else (line + ("" if state == "no final newline" else "\n")).encode(), repo)
    if state == "sidecar gone":
        drop.append(s)
    given.setdefault("digests", {})[f] = s


def verify(c, w, given, drop, alg):
    extra = given.pop("digests_extra", [])
    w.tool("//mbo/digest:digest", bazel_tools.exe["digest"], "mbo/digest/digest")
    if alg != "sha256":
        given["algorithm"] = alg
    w.load("mbo/digest/digest.bzl")["verify_digest_test"](name="t", **given)
    rf = w.targets["t"][0].runfiles.files
    rf.items = [f for f in rf.items if f not in drop]
    rc, out, err = w.run_test("t", "dir", tuple((f.runfile, os.path.join(w.root, f.path)) for f in extra))
    c.step()
    return rc, (out + err).decode(errors="replace")


def sec_entries(c):
    """Every mix of entries in every state: the test passes exactly if all are good."""
    n = 1 + c.choose(3 if deep else 2)
    w = bazel_tools.world(REPO)
    given, drop, what, want = {}, [], [], True
    for k in range(n):
        form = c.pick(["inline", "sidecar"])
        state, good = c.pick(STATES + SIDE if form == "sidecar" else STATES)
        place = PLACES[k % 3]
        want = want and good
        what.append((form, state))
        entry(c, w, k, "sha256", place, form, state, given, drop)
    rc, text = verify(c, w, given, drop, "sha256")
    c.state((tuple(what), rc))
    c.check((rc == 0) == want, lambda: "%r: exit %r: %s" % (what, rc, text[-300:]))


def sec_algorithms(c):
    """All algorithms; a digest of another algorithm does not count."""
    alg, made = c.pick(sorted(ALGS)), c.pick(sorted(ALGS))
    form = c.pick(["inline", "sidecar"])
    good = c.flip()
    w = bazel_tools.world(REPO)
    given, drop = {}, []
    entry(c, w, 0, made, PLACES[0], form, "good" if good else "changed", given, drop)
    rc, text = verify(c, w, given, drop, alg)
    c.state((alg, made, form, good, rc))
    c.check((rc == 0) == (good and alg == made), lambda: "made with %s, checked with %s, %s: exit %r: %s" % (made, alg, "unchanged" if good else "changed", rc, text[-300:]))


def sec_places(c):
    """Wherever the files are and whatever they are called."""
    pa, pb = c.pick(PLACES), c.pick(PLACES)
    forms = c.pick(["inline", "sidecar"]), c.pick(["inline", "sidecar"])
    states = c.pick(["good", "changed"]), c.pick(["good", "changed"])
    w = bazel_tools.world(REPO)
    given, drop = {}, []
    for k, p in enumerate((pa, pb)):
        entry(c, w, k, "sha256", p, forms[k], states[k], given, drop)
    rc, text = verify(c, w, given, drop, "sha256")
    c.state((pa, pb, forms, states, rc))
    c.check((rc == 0) == (states == ("good", "good")), lambda: "%r %r %r %r: exit %r: %s" % (pa, pb, forms, states, rc, text[-300:]))


def sec_nothing(c):
    """Nothing to verify is refused when the test is declared."""
    w = bazel_tools.world(REPO)
    given = c.pick([{}, {"digests": {}}, {"checksums": {}}, {"digests": {}, "checksums": {}}])
    try:
        w.tool("//mbo/digest:digest", bazel_tools.exe["digest"], "mbo/digest/digest")
        w.load("mbo/digest/digest.bzl")["verify_digest_test"](name="t", **given)
        refused = False
    except bazel.Fail:
        refused = True
    c.step()
    c.state(repr(given))
    c.check(refused, "a test of nothing is accepted")


SECTIONS = {"entries": sec_entries, "algorithms": sec_algorithms, "places": sec_places, "nothing": sec_nothing}


def main(prop, tier, spec, work, repo, verif, replay, runmod):
    bazel_tools.build(["digest"], work, runmod)
    return mcpy.run(__name__, prop, tier, spec, work, repo, verif, replay, runmod, ())

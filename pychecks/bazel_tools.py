"""Common parts of the checks of the build rules: the commands built from the tree, and scratch workspaces."""
import os
import shutil
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import bazel  # noqa: E402

exe = {}


def build(names, work, runmod):
    """Builds the commands from the tree under test; later, forked jobs find them in `exe`."""
    import concurrent.futures as cf
    props = sys.modules.get("props") or __import__("props")
    mains = {"diff": ["mbo/diff/diff_main.cc"] + props.DIFF + props.FILE + ["mbo/diff/internal/update_absl_log_flags.cc", "mbo/strings/indent.cc"],
             "digest": ["mbo/digest/digest_main.cc", "mbo/digest/checksum.cc", "mbo/strings/indent.cc"],
             "mope": ["mbo/mope/mope_main.cc"] + props.MOPE + ["mbo/strings/indent.cc"],
             "hash_tool": ["mbo/hash/hash_tool.cc"]}
    bins = [runmod.Bin(n, ["harness/tool.cc"], repo=mains[n], san=False, opt="-O1", libs=["-l:libre2.so.10"]) for n in names]
    try:
        with cf.ThreadPoolExecutor(8) as pool:
            exe.update(runmod.build(bins, work, pool))
    except runmod.BuildError as e:
        print("build error: %s" % (e.text[:1500],))
        raise SystemExit(2)


def world(repo, **kw):
    """A fresh workspace in the current directory, which belongs to this job alone."""
    root = os.path.abspath("ws")
    if os.path.isdir(root):
        shutil.rmtree(root)
    return bazel.World(repo, root, **kw)

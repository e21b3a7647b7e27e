from run import Bin

PROPS = {}


def prop(pid, **kw):
    kw.setdefault("level", "model_checking")
    PROPS[pid] = kw


prop("D01", bins=[
    Bin("oneshot", ["harness/digest_oneshot.cc"], absl=False, libs=["-lcrypto"], opt="-O2"),
    Bin("big", ["harness/digest_big.cc"], absl=False, libs=["-lcrypto"], san=False, opt="-O2"),
])
prop("D02", bins=[Bin("stream", ["harness/digest_stream.cc"], absl=False, libs=["-lcrypto"], opt="-O1", san="address")])
prop("D03", bins=[Bin("hmac", ["harness/digest_hmac.cc"], absl=False, libs=["-lcrypto"], opt="-O1", san="address")])
prop("D04", bins=[Bin("keyed", ["harness/digest_keyed.cc"], absl=False, libs=["-lcrypto"], opt="-O1", san="address")])
prop("D05", bins=[Bin("line", ["harness/checksum_line.cc"], repo=["mbo/digest/checksum.cc"], absl=False)])
prop("D06", bins=[Bin("cli", ["harness/digest_cli.cc"], repo=["mbo/digest/checksum.cc", "mbo/strings/indent.cc"], libs=["-lcrypto", "-ldl"], san=False)])
prop("H01", bins=[Bin("canon", ["harness/hash_canon.cc"], absl=False, libs=["-l:libxxhash.so.0"], opt="-O2")])
prop("H03", bins=[Bin("stream", ["harness/hash_stream.cc"], absl=False, opt="-O1", san="address")])
prop("H04", bins=[Bin("influence", ["harness/hash_influence.cc"], absl=False, opt="-O2", san="address")])
prop("H05", bins=[Bin("derived", ["harness/hash_derived.cc"], absl=False)])
prop("H06", bins=[Bin("constexpr", ["harness/hash_constexpr.cc"], absl=False, san=False,
                      flags=["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000"])])
prop("H02", bins=[Bin("bzl", ["harness/hash_bzl.cc"], absl=False, san=False, prep="hash_bzl")])
prop("H07", bins=[Bin("mangle", ["harness/hash_mangle.cc"], absl=False, san=False, prep="mangle")])
prop("H08", bins=[Bin("cli", ["harness/hash_cli.cc"])])
prop("D07", bins=[Bin("constexpr", ["harness/digest_constexpr.cc"], absl=False, san=False, libs=["-lcrypto"],
                      flags=["-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=10000000"])])
prop("T01", bins=[Bin("compare", ["harness/types_compare.cc"], absl=False, san=False, opt="-O1")])
prop("T02", bins=[Bin("wrap", ["harness/types_wrap.cc"])])
prop("T03", bins=[Bin("search", ["harness/types_search.cc"], absl=False, san=False, opt="-O0")])
prop("S01", bins=[Bin("contains", ["harness/strings_contains.cc"], absl=False, opt="-O1")])
prop("T04", bins=[Bin("%s%d" % (cxx.strip("+"), k), ["harness/types_decompose.cc"], absl=False, san=False, opt="-O0",
                     cxx=cxx, defines=["PART=%d" % k], shards=1) for k in (4, 3, 0, 1, 2, 5) for cxx in ("g++", "clang++")])
prop("T05", bins=[Bin("traits_g", ["harness/types_traits.cc"], absl=False, san=False, opt="-O0", shards=1),
                  Bin("traits_clang", ["harness/types_traits.cc"], absl=False, san=False, opt="-O0", shards=1, cxx="clang++"),
                  Bin("view", ["harness/types_view.cc"], absl=False, san=True)])
prop("L01", bins=[Bin("scoped", ["harness/log_scoped.cc"], absl=False, san=False, opt="-O0")])
prop("L03", bins=[Bin("timing_" + x.strip("+"), ["harness/log_timing.cc"], repo=["mbo/log/log_timing.cc"], san="address", cxx=x) for x in ("g++", "clang++")])
prop("L02", bins=[Bin("demangle", ["harness/log_demangle.cc"], repo=["mbo/log/demangle.cc"], absl=False, libs=["-ldl"], san="address")])
prop("C01", bins=[Bin("vector", ["harness/container_vector.cc"], san="address,undefined",
                      flags=["-fconstexpr-ops-limit=2000000000"])])
prop("C02", bins=[Bin(n, ["harness/container_ordered.cc"], defines=["PART=%d" % k], opt="-O0", san="address",
                      flags=["-fconstexpr-ops-limit=2000000000"]) for n, k in (("set", 0), ("map", 1), ("make", 3))]
     + [Bin("lookup%d" % u, ["harness/container_ordered.cc"], defines=["PART=2", "UNROLL=%d" % u], unroll=u,
            opt="-O0", san=False) for u in (16, 4, 32)])
prop("C03", bins=[Bin("raise", ["harness/container_limits.cc"], opt="-O0", san=False, throws=True, defines=["MODE_THROWS=1"]),
                  Bin("end", ["harness/container_limits.cc"], opt="-O0", san=False, throws=False, defines=["MODE_THROWS=0"])])
prop("C04", bins=[Bin("scan", ["harness/container_scan.cc"], opt="-O0")])
prop("C05", bins=[Bin("convert", ["harness/container_convert.cc"], opt="-O0")])
prop("S02", bins=[Bin("parse", ["harness/strings_parse.cc"], repo=["mbo/strings/parse.cc"], opt="-O1")])
prop("S03", bins=[Bin("text", ["harness/strings_text.cc"], repo=["mbo/strings/parse.cc", "mbo/strings/indent.cc", "mbo/strings/strip.cc"], opt="-O1",
                      defines=["PART=0"])])
prop("S04", bins=[Bin("text", ["harness/strings_text.cc"], repo=["mbo/strings/parse.cc", "mbo/strings/indent.cc", "mbo/strings/strip.cc"], opt="-O1", defines=["PART=1"])])
MOPE = ["mbo/mope/mope.cc", "mbo/mope/ini.cc", "mbo/file/ini/ini_file.cc", "mbo/file/file.cc", "mbo/file/artefact.cc", "mbo/strings/parse.cc", "mbo/status/status_builder.cc"]
prop("M01", bins=[Bin("expand", ["harness/mope_expand.cc"], repo=MOPE, libs=["-l:libre2.so.10"], san="address,undefined", opt="-O1")])
prop("M02", bins=[Bin("api", ["harness/mope_api.cc"], repo=MOPE, libs=["-l:libre2.so.10"], san="address,undefined", opt="-O1")])
prop("M03", bins=[Bin("cli", ["harness/mope_cli.cc"], repo=MOPE, libs=["-l:libre2.so.10"], san="address,undefined", opt="-O1")])
FILE = ["mbo/file/file.cc", "mbo/file/artefact.cc"]
prop("F01", bins=[Bin("paths", ["harness/file_paths.cc"], repo=FILE, opt="-O1")])
prop("F02", bins=[Bin("contents", ["harness/file_contents.cc"], repo=FILE, san=False, opt="-O1", libs=["-ldl"])])
prop("F03", bins=[Bin("ini", ["harness/file_ini.cc"], repo=FILE + ["mbo/file/ini/ini_file.cc", "mbo/status/status_builder.cc"], opt="-O1")])
prop("F04", bins=[Bin("pattern", ["harness/file_glob_pattern.cc"], repo=FILE + ["mbo/file/glob.cc", "mbo/status/status_builder.cc"], opt="-O1", san=False, libs=["-l:libre2.so.10"])])
GLOB = FILE + ["mbo/file/glob.cc", "mbo/status/status_builder.cc"]
prop("F05", bins=[Bin("walk", ["harness/file_glob_walk.cc"], repo=GLOB, opt="-O1", san=False, libs=["-l:libre2.so.10", "-ldl"])])
prop("F06", bins=[Bin("glob", ["harness/file_glob_cli.cc"], repo=GLOB, opt="-O1", san=False, libs=["-l:libre2.so.10"])])
DIFF = ["mbo/diff/base_diff.cc", "mbo/diff/chunked_diff.cc", "mbo/diff/diff.cc", "mbo/diff/diff_options.cc", "mbo/diff/internal/chunk.cc", "mbo/diff/internal/data.cc", "mbo/diff/internal/output.cc",
        "mbo/diff/impl/diff_direct.cc", "mbo/diff/impl/diff_naive.cc", "mbo/diff/impl/diff_myers.cc", "mbo/strings/strip.cc", "mbo/strings/parse.cc", "mbo/status/status_builder.cc"]
prop("G01", bins=[Bin("script", ["harness/diff_script.cc"], repo=DIFF, opt="-O1", libs=["-l:libre2.so.10"])])
prop("G02", bins=[Bin("formats", ["harness/diff_script.cc"], repo=DIFF, opt="-O2", san=False, libs=["-l:libre2.so.10"], defines=["VIEWS"])])
prop("G03", bins=[Bin("ignore", ["harness/diff_ignore.cc"], repo=DIFF, opt="-O2", san=False, libs=["-l:libre2.so.10"])])
prop("G04", bins=[Bin("cli", ["harness/diff_cli.cc"], repo=DIFF + FILE + ["mbo/diff/internal/update_absl_log_flags.cc", "mbo/strings/indent.cc"], opt="-O1", san=False, libs=["-l:libre2.so.10"])])

JSON = ["mbo/log/demangle.cc", "mbo/types/stringify.cc"]
prop("J01", bins=[Bin("tree", ["harness/json_tree.cc"], repo=JSON, opt="-O2", san="address")])
prop("J02", bins=[Bin("values", ["harness/json_values.cc"], repo=JSON, opt="-O1", san=False, flags=["-DORDER"])])
prop("J03", bins=[Bin("values", ["harness/json_values.cc"], repo=JSON, opt="-O1", san=False)])
prop("J04", bins=[Bin("misuse", ["harness/json_misuse.cc"], repo=JSON, opt="-O0", throws=True)])
STRINGIFY = ["mbo/types/stringify.cc"]
_ST_PARTS = [(0, 4), (4, 6), (6, 8), (8, 16), (16, 22)]
for _pid, _part in (("T06", ["PART_JSON"]), ("T07", [])):
    prop(_pid, bins=[Bin("p%d_%s" % (lo, cxx.strip("+")), ["harness/stringify_text.cc"], repo=STRINGIFY, opt="-O0", san=False,
                         defines=_part + ["TYPES_LO=%d" % lo, "TYPES_HI=%d" % hi], cxx=cxx) for lo, hi in _ST_PARTS for cxx in ("g++", "clang++")])
prop("T08", bins=[Bin("fields_" + cxx.strip("+"), ["harness/stringify_fields.cc"], repo=STRINGIFY, opt="-O0", san=False, cxx=cxx) for cxx in ("g++", "clang++")])
prop("T09", bins=[Bin(n, ["harness/stringify_ostream.cc"], repo=STRINGIFY + ["mbo/types/stringify_ostream.cc"], opt="-O1", san=False, flags=["-fsanitize=thread"],
                      env={"TSAN_OPTIONS": "halt_on_error=0:exitcode=0:suppress_equal_stacks=0:report_thread_leaks=0"},
                      defines=['VERIF_SHIM_MUTEX_HEADER="lib/sched.h"', "VERIF_SHIM_MUTEX_IMPL=verif::Sched::Mutex"] + d) for n, d in (("ostream", []), ("first", ["PART_FIRST"]))])

_STATUS = ["mbo/status/status_builder.cc"]
prop("U01", bins=[Bin("builder", ["harness/status_builder.cc"], repo=_STATUS)])
prop("U02", bins=[Bin("macros_" + x.strip("+"), ["harness/status_macros.cc"], repo=_STATUS, cxx=x) for x in ("g++", "clang++")])
prop("U03", bins=[Bin("matchers%d" % k, ["harness/testing_matchers.cc"], repo=_STATUS + ["mbo/strings/indent.cc"], opt="-O0", san="address", gtest=True, defines=["PART=%d" % k], libs=["-lgmock", "-lgtest"]) for k in (0, 1)])
prop("T10", bins=[Bin("optional_" + x.strip("+"), ["harness/types_optional.cc"], opt="-O1", san="address", cxx=x) for x in ("g++", "clang++")])
prop("T11", bins=[Bin("tstring%d_%s" % (k, x.strip("+")), ["harness/types_tstring.cc"], opt="-O0", san=False, absl=False, cxx=x, defines=["PART=%d" % k]) for k in (0, 1) for x in ("g++", "clang++")])
prop("T12", bins=[Bin("opaque_" + x.strip("+"), ["harness/types_opaque.cc"], opt="-O1", san="address", throws=True, cxx=x) for x in ("g++", "clang++")])
prop("T13", bins=[Bin("extend_" + x.strip("+"), ["harness/types_extend.cc"], repo=STRINGIFY, opt="-O0", san=False, cxx=x) for x in ("g++", "clang++")])
prop("P01", py="markdown")
prop("P02", py="coverage_gate")
prop("P03", py="build_lints")
prop("P04", py="retention")
prop("B01", py="bazel_diff")
prop("B02", py="bazel_digest")
prop("B03", py="bazel_mope")
prop("B04", py="bazel_config")
prop("B05", py="bazel_hash")
prop("P05", py="gates")
prop("P06", py="release")
prop("P07", py="clang_gates")

"""Data a harness compares the C++ code with, computed by running the repository's Starlark/Python code."""
import os
import re
import struct
import concurrent.futures as cf
import gen_headers


def _msg(n, salt=0):
    return [(((i + salt) * 0x9E3779B1 + salt) & 0xFFFFFFFF) >> 13 & 0xFF for i in range(n)]


def _ascii(n, salt=0):
    return "".join(chr(32 + ((i * 7 + salt) % 95)) for i in range(n))


def _hash_rows(args):
    algo, lengths, seeds = args
    out = []
    try:
        h = gen_headers.starlark(gen_headers.REPO + "/mbo/hash/hash.bzl")["hash"]
        fn = getattr(h, algo)
    except Exception as e:  # noqa: BLE001
        return [(algo, "-", "-", "-", "error:" + type(e).__name__)]
    for n in lengths:
        inputs = [("m", _msg(n)), ("z", [0] * n), ("f", [255] * n), ("a", _ascii(n)), ("b", [ord(x) for x in _ascii(n)])]
        for kind, data in inputs:
            for s in seeds:
                try:
                    v = fn(data) if s == "-" else fn(data, s)
                    v = "%d" % v
                except Exception as e:  # noqa: BLE001
                    v = "error:" + type(e).__name__
                out.append((algo, kind, n, s, v))
    return out


def hash_bzl(work, repo, tier):
    lengths = list(range(0, 301)) + [n * 128 + d for n in (3, 4, 5, 6, 7, 8, 9, 16, 17, 32) for d in (-1, 0, 1)] + [400, 600, 5000]
    if tier == "thorough":
        lengths = list(range(0, 1200)) + [n * 128 + d for n in range(9, 33) for d in (-1, 0, 1)] + [5000, 8192]
    seeds = ["-", 0, 1, 5381, (1 << 63) | 1, (1 << 64) - 1]
    path = os.path.join(work, "bzl.txt")
    jobs = [(a, lengths[i::4], seeds) for a in ("dumbo", "mumbo", "fnv1a") for i in range(4)]
    with cf.ProcessPoolExecutor(8) as ex, open(path, "w") as f:
        for rows in ex.map(_hash_rows, jobs):
            for r in rows:
                f.write(" ".join(map(str, r)) + "\n")
    return {"MC_DATA": path}


def mangle(work, repo, tier):
    """One line per configuration: version|seed|buckets|constant|constant in the generated header."""
    path = os.path.join(work, "mangle.txt")
    versions = ["", "0.1.0", "0.15.0", "1.2.3-rc1", "1.2.3"]
    seeds = ["", "user", "2026-01-01", "a b~!", "x" * 40]
    buckets = [0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 100, 1000, 65536, (1 << 31) - 1]
    if tier == "thorough":
        versions += ["%d.%d.%d" % (a, b, c) for a in range(3) for b in range(12) for c in range(3)]
        seeds += ["s%d" % i for i in range(60)]
    with open(path, "w") as f:
        bzl = gen_headers.starlark(repo + "/mbo/hash/hash.bzl")
        for v in versions:
            for s in seeds:
                for b in buckets:
                    line = "%s|%s|%d|" % (v, s, b)
                    outs = []

                    class Ctx:
                        class attr:
                            version = v
                            _mangle_seed = {0: type("V", (), {"value": s})}
                            _mangle_seed_buckets = {0: type("V", (), {"value": b})}

                        class outputs:
                            output = "o"

                        class actions:
                            @staticmethod
                            def write(output, content):
                                outs.append(content)

                    try:
                        gen = gen_headers.starlark(repo + "/mbo/hash/internal/hash_mangle_seed.bzl", hash=bzl["hash"], BuildSettingInfo=0)
                        const = gen["mangle_constant"](v, s, b)
                        gen["_mangle_seed_gen_impl"](Ctx)
                        text = re.sub(r"//.*", "", outs[0])
                        m = re.search(r"kMangleConstant\s*=\s*(0x[0-9A-Fa-f]+)ULL\s*;", text)
                        f.write(line + "%d|%d\n" % (const, int(m.group(1), 16)))
                    except Exception as e:  # noqa: BLE001
                        f.write(line + "error:%s|0\n" % type(e).__name__)
        for b in (-1, -7):
            try:
                c = gen_headers.starlark(repo + "/mbo/hash/internal/hash_mangle_seed.bzl", hash=bzl["hash"])["mangle_constant"]("v", "s", b)
                f.write("v|s|%d|%d|%d\n" % (b, c, c))
            except Exception:  # noqa: BLE001
                f.write("v|s|%d|error|0\n" % b)
        try:
            c = gen_headers.starlark(repo + "/mbo/hash/internal/hash_mangle_seed.bzl", hash=bzl["hash"])["mangle_constant"]("v", "tab\t", 3)
            f.write("v|tab|-3|%d|0\n" % c)
        except Exception:  # noqa: BLE001
            f.write("v|tab|-3|error|0\n")
    return {"MC_DATA": path}

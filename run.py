#!/usr/bin/env python3
"""Runs one check:  run.py <property> [--tier quick|thorough] [--replay FILE]

Builds the property's harnesses from /repo's working tree, explores their choice trees with 8
shard processes, replays what fails, and writes evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1: a line VIOLATION property=<id> replay=<path>.
Exit 2: the check itself could not run.
"""
import argparse
import array
import concurrent.futures as cf
import importlib
import json
import mmap
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import gen_headers  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "g++"
CPUS = min(8, os.cpu_count() or 8)
SLOT_HDR = struct.Struct("<QIIII")
MAXC, DETAIL = 2048, 2000
SLOT_SIZE = SLOT_HDR.size + 4 * MAXC + DETAIL
SLOT_SIZE = (SLOT_SIZE + 7) // 8 * 8
SHARED_HDR = 16

BASE_FLAGS = ["-std=c++20", "-w", "-ftemplate-depth=4096", "-pthread", "-pipe"]


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    def __init__(self, what, text):
        super().__init__(what)
        self.what, self.text = what, text


class Bin:
    """One harness binary."""

    def __init__(self, name, tus, repo=(), flags=(), libs=(), san=True, opt="-O1", throws=True, absl=True, gtest=False,
                 only=None, must_compile=True, shards=CPUS, cxx=CXX, hang=60, env=None, unroll=None, defines=(),
                 tier=None, ldflags=(), prep=None):
        self.__dict__.update(locals())


def flags_for(b, gen):
    f = list(BASE_FLAGS) + [b.opt, "-g1", "-iquote", REPO, "-iquote", gen, "-iquote", VERIF]
    if b.absl:
        f += ["-isystem", os.path.join(VERIF, "shim")]
    if b.gtest:
        f += ["-isystem", "/usr/src/googletest/googletest/include", "-isystem", "/usr/src/googletest/googlemock/include"]
    if b.san:
        s = b.san if isinstance(b.san, str) else "address,undefined"
        f += ["-fsanitize=" + s, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
        if "undefined" in s:
            # -fsanitize=null etc. stay on; vptr needs rtti of everything, object-size needs -O2 inlining: off.
            f += ["-fno-sanitize=vptr,object-size"]
    f += ["-D" + d for d in b.defines]
    return f + list(b.flags)


def compile_one(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError(what, " ".join(cmd) + "\n" + r.stdout[:3000])


def in_harness(b, src, work):
    """Whether a source failed to compile for what it does, not for the headers it includes (nor when linking)."""
    if src not in [os.path.join(VERIF, t) for t in b.tus]:
        return False
    lines = [i for i in open(src).read().split("\n") if i.startswith("#include")]
    probe = os.path.join(work, "probe.cc")
    with open(probe, "w") as f:
        f.write("\n".join(lines) + "\n")
    gen = os.path.join(work, "gen_%d_%s" % (b.throws, b.unroll))
    cmd = [b.cxx] + flags_for(b, gen) + ["-I", os.path.dirname(src), "-fsyntax-only", probe]
    return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def build(bins, work, pool):
    futs, links = [], []
    gens = {}
    for b in bins:
        gk = (b.throws, b.unroll)
        if gk not in gens:
            g = os.path.join(work, "gen_%d_%s" % (b.throws, b.unroll))
            gen_headers.generate(g, throws=b.throws, unroll=b.unroll)
            gens[gk] = g
        fl = flags_for(b, gens[gk])
        objs = []
        bfuts = []
        for src in [os.path.join(VERIF, t) for t in b.tus] + [os.path.join(REPO, r) for r in b.repo]:
            o = os.path.join(work, "%s__%s.o" % (b.name, src.strip("/").replace("/", "_")))
            objs.append(o)
            extra = ["-DMC_MAIN"] if src == os.path.join(VERIF, b.tus[0]) else []
            bfuts.append(pool.submit(compile_one, [b.cxx] + fl + extra + ["-c", src, "-o", o], (b, src)))
        exe = os.path.join(work, b.name)
        links.append((b, exe, objs, fl, bfuts))
    out = {}

    def link(item):
        b, exe, objs, fl, bfuts = item
        for f in bfuts:
            f.result()
        compile_one([b.cxx] + fl + objs + ["-o", exe, "-lpthread"] + list(b.ldflags) + list(b.libs), (b, "link"))
        return b, exe

    with cf.ThreadPoolExecutor(len(links)) as lp:
        for f in [lp.submit(link, i) for i in links]:
            b, exe = f.result()
            out[b.name] = exe
    return out


def san_env(extra=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=86:handle_abort=1:detect_stack_use_after_return=0:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=87"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    if extra:
        e.update(extra)
    return e


def read_slot(mm, i):
    off = SHARED_HDR + i * SLOT_SIZE
    hb, sec, n, done, _ = SLOT_HDR.unpack_from(mm, off)
    ch = struct.unpack_from("<%dI" % min(n, MAXC), mm, off + SLOT_HDR.size)
    d = mm[off + SLOT_HDR.size + 4 * MAXC: off + SLOT_HDR.size + 4 * MAXC + DETAIL]
    return hb, sec, list(ch), done, d.split(b"\0", 1)[0].decode("latin-1")


def sections_of(exe, env):
    return subprocess.run([exe, "--list"], env=env, stdout=subprocess.PIPE, text=True, check=True).stdout.split()


def replay_exec(exe, spec, tier, known, env, timeout):
    """Returns (status, text): status in held, violated, crashed, hang, error."""
    try:
        r = subprocess.run([exe, "--tier", tier, "--known", known, "--replay", spec], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout,
                           cwd=os.path.dirname(exe))
    except subprocess.TimeoutExpired:
        return "hang", "no result after %d s" % timeout
    if r.returncode == 0:
        return "held", r.stdout
    if r.returncode == 1 and "VIOLATED" in r.stdout:
        return "violated", r.stdout
    if r.returncode in (2, 3):
        return "error", r.stdout + r.stderr
    return "crashed", "exit %d\n%s\n%s" % (r.returncode, r.stdout[-800:], r.stderr[-3500:])


def run_bin(b, exe, work, tier, known_file, deadline):
    env = san_env(b.env)
    names = sections_of(exe, env)
    shm = os.path.join(work, b.name + ".shm")
    with open(shm, "wb") as f:
        f.truncate(SHARED_HDR + 64 * SLOT_SIZE + 4096)
    fd = os.open(shm, os.O_RDWR)
    mm = mmap.mmap(fd, SHARED_HDR + 64 * SLOT_SIZE + 4096)
    os.close(fd)
    procs, outs, errs = [], [], []
    for i in range(b.shards):
        o = os.path.join(work, "%s.%d.json" % (b.name, i))
        ef = open(o + ".err", "wb")
        cmd = [exe, "--tier", tier, "--shard", str(i), "--shm", shm, "--out", o, "--known", known_file]
        if b.only:
            cmd += ["--only", b.only]
        procs.append(subprocess.Popen(cmd, env=env, stdout=ef, stderr=ef, start_new_session=True, cwd=work))
        outs.append(o)
        errs.append(ef)
    last = [(0, time.time())] * b.shards
    alive = set(range(b.shards))
    events = []  # (kind, shard, rc)
    while alive:
        time.sleep(0.05)
        now = time.time()
        for i in list(alive):
            rc = procs[i].poll()
            if rc is not None:
                alive.discard(i)
                if rc not in (0, 1) or not os.path.exists(outs[i]):
                    events.append(("crash", i, rc))
                continue
            hb = struct.unpack_from("<Q", mm, SHARED_HDR + i * SLOT_SIZE)[0]
            if hb != last[i][0]:
                last[i] = (hb, now)
            elif now - last[i][1] > b.hang:
                events.append(("hang", i, None))
                os.killpg(procs[i].pid, signal.SIGKILL)
                procs[i].wait()
                alive.discard(i)
        if events or now > deadline:
            # stop the others; one crash is enough
            struct.pack_into("<I", mm, 8, 1)
            t0 = time.time()
            while time.time() - t0 < 5 and any(procs[i].poll() is None for i in alive):
                time.sleep(0.05)
            for i in alive:
                if procs[i].poll() is None:
                    os.killpg(procs[i].pid, signal.SIGKILL)
                    procs[i].wait()
            alive.clear()
            if not events:
                return {"error": "deadline exceeded in " + b.name}
    for e in errs:
        e.close()
    res = {"bin": b.name, "sections": {}, "violation": None, "hashes": set()}
    for kind, i, rc in events:
        hb, sec, ch, done, det = read_slot(mm, i)
        err = open(outs[i] + ".err", "rb").read()[-4000:].decode("latin-1")
        if kind == "crash" and rc == 2:
            return {"error": "harness error in %s: %s" % (b.name, err)}
        res["violation"] = {"section": names[sec], "choices": ",".join(map(str, ch)), "sig": kind,
                            "message": "%s (exit %s) in section %s\n%s" % (kind, rc, names[sec], err), "detail": det}
        break
    for o in outs:
        if not os.path.exists(o):
            continue
        j = json.load(open(o))
        for s in j["sections"]:
            t = res["sections"].setdefault(s["name"], {"executions": 0, "transitions": 0, "checks": 0, "max_depth": 0,
                                                       "bfs_states": 0, "samples": [], "caps": [], "known": [],
                                                       "states_capped": False})
            for k in ("executions", "transitions", "checks", "bfs_states"):
                t[k] += s[k]
            t["max_depth"] = max(t["max_depth"], s["max_depth"])
            t["states_capped"] |= s["states_capped"]
            t["samples"] = (t["samples"] + s["samples"])[:3]
            t["caps"] = sorted(set(t["caps"] + s["caps"]))
            t["known"] = sorted(set(t["known"] + s["known"]))
        if j["violation"] and not res["violation"]:
            res["violation"] = j["violation"]
        a = array.array("Q")
        with open(o + ".states", "rb") as f:
            a.frombytes(f.read())
        res["hashes"].update(a)
    # every section must have been visited: an exploration that never ran is an error, not a pass
    if not res["violation"]:
        for n in names:
            if b.only and n != b.only:
                continue
            if res["sections"].get(n, {}).get("executions", 0) == 0:
                return {"error": "section %s of %s explored nothing" % (n, b.name)}
    mm.close()
    return res


def load_known(prop):
    known, path = {}, os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s sig=" % prop):
                sig, _, what = line.split(" sig=", 1)[1].partition(" :: ")
                known[sig.strip()] = what.strip()
    return known


def write_replay(prop, tier, v, binname):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % prop)
    with open(p, "w") as f:
        json.dump({"property": prop, "tier": tier, "bin": binname, **v,
                   "how": "python3 run.py %s --replay %s" % (prop, p)}, f, indent=1)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--bin")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    os.chdir(VERIF)
    props = importlib.import_module("props").PROPS
    if a.property not in props:
        log("unknown property", a.property)
        return 2
    spec = props[a.property]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % a.property)
    try:
        return run_check(a, spec, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def run_check(a, spec, work, t0):
    prop, tier = a.property, a.tier
    if "py" in spec:
        mod = importlib.import_module("pychecks." + spec["py"])
        return mod.main(prop, tier, spec, work, REPO, VERIF, a.replay, sys.modules[__name__])
    known = load_known(prop)
    known_file = os.path.join(work, "known.txt")
    with open(known_file, "w") as f:
        f.write("".join(k + "\n" for k in known))
    bins = [b for b in spec["bins"] if (b.tier is None or b.tier == tier) and (not a.bin or b.name == a.bin)]
    deadline = t0 + (800 if tier == "quick" else 4 * 3600)
    violation = None
    results, hashes = [], set()
    with cf.ThreadPoolExecutor(CPUS) as pool:
        try:
            exes = build(bins, work, pool)
        except BuildError as e:
            b, what = e.what
            if b.must_compile and in_harness(b, what, work):
                v = {"section": "", "choices": "", "sig": "compile",
                     "message": "code that uses the public API as offered no longer compiles:\n" + e.text,
                     "detail": what}
                p = write_replay(prop, tier, v, b.name)
                log(v["message"])
                log("VIOLATION property=%s replay=%s" % (prop, p))
                return 1
            log("BUILD ERROR", b.name, what)
            log(e.text)
            return 2
    for b in bins:
        if b.prep:
            import preps
            b.env = dict(b.env or {}, **getattr(preps, b.prep)(work, REPO, tier))
    t_build = time.time() - t0
    if a.replay:
        v = json.load(open(a.replay))
        if v["sig"] == "compile":
            log("everything compiles: held")
            return 0
        b = [x for x in bins if x.name == v["bin"]][0]
        st, txt = replay_exec(exes[b.name], v["section"] + ":" + v["choices"], v["tier"], known_file, san_env(b.env), 600)
        log(st)
        log(txt)
        return 0 if st == "held" else 1
    for b in bins:
        if b.must_compile and not b.tus:
            continue
        r = run_bin(b, exes[b.name], work, tier, known_file, deadline)
        if "error" in r:
            log("ERROR", r["error"])
            return 2
        hashes |= r.pop("hashes")
        results.append(r)
        if r["violation"]:
            violation = r["violation"]
            # replay alone, twice: the same choices must fail again
            spec_s = violation["section"] + ":" + violation["choices"]
            st = [replay_exec(exes[b.name], spec_s, tier, known_file, san_env(b.env), 3 * b.hang) for _ in range(2)]
            if all(s[0] in ("violated", "crashed", "hang") for s in st):
                violation["replayed"] = st[0][0]
                violation["replay_output"] = st[0][1]
            elif all(s[0] == "error" for s in st):
                log("ERROR replay", st[0][1])
                return 2
            else:
                # did not fail alone: explore this binary again; only a second failure counts
                log("not reproduced alone (%s); exploring again" % st[0][0])
                r2 = run_bin(b, exes[b.name], work, tier, known_file, deadline)
                if r2.get("violation"):
                    violation = r2["violation"]
                    violation["replayed"] = "by exploring again (needs the preceding executions)"
                else:
                    violation = None
                    r["violation"] = None
                    r["sections"] = r2.get("sections", r["sections"])
            if violation:
                violation_bin = b.name
                break
    wall = time.time() - t0
    secs = {}
    for r in results:
        for n, s in r["sections"].items():
            secs[r["bin"] + "/" + n] = s
    tot = lambda k: sum(s[k] for s in secs.values())
    samples = []
    for n, s in secs.items():
        samples += ["%s: %s" % (n, x) for x in s["samples"][:2]]
    caps = sorted({c for s in secs.values() for c in s["caps"]})
    known_hit = sorted({k for s in secs.values() for k in s["known"]})
    cov = {
        "states": len(hashes),
        "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("executions"),
        "evaluations": tot("checks"),
        "samples": samples[:40] or ["(none)"],
        "rule": spec.get("rule", "every choice sequence of every section below is executed once against the real code; "
                                 "states are distinct observed states/outcomes (64-bit hashes)"),
        "distinct_nontrivial": len(hashes),
        "exhaustive": not caps and not violation,
        "sections": {n: {k: v for k, v in s.items() if k not in ("samples",)} for n, s in secs.items()},
        "bounds": spec.get("bounds", ""),
        "caps": caps,
        "build_s": round(t_build, 2),
    }
    cov["states_counted_lower_bound"] = any(s["states_capped"] for s in secs.values())
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"],
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": 1 if violation else 0}
    os.makedirs("evidence", exist_ok=True)
    with open("evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_hit:
        log("KNOWN-FINDING: property=%s %s [%s]" % (prop, known.get(k, ""), k))
    log("%s %s: %d executions, %d transitions, %d checks, %d distinct states, build %.1fs, total %.1fs" % (
        prop, tier, tot("executions"), tot("transitions"), tot("checks"), len(hashes), t_build, wall))
    for n, s in secs.items():
        log("   %-40s exec=%d trans=%d checks=%d depth=%d" % (n, s["executions"], s["transitions"], s["checks"], s["max_depth"]))
    if violation:
        p = write_replay(prop, tier, violation, violation_bin)
        log(violation["message"][:3000])
        log("detail:", violation.get("detail", ""))
        log("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())

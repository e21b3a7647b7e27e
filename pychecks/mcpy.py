"""Exhaustive exploration of choices for the Python tools: every check is a function of a context whose choose(n)
is replayed depth first over all values, in parallel over the first choices."""
import hashlib
import importlib.util
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

SHARDS = 8


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = sig


class Skip(Exception):
    """This combination of choices says nothing."""


class Ctx:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []  # (chosen, of)
        self.steps = 0
        self.checks = 0
        self.states = set()
        self.samples = []
        self.shard = None

    def choose(self, n):
        k = len(self.trace)
        v = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((v, n))
        return v

    def flip(self):
        return self.choose(2) == 1

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def step(self, n=1):
        self.steps += n

    def state(self, s):
        self.states.add(hashlib.blake2b(repr(s).encode(), digest_size=8).digest())

    def check(self, cond, msg, sig=""):
        self.checks += 1
        if not cond:
            raise Violation(sig, msg() if callable(msg) else msg)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:300])


def load(repo, name):
    """One of the tools, loaded from the tree under test."""
    d = os.path.join(repo, "tools")
    if d not in sys.path:
        sys.path.insert(0, d)
    spec = importlib.util.spec_from_file_location(name, os.path.join(d, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    sys.dont_write_bytecode = True
    spec.loader.exec_module(m)
    return m


def explore(fn, shard, deadline, known):
    """All executions of a shard. The shard is decided by the first two choices."""
    prefix = []
    n = execs = steps = checks = depth = 0
    states, samples = set(), []
    complete = True
    hits = {}
    while True:
        if time.time() > deadline:
            complete = False
            break
        c = Ctx(prefix)
        # Where does the first half go?  Executions outside of the shard are left at once.
        viol = None
        c.shard = shard
        mine = True

        class Other(Exception):
            pass

        orig = c.choose

        def choose(k, orig=orig, c=c):
            nonlocal mine
            v = orig(k)
            if len(c.trace) == 2:
                (a, _), (b, m) = c.trace
                if (a * m + b) % SHARDS != shard:
                    mine = False
                    raise Other()
            return v
        c.choose = choose
        try:
            fn(c)
        except Other:
            pass
        except Skip:
            pass
        except Violation as e:
            viol = (e.sig, str(e))
        except Exception:
            viol = ("exception", traceback.format_exc()[-1500:])
        if len(c.trace) < 2 and shard != 0:
            mine = False
        if mine:
            execs += 1
            steps += c.steps
            checks += c.checks
            depth = max(depth, len(c.trace))
            states |= c.states
            if len(samples) < 2:
                samples += c.samples
            if viol:
                if viol[0] and viol[0] in known:
                    hits[viol[0]] = hits.get(viol[0], 0) + 1
                else:
                    return {"violation": (viol, [v for v, _ in c.trace]), "execs": execs, "steps": steps, "checks": checks,
                            "depth": depth, "states": states, "samples": samples, "complete": False, "known": hits}
        t = c.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            break
        prefix = [v for v, _ in t]
        prefix[-1] += 1
        n += 1
    return {"violation": None, "execs": execs, "steps": steps, "checks": checks, "depth": depth, "states": states,
            "samples": samples, "complete": complete, "known": hits}


def _job(args):
    modname, section, shard, deadline, known, tier, repo, scratch = args
    m = importlib.import_module(modname)
    os.makedirs(os.path.join(scratch, "%s_%d" % (section, shard)), exist_ok=True)
    os.chdir(os.path.join(scratch, "%s_%d" % (section, shard)))
    m.setup(repo, tier)
    return section, explore(m.SECTIONS[section], shard, deadline, known)


def run(modname, prop, tier, spec, work, repo, verif, replay, runmod, sources):
    """The main() of a check: runs all sections, prints, writes the evidence."""
    t0 = time.time()
    m = importlib.import_module(modname)
    if replay:
        r = json.load(open(replay))
        os.makedirs(os.path.join(work, "replay"), exist_ok=True)
        os.chdir(os.path.join(work, "replay"))
        m.setup(repo, r["tier"])
        c = Ctx(r["choices"])
        try:
            m.SECTIONS[r["section"]](c)
        except Skip:
            pass
        except Exception as e:
            print("VIOLATED", e)
            return 1
        print("held")
        return 0
    known = runmod.load_known(prop)
    deadline = t0 + (700 if tier == "quick" else 3600)
    jobs = [(modname, s, i, deadline, set(known), tier, repo, work) for s in m.SECTIONS for i in range(SHARDS)]
    tot, viol, hits = {}, None, {}
    with mp.get_context("fork").Pool(SHARDS) as pool:
        for section, r in pool.imap_unordered(_job, jobs):
            s = tot.setdefault(section, {"execs": 0, "steps": 0, "checks": 0, "depth": 0, "states": set(), "samples": [], "complete": True})
            for k in ("execs", "steps", "checks"):
                s[k] += r[k]
            s["depth"] = max(s["depth"], r["depth"])
            s["states"] |= r["states"]
            s["samples"] += r["samples"]
            s["complete"] &= r["complete"]
            for k, v in r["known"].items():
                hits[k] = hits.get(k, 0) + v
            if r["violation"] and not viol:
                viol = (section, r["violation"])
                pool.terminate()
                break
    for k in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    if viol:
        section, ((sig, msg), choices) = viol
        print("violation in section %s: %s" % (section, msg))
        p = runmod.write_replay(prop, tier, {"section": section, "choices": choices, "sig": sig, "message": msg, "detail": ""}, "python")
        print("VIOLATION property=%s replay=%s" % (prop, p))
    wall = time.time() - t0
    execs, steps, checks = (sum(s[k] for s in tot.values()) for k in ("execs", "steps", "checks"))
    states = set().union(*(s["states"] for s in tot.values())) if tot else set()
    caps = [s for s, v in tot.items() if not v["complete"]]
    samples = [x for s in tot.values() for x in s["samples"][:3]][:20]
    cov = {"states": max(1, len(states)), "transitions": max(1, steps), "traces_validated_against_impl": execs, "evaluations": checks,
           "samples": samples or ["(none)"], "rule": "every execution of every section within the stated bounds, on the real code",
           "distinct_nontrivial": len(states), "exhaustive": not caps and not viol,
           "sections": {s: {k: v[k] for k in ("execs", "steps", "checks", "depth", "complete")} for s, v in tot.items()},
           "bounds": "all choices of each section to its end", "caps": caps, "build_s": 0.0}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"],
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    with open(os.path.join(verif, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d transitions, %d checks, %d distinct states, %.1fs" % (prop, tier, execs, steps, checks, len(states), wall))
    for s, v in tot.items():
        print("   %-30s exec=%d steps=%d checks=%d depth=%d%s" % (s, v["execs"], v["steps"], v["checks"], v["depth"], "" if v["complete"] else " INCOMPLETE"))
    return 1 if viol else 0

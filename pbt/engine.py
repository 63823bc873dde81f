"""Search engine of all checks.

A check is a list of sections.  A section generates JSON-able cases from Hypothesis
draws and judges them with a pure function.  The cases of a section are spread over
several worker processes, each with its own Hypothesis seed derived from VERIF_SEED.
A failing case is shrunk by Hypothesis and written to a replay file.
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time

import env
import gen

SHRINK_SECONDS = 45
WALL_QUICK, WALL_THOROUGH = 240, 3000
MAX_MEM = 3 << 30


class Section:
    def __init__(self, name, generate, judge, quick, thorough=None, nontrivial=None, label=None, variants=None,
                 limit=(3, 0.003), rule=""):
        self.name = name
        self.generate = generate          # G -> case (dict) or None
        self.judge = judge                # case -> list of strings, empty when the property holds
        self.quick = quick
        self.thorough = thorough or quick * 25
        self.nontrivial = nontrivial or (lambda case: True)
        self.label = label or (lambda case: case.get("shape", name))
        self.variants = variants          # case -> {group: [equivalent cases]}, None: no confirmation
        self.limit = limit                # unconfirmed failures tolerated: max(count, rate)
        self.rule = rule


class Failure(Exception):
    pass


class Stop(BaseException):
    pass


def key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def confirmed(section, case):
    """does the failure survive in (at least half of) one group of equivalent cases?"""
    if section.variants is None:
        return True
    for group in section.variants(case):
        n = len(group)
        need = (n + 1) // 2
        bad = ok = 0
        for c in group:
            if section.judge(c):
                bad += 1
            else:
                ok += 1
            if bad >= need:
                return True
            if ok > n - need:
                break
    return False


def known(prop):
    path = os.path.join(env.VERIF, "findings", "known.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("{"):        # the others are 'fixed:' notes
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "open":
                    out.append(d)
    return out


def chunk(args):
    """run one share of a section; returns a plain dict"""
    from hypothesis import HealthCheck, Phase, given, seed, settings
    from hypothesis import strategies as st
    check, si, ci, n, wall, skip = args
    resource.setrlimit(resource.RLIMIT_AS, (MAX_MEM, MAX_MEM))
    section = load(check).SECTIONS[si]
    t0 = time.time()
    R = dict(section=si, evaluations=0, rejected=0, nontrivial=set(), labels=collections.Counter(), samples=[], singular=[],
             failure=None, stopped=False, error=None)
    state = {"best": None, "t": None, "seen": set()}

    def body(data):
        if state["t"] is not None and time.time() - state["t"] > SHRINK_SECONDS:
            raise Stop()
        if time.time() - t0 > wall and state["t"] is None:
            R["stopped"] = True
            raise Stop()
        case = section.generate(gen.G(gen.HypSrc(data)))
        if case is None:
            R["rejected"] += 1
            return
        h = key(case)
        if state["t"] is None:
            if h in state["seen"]:
                return
            state["seen"].add(h)
        bad = section.judge(case)
        if state["t"] is None:
            R["evaluations"] += 1
            R["labels"][section.label(case)] += 1
            if section.nontrivial(case):
                R["nontrivial"].add(h)
                if len(R["samples"]) < 2:
                    R["samples"].append(case)
        if not bad or h in skip:
            return
        if not confirmed(section, case):
            if state["t"] is None:
                R["singular"].append((case, bad[:3]))
            return
        size = len(json.dumps(case))
        if state["best"] is None or size < state["best"][0]:
            state["best"] = (size, case, bad)
        if state["t"] is None:
            state["t"] = time.time()
        raise Failure(bad[0])

    sd = (env.SEED * 1000003 + si * 7919 + ci * 104729 + int(check[1:]) * 15485863) & 0x7fffffff
    test = seed(sd)(settings(max_examples=n, deadline=None, database=None, derandomize=False, print_blob=False,
                             phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                             report_multiple_bugs=False)(given(st.data())(body)))
    devnull = open(os.devnull, "w")
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    try:
        test()
    except Stop:
        pass
    except BaseException as e:
        if state["best"] is None:
            import traceback
            R["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    finally:
        sys.stdout, sys.stderr = so, se
    if state["best"] is not None:
        R["failure"] = (state["best"][1], state["best"][2])
    return R


_loaded = {}


def load(check):
    if check not in _loaded:
        import importlib
        _loaded[check] = importlib.import_module("checks." + check.lower())
    return _loaded[check]


def write_replay(check, section, case, bad, kind):
    d = os.path.join(env.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (check, key(case)[:10]))
    with open(path, "w") as f:
        json.dump(dict(property=check, section=section.name, kind=kind, seed=env.SEED, tier=env.TIER, failures=bad[:10], case=case), f,
                  indent=1)
    return path


def replay(check, path):
    d = json.load(open(path))
    for s in load(check).SECTIONS:
        if s.name == d["section"]:
            bad = s.judge(d["case"])
            for b in bad:
                print(b)
            if bad:
                print("VIOLATION property=%s replay=%s" % (check, path))
                return 1
            print("the property holds on this case")
            return 0
    print("no section %s" % d["section"])
    return 2


def main(check):
    t0 = time.time()
    mod = load(check)
    thorough = env.TIER == "thorough"
    wall = WALL_THOROUGH if thorough else WALL_QUICK
    skip = set()
    for d in known(check):
        sec = [s for s in mod.SECTIONS if s.name == d["section"]]
        if not sec:
            print("known finding for an unknown section %s" % d["section"])
            return 2
        if sec[0].judge(d["case"]):
            print("KNOWN-FINDING: property=%s %s" % (check, d["what"]))
            skip.add(key(d["case"]))
    jobs = []
    for si, s in enumerate(mod.SECTIONS):
        n = s.thorough if thorough else s.quick
        k = 1 if n <= 8 else 8 if n < 8000 else 16
        for ci in range(k):
            jobs.append((check, si, ci, (n + k - 1) // k, wall, skip))
    # big shares first
    jobs.sort(key=lambda j: -j[3])
    tot = dict(evaluations=0, rejected=0)
    nontrivial, labels, samples = set(), collections.Counter(), {}
    singular, persec, stopped = collections.defaultdict(list), collections.Counter(), False
    violation = error = None
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=1)
    try:
        for r in pool.imap_unordered(chunk, jobs):
            s = mod.SECTIONS[r["section"]]
            tot["evaluations"] += r["evaluations"]
            tot["rejected"] += r["rejected"]
            persec[s.name] += r["evaluations"]
            nontrivial |= r["nontrivial"]
            for k, v in r["labels"].items():
                labels[s.name + ":" + str(k)] += v
            samples.setdefault(s.name, []).extend(r["samples"])
            singular[s.name].extend(r["singular"])
            stopped = stopped or r["stopped"]
            if r["error"]:
                error = r["error"]
                break
            if r["failure"]:
                case, bad = r["failure"]
                violation = (s, case, bad, "shrunk counterexample")
                break
    finally:
        pool.terminate()
        pool.join()
    if error:
        print(error)
        return 2
    if violation is None:
        for s in mod.SECTIONS:
            sg = singular[s.name]
            if len(sg) > max(s.limit[0], s.limit[1] * persec[s.name]):
                case, bad = min(sg, key=lambda x: len(json.dumps(x[0])))
                violation = (s, case, ["%d of %d cases fail without surviving small changes" % (len(sg), persec[s.name])] + bad, "rate")
                break
    sing = sum(len(v) for v in singular.values())
    ev = dict(property=check, tier=env.TIER, seed=env.SEED, level="exploration",
              coverage=dict(evaluations=tot["evaluations"], distinct_nontrivial=len(nontrivial),
                            rule=mod.RULE + " " + " ".join("[%s] %s" % (s.name, s.rule) for s in mod.SECTIONS if s.rule),
                            samples=[dict(section=k, case=c) for k, v in sorted(samples.items()) for c in v[:2]][:12],
                            per_section=dict(persec), labels=dict(labels.most_common(80)), outside_of_domain=tot["rejected"],
                            unconfirmed_failures=sing, singular_samples=[[c, b] for v in singular.values() for c, b in v[:3]][:6],
                            stopped_by_time_limit=stopped, known_findings=len(skip)),
              wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    if violation:
        s, case, bad, kind = violation
        path = write_replay(check, s, case, bad, kind)
        ev["coverage"]["violation"] = dict(section=s.name, failures=bad[:5], replay=path)
    with open(os.path.join(env.VERIF, "evidence", check + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct and non-trivial, %d outside of the domain, %d unconfirmed, %.1f s%s" % (
        check, tot["evaluations"], len(nontrivial), tot["rejected"], sing, time.time() - t0, " (time limit)" if stopped else ""))
    if violation:
        for b in bad[:5]:
            print("   " + b)
        print("VIOLATION property=%s replay=%s" % (check, path))
        return 1
    return 0

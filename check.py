#!/usr/bin/env python3
"""Decides one property by model-based verification: check.py <property id> [--replay <file>].  See DESIGN.md."""
import concurrent.futures
import hashlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
if os.environ.get("PYTHONHASHSEED") != str(SEED % 4294967296):       # a run is a function of the seed
    os.environ["PYTHONHASHSEED"] = str(SEED % 4294967296)
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
REPO = os.environ.get("PDDL_REPO", "/repo")
sys.path.insert(0, REPO)

import pddl  # noqa: E402

assert os.path.realpath(pddl.__file__).startswith(os.path.realpath(REPO) + os.sep), pddl.__file__

import gen  # noqa: E402
import models  # noqa: E402
import rec  # noqa: E402
import scen  # noqa: E402
import tlc  # noqa: E402

# number of random sessions of a quick run
QUICK = 1300
SESSIONS = {"C20": 900, "C21": 900, "C22": 220, "C26": 110, "C27": 800}
THOROUGH = 12          # times as many in a thorough run, in batches
BATCH = 2500
MAXREPORT = 10


def plan_sessions(prop):
    n = SESSIONS.get(prop, QUICK) * (THOROUGH if TIER == "thorough" else 1)
    fs = []
    for f, w in scen.SCEN.get(prop, []):
        fs += [f] * w
    return [(prop, SEED, fs[i % len(fs)].__name__, i) for i in range(n)] if fs else []


def in_library(tb):
    """Whether the innermost frames of a traceback are in the library."""
    frames = [os.path.realpath(f.filename) for f in traceback.extract_tb(tb)]
    return any(f.startswith(os.path.realpath(REPO) + os.sep) for f in frames)


def guard(name, fn):
    try:
        return fn().dump()
    except rec.Hang:
        return {"name": name, "events": [{"op": "flag", "ok": False, "what": "hang"}], "log": [{"session": name}]}
    except Exception as e:
        if in_library(e.__traceback__):     # a call of the public API that must succeed did not
            return {"name": name, "events": [{"op": "flag", "ok": False, "what": "crash: " + repr(e)[:200]}],
                    "log": [{"session": name, "traceback": traceback.format_exc()[-3000:]}]}
        return {"name": name, "error": traceback.format_exc(), "events": [], "log": []}


def record(job):
    """Job: (prop, seed, scenario, index) or (prop, model, case)."""
    if len(job) == 3:
        s = guard(job[1], lambda: models.replay(job[1], job[2]))
    else:
        prop, seed, fname, i = job
        f = next(f for f, _ in scen.SCEN[prop] if f.__name__ == fname)
        s = guard(fname, lambda: f(gen.rng_of(prop, seed, i)))
    s["job"] = job
    return s


def record_all(jobs):
    if not jobs:
        return []
    with concurrent.futures.ProcessPoolExecutor(8, initializer=rec.limits) as pool:
        return list(pool.map(record, jobs, chunksize=max(1, min(64, len(jobs) // 48))))


def known(prop):
    """Listed findings of the property: {digest of the failing call: description}."""
    r = {}
    path = os.path.join(HERE, "known-findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        w = line.split(None, 3)
        if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("call="):
            r[w[2][5:]] = w[3].strip()
    return r


def digest(log):
    log = {k: v for k, v in log.items() if k not in ("exception", "traceback")}
    return hashlib.sha256(json.dumps(log, sort_keys=True).encode()).hexdigest()[:24]


def report(prop, fails, sessions):
    """Print violations and known findings; returns the violations."""
    listed, out = known(prop), []
    hit = set()
    for f in fails:
        s = sessions[f["s"] - 1]
        log = s["log"][f["l"] - 1]
        d = digest(log)
        if d in listed:
            hit.add(d)
            continue
        out.append({"session": s["name"], "step": f["l"], "violated": sorted(f["bad"]), "call": log, "digest": d,
                    "job": s["job"], "log": s["log"], "events": s["events"]})
    for d in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {listed[d]}")
    seen = {}
    for v in out:
        seen.setdefault((v["session"], tuple(v["violated"])), v)
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    for n, v in enumerate(list(seen.values())[:MAXREPORT]):
        path = os.path.join(HERE, "out", f"{prop}-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, seed=SEED), f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['session']}, step {v['step']}: {'; '.join(v['violated'])}")
        print("  " + json.dumps(v["call"])[:600])
    return out


def evidence(prop, cov, t0, nviol):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
                   "violations": nviol, "wall_s": round(time.time() - t0, 2)}, f, indent=1)
        f.write("\n")


def sample(s):
    return {"session": s["name"], "calls": s["log"][:4], "events": len(s["events"])}


def main():
    prop = sys.argv[1]
    t0 = time.time()
    if "--replay" in sys.argv:
        v = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        rec.limits()
        sessions = [record(tuple(v["job"]))]
        fails, _, _ = tlc.conform(sessions)
        return 1 if report(prop, fails, sessions) else 0

    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0, "models": [], "samples": [],
           "accepted_calls": 0, "rejected_calls": 0}
    viol, errs = [], []

    def judge(jobs):
        for i in range(0, len(jobs), BATCH):
            sessions = record_all(jobs[i:i + BATCH])
            errs.extend(s for s in sessions if s.get("error"))
            sessions = [s for s in sessions if not s.get("error")]
            if not sessions:
                continue
            fails, states, trans = tlc.conform(sessions)
            cov["states"] += states
            cov["transitions"] += trans
            cov["traces_validated_against_impl"] += len(sessions)
            cov["events_validated"] += trans
            for s in sessions:
                for e in s["events"]:
                    cov["accepted_calls"] += e.get("out") == "ok"
                    cov["rejected_calls"] += e.get("out") == "reject"
            if len(cov["samples"]) < 8:
                cov["samples"] += [sample(s) for s in sessions[:: max(1, len(sessions) // 3)][:3]]
            viol.extend(report(prop, fails, sessions))
            if viol and TIER == "quick":
                return

    for m in models.MODELS.get(prop, []):
        cases, states, trans = models.explore(m, TIER)
        cov["models"].append({"model": m, "states": states, "transitions": trans, "cases_replayed": len(cases)})
        cov["states"] += states
        cov["transitions"] += trans
        judge([(prop, m, c) for c in cases])
        if viol and TIER == "quick":
            break
    if not viol or TIER == "thorough":
        judge(plan_sessions(prop))
    evidence(prop, cov, t0, len(viol))
    for s in errs[:3]:
        print(s["error"])
    print(f"{prop} {TIER} seed {SEED}: {cov['traces_validated_against_impl']} traces, {cov['events_validated']} calls, "
          f"{cov['states']} states, {len(viol)} violations, {len(errs)} errors, {time.time() - t0:.1f} s")
    return 1 if viol else 2 if errs else 0


if __name__ == "__main__":
    sys.exit(main())

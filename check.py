#!/usr/bin/env python3
"""check.py PROPERTY            one simulation campaign for the property (VERIF_SEED, VERIF_TIER=quick|thorough)
   check.py --replay FILE       reproduce a recorded violation exactly
   check.py --setup             build the simulator from /repo's working tree

Exit 0: the property held on everything explored.  Exit 1: "VIOLATION property=<id> replay=<path>", confirmed twice.
Exit 2: the check itself could not give an answer."""
import json, os, re, shutil, subprocess, sys, tempfile, time, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim"))
from build import build, VERIF, REPO
from plan import PLAN, REAL, STUB, COMMON_ASSUMPTIONS

JOBS = int(os.environ.get("SIM_JOBS", "8"))

def env():
    e = dict(os.environ)
    e.pop("SIM_REEXEC", None)
    e["LC_ALL"] = "C"
    return e

def symbolize(binary, text):
    def one(m):
        p = subprocess.run(["addr2line", "-fpe", binary, m.group(1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return "pc %s (%s)" % (m.group(1), p.stdout.strip().split("\n")[0])
    return re.sub(r"pc (0x[0-9a-f]+)", one, text)

def replay(binary, path):
    """run a replay file in a fresh process: (class, hash, detail, log)"""
    p = subprocess.run([binary, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env(), timeout=300)
    c = re.search(r"^class (.*)$", p.stdout, re.M)
    h = re.search(r"^hash (\S+)$", p.stdout, re.M)
    d = re.search(r"^detail (.*)$", p.stdout, re.M)
    i = p.stdout.find("\nlog\n")
    return (c and c.group(1), h and h.group(1), d.group(1) if d else "", p.stdout[i + 5:] if i >= 0 else "")

def known_findings():
    """[(property, scenario, class, substring of the detail, text)] — read, never written, by the checks"""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\w+) demo=(\S+) (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out

def campaign(prop, scen, which, out, base, count, seconds, tmp):
    """one scenario on all cores; returns merged results"""
    binary = os.path.join(out, "sim-" + which)
    res = dict(runs=0, steps=0, events=0, nontrivial=0, inconclusive=0, harness_errors=0, determinism_checked=0, wall=0.0)
    counters, classes, vio, sigs, samples, problems = collections.Counter(), collections.Counter(), [], set(), [], []
    per = (count + JOBS - 1) // JOBS
    ps = []
    for w in range(JOBS):
        o = os.path.join(tmp, "%s.%d" % (scen, w))
        ps.append((o, subprocess.Popen([binary, "batch", scen, str(base), str(w), str(JOBS), str(per), "%.1f" % seconds, o],
                                       stdout=subprocess.DEVNULL, stderr=open(o + ".err", "w"), env=env())))
    for o, p in ps:
        try:
            rc = p.wait(timeout=seconds + 400)
        except subprocess.TimeoutExpired:
            p.kill(); rc = -9
        err = open(o + ".err", errors="replace").read()
        try:
            j = json.load(open(o + ".json"))
        except Exception:
            problems.append("worker %s ended with %s and no result: %s" % (o, rc, err[-400:]))
            continue
        for k in res:
            if k != "wall":
                res[k] += j[k]
        res["wall"] = max(res["wall"], j["wall"])
        counters.update(j["counters"]); classes.update(j["classes"])
        b = open(o + ".sig", "rb").read()
        sigs |= {(scen, b[i:i + 8]) for i in range(0, len(b), 8)}
        samples += [(scen, which, s) for s in j["samples"]]
        vio += [dict(v, scen=scen, which=which) for v in j["violations"]]
        if j["harness_errors"]:
            problems.append(err[-600:])
    return res, counters, classes, vio, sigs, samples, problems

def run_check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]
    out = build(tuple(sorted({s[1] for s in plan["scenarios"]})))
    build_s = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    tot = collections.Counter(); counters = collections.Counter(); classes = collections.Counter()
    vio, sigs, samples, problems, per_scen = [], set(), [], [], {}
    os.environ.setdefault("SIM_MIN_SECONDS", "25" if tier == "quick" else "120")
    confirmed, unconfirmed = [], []
    try:
        share = sum(s[2] for s in plan["scenarios"])
        budget = float(os.environ.get("SIM_SECONDS", "0")) or (120.0 if tier == "quick" else 1500.0)
        for scen, which, count in plan["scenarios"]:
            if tier == "thorough":
                count, secs = 1 << 40, budget * count / share
            else:
                secs = max(20.0, budget * count / share)
            r, c, cl, v, sg, sm, pr = campaign(prop, scen, which, out, seed, count, secs, tmp)
            per_scen[scen] = dict(r, distinct=len(sg), build=which)
            for k, x in r.items():
                tot[k] += x
            counters.update(c); classes.update(cl); vio += v; sigs |= sg; samples += sm[:2]; problems += pr
        # every violation is replayed in a fresh process and must come out the same: class and whole event history
        done = set()
        for v in sorted(vio, key=lambda v: sum(v["tape"])):
            if v["class"] in done:
                continue
            binary = os.path.join(out, "sim-" + v["which"])
            a, b = replay(binary, v["replay"]), replay(binary, v["replay"])
            if a[0] == b[0] == v["class"] and a[1] == b[1] == v["hash"]:
                done.add(v["class"])
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                dst = os.path.join(VERIF, "replays", "%s-%s-%s.replay" % (prop, re.sub(r"[^\w.-]+", "_", v["class"])[:60], v["seed"]))
                shutil.copy(v["replay"], dst)
                confirmed.append((v, dst, symbolize(binary, v["detail"])))
            else:
                unconfirmed.append((v, a[:3], b[:3]))
        sample_txt = []
        for scen, which, s in samples[:6]:
            p = subprocess.run([os.path.join(out, "sim-" + which), "one", scen, s], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=env())
            sample_txt.append("scenario %s seed %s: %s" % (scen, s, p.stdout[:900]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = []
    for kp, demo, text in known_findings():
        if kp != prop:
            continue
        which, scen = demo.split("/")
        binary = os.path.join(build((which,)), "sim-" + which)
        p = subprocess.run([binary, "one", scen, "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=env())
        c = re.search(r"^class (.*)$", p.stdout, re.M)
        if c and c.group(1).startswith("known:"):
            known.append(text)
    wall = time.time() - t0
    sim_wall = max(tot["wall"], 0.001)
    faults = {k[6:]: n for k, n in sorted(counters.items()) if k.startswith("fault_")}
    if not tot["runs"] and not confirmed:
        problems.append("no run finished")
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(confirmed),
        "coverage": {
            "evaluations": int(tot["runs"]),
            "distinct_nontrivial": len(sigs),
            "rule": plan["rule"] + "  A run is one execution of the real library in a process of its own, decided entirely by one seed (workload, fault, schedule and heap-layout choices). "
                    "distinct_nontrivial counts different signatures among the non-trivial runs: the hash of the bucketed basic-block hit counts of the library and the scenario's state signature.",
            "samples": sample_txt,
            "seeds_per_hour": int(tot["runs"] / sim_wall * 3600),
            "simulated_time_basic_blocks": int(tot["steps"]),
            "events_recorded": int(tot["events"]),
            "faults_injected": faults,
            "probes": {k: n for k, n in sorted(counters.items()) if not k.startswith("fault_")},
            "faults_fired_per_run": round(sum(faults.values()) / max(1, tot["runs"]), 2),
            "interleavings": {"threads": counters.get("threads", 0), "context_switches": counters.get("ctx_switches", 0), "preemptions": counters.get("fault_preempt", 0)},
            "runs_repeated_to_check_determinism": int(tot["determinism_checked"]),
            "inconclusive_runs": int(tot["inconclusive"]),
            "per_scenario": per_scen,
            "real_components": REAL, "stub_components": plan.get("stub", STUB),
            "build_s": round(build_s, 1), "simulation_wall_s": round(sim_wall, 1), "workers": JOBS,
            "violation_classes": dict(classes),
        },
        "assumptions": COMMON_ASSUMPTIONS + plan.get("assumptions", []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s seed=%d: %d runs, %d distinct, %.0f s simulation (%d runs/h), %d faults injected, build %.0f s" % (
        prop, tier, seed, tot["runs"], len(sigs), sim_wall, evidence["coverage"]["seeds_per_hour"], sum(faults.values()), build_s))
    for text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    for v, dst, detail in confirmed:
        print("%s [scenario %s, seed %s]: %s" % (v["class"], v["scen"], v["seed"], detail[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
    if confirmed:
        return 1
    if unconfirmed or problems:
        for v, a, b in unconfirmed:
            print("unconfirmed: %s %s replays as %s then %s" % (v["class"], v["hash"], a, b), file=sys.stderr)
        for p in problems:
            print("problem: %s" % p, file=sys.stderr)
        return 2
    return 0

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        txt = open(sys.argv[2], errors="replace").read()
        which = re.search(r"^build (\w+)$", txt, re.M).group(1)
        want = (re.search(r"^class (.*)$", txt, re.M).group(1), re.search(r"^hash (\S+)$", txt, re.M).group(1))
        binary = os.path.join(build((which,)), "sim-" + which)
        c, h, d, log = replay(binary, sys.argv[2])
        print(log)
        print("class %s\nhash %s\ndetail %s" % (c, h, symbolize(binary, d)))
        if (c, h) == want:
            print("reproduced exactly")
            return 1
        print("differs from the recording: class %s hash %s" % want)
        return 0 if c == "" else 2
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        build(("asan", "sched", "up"))
        return 0
    if len(sys.argv) == 2 and sys.argv[1] in PLAN:
        return run_check(sys.argv[1])
    print(__doc__)
    return 2

if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Developer helper: run a scenario on all cores and summarise the violation classes."""
import sys, subprocess, json, os, collections
from build import build, VERIF
scen, count, secs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
which = sys.argv[4] if len(sys.argv) > 4 else "asan"
base = sys.argv[5] if len(sys.argv) > 5 else "1"
out = build((which,))
tmp = "/tmp/try/" + scen; os.makedirs(tmp, exist_ok=True)
os.environ.setdefault("SIM_MIN_SECONDS", "8")
ps = [subprocess.Popen([out + "/sim-" + which, "batch", scen, base, str(w), "8", str((count + 7) // 8), str(secs), "%s/%d" % (tmp, w)],
      stderr=open("%s/%d.err" % (tmp, w), "w")) for w in range(8)]
rc = [p.wait() for p in ps]
tot = collections.Counter(); cls = collections.Counter(); vio = {}; sigs = set()
for w in range(8):
    try: j = json.load(open("%s/%d.json" % (tmp, w)))
    except Exception as e: print("worker", w, e, open("%s/%d.err" % (tmp, w)).read()[-500:]); continue
    tot.update({k: j[k] for k in ("runs", "steps", "nontrivial", "inconclusive", "harness_errors", "determinism_checked")})
    tot["wall"] = max(tot["wall"], j["wall"])
    tot.update({k: v for k, v in j["counters"].items() if v})
    cls.update(j["classes"])
    b = open("%s/%d.sig" % (tmp, w), "rb").read()
    sigs |= {b[i:i + 8] for i in range(0, len(b), 8)}
    for v in j["violations"]:
        k = (v["class"], v["detail"][:60])
        if v["class"] not in vio or sum(v["tape"]) < sum(vio[v["class"]]["tape"]): vio[v["class"]] = v
for w in range(8):
    for l in open("%s/%d.err" % (tmp, w), errors="replace"):
        if "harness error" in l: print(l.strip()[:400])
print("rc", rc, "distinct", len(sigs)); print(dict(tot)); print(dict(cls))
import re
for v in vio.values():
    d = v["detail"]
    m = re.search(r"pc (0x[0-9a-f]+)", d)
    if m: d += " @ " + subprocess.run(["addr2line", "-fpe", out + "/sim-" + which, m.group(1)], stdout=subprocess.PIPE, text=True).stdout.strip()
    print("*", v["class"], v["replay"], v["tape"], "\n   ", d[:900].replace("\n", "\n    "))

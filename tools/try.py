#!/usr/bin/env python3
"""try.py <scenario> <seconds> [k=v ...]: explore, list the violations"""
import sys, os, collections, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.dont_write_bytecode = True
from vlib import build as B, driver as D
try: b = B.build()
except B.BuildError as e: print(e); sys.exit(2)
seed = int(os.environ.get("VERIF_SEED", "1"))
ex = D.Explorer(b, "TRY", seed)
params = dict(a.split("=", 1) for a in sys.argv[3:])
ex.explore(sys.argv[1], params, float(sys.argv[2]), False)
print(ex.runs, "runs", ex.status, "known", ex.known, "sim %.0f s" % (ex.sim_ns / 1e9), "nontrivial", len(ex.nontrivial))
print("faults", ex.faults); print("probes", ex.probes)
print("counts", {k: v for k, v in ex.counts.items() if not k.startswith(("fs_", "net_"))})
c = collections.defaultdict(list)
for v in ex.violations: c[(v["cls"], re.sub(r"[0-9.]+", "#", v["msg"])[:70])].append(v)
for k, l in sorted(c.items(), key=lambda x: -len(x[1]))[:12]:
    v = min(l, key=lambda v: v["steps"])
    print("%4d %s | seed %d steps %d: %s" % (len(l), k[0], v["seed"], v["steps"], v["msg"][:400]))
for e in collections.Counter(re.sub(r"seed \d+", "", e) for e in ex.errors).most_common(5): print("ERR", e)
for e in ex.errors[:3]: print(e)

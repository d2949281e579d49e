#!/usr/bin/env python3
"""Run one harness entry by hand: tools/sx.py MOD ENTRY [jobs=4] [time=40] [param=value...]; prints paths, errors, incompleteness."""
import sys, os, json, subprocess, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check, props
mod, fn = sys.argv[1], sys.argv[2]
kv = dict(a.split("=") for a in sys.argv[3:])
jobs, t, sol = kv.pop("jobs", "4"), kv.pop("time", "40"), kv.pop("sol", "10000")
check.build_engine()
pool = cf.ThreadPoolExecutor(8)
bc = check.build_module(pool, mod, props.MODULES[mod], "sym")
out = "/tmp/sx.%d.json" % os.getpid()
cmd = [check.SYMX, bc, "--entry", fn, "--out", out, "--time", t, "--jobs", jobs, "--seed", "1", "--solver-timeout", sol]
for k, v in kv.items():
    cmd += ["--param", k + "=" + v]
r = subprocess.run(cmd, capture_output=True, text=True)
sys.stderr.write(r.stderr[-2000:])
tot = {}
inc, errs, reach, samples = {}, [], {}, 0
for p in json.load(open(out)):
    for k in ("paths", "queries", "z3_calls", "z3_time", "instructions"):
        tot[k] = tot.get(k, 0) + p.get(k, 0)
    for k, v in p.get("incomplete", {}).items():
        inc[k] = inc.get(k, 0) + v
    for k, v in p.get("reach", {}).items():
        reach[k] = reach.get(k, 0) + v
    errs += p.get("errors", [])
os.unlink(out)
print("rc", r.returncode, {k: round(v, 1) for k, v in tot.items()}, "reach", reach, "INCOMPLETE" if inc else "complete", inc)
seen = set()
for e in errs:
    k = (e["kind"], e["msg"], e["where"])
    if k in seen:
        continue
    seen.add(k)
    print("ERR", e["kind"], e["msg"][:200], "|", e["where"][:300], "|", str(e["inputs"])[:600])

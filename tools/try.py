#!/usr/bin/env python3
# try.py harness entry src,src [k=v ...] [-j N] [-t sec]: run one unit and print a summary
import sys, os, json, time, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import vlib
a = sys.argv[1:]
jobs = 4; t = 120; params = {}; defs = []; nat = "-n" in a
a = [x for x in a if x != "-n"]
pos = []
i = 0
while i < len(a):
    if a[i] == "-j": jobs = int(a[i+1]); i += 2
    elif a[i] == "-t": t = int(a[i+1]); i += 2
    elif a[i].startswith("-D"): defs.append(a[i]); i += 1
    elif "=" in a[i]: k, v = a[i].split("="); params[k] = int(v); i += 1
    else: pos.append(a[i]); i += 1
u = dict(harness=pos[0], entry=pos[1], src=[x for x in pos[2].split(",") if x], params=params, defs=defs)
w = "/tmp/vtry.%d" % os.getpid(); os.makedirs(w, exist_ok=True)
try:
    vlib.ensure_engine()
    b = vlib.Builder(w)
    t0 = time.time(); b.bitcode(u); print("build %.1f" % (time.time()-t0))
    r = vlib.run_unit(b, u, jobs, t, 0)
    f = r.pop("functions"); s = r.pop("samples"); v = r.pop("violations")
    print(json.dumps({k:x for k,x in r.items() if k!="log"})); print(r["log"] if "HOT" not in r["log"] else "")
    print("\n".join(x[:260] for x in r["log"].splitlines() if "HOT" in x)); print("samples", len(s), s[:2])
    repo = {k: x for k, x in f.items() if x[0]}
    if "-v" in sys.argv:
        for k, x in sorted(repo.items()): print("   ", k, x)
    print("functions", len(f), "repo", len(repo))
    for x in v[:6]:
        print("VIOL", x["kind"], x["msg"]); print("   ", x["stack"][:12]); print("   ", x["inputs"])
        if nat: print("   REPLAY", vlib.replay(b, u, x, w + "/in"))
    print(len(v), "violations")
except vlib.BuildError as e:
    print(e)
finally:
    shutil.rmtree(w, ignore_errors=True)

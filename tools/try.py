#!/usr/bin/env python3
"""Development helper: try.py drv scen runs spec_dir module [k=v ...]"""
import sys
from kv import *
d, scen, runs, sd, mod = sys.argv[1:6]
kw = dict(x.split("=") for x in sys.argv[6:])
sdk = kw.pop("sdk", "0") == "1"
rs = [x for x in kw.pop("repo", "").split(",") if x]
libs = [x for x in kw.pop("libs", "").split(",") if x]
show = int(kw.pop("show", 2))
w = Work("try")
drv = Driver(d, sdk=sdk, repo_srcs=rs, libs=libs)
t = time.time(); drv.build(w); print("build %.1fs" % (time.time() - t))
t = time.time()
raw, st = sim_runs(w, drv, scen, int(runs), **{k: (int(v) if v.isdigit() else v) for k, v in kw.items()})
print("runs %.1fs" % (time.time() - t), st)
print("events max", max(len(x["ev"]) for x in raw), "avg", sum(len(x["ev"]) for x in raw) / len(raw))
for kind in ("stuck", "crash", "hang", "impossible"):
    print(kind, sum(1 for x in raw if any(e["e"] == kind for e in x["ev"])))
prep = [lin_prepare(x) for x in raw]
t = time.time()
rej, g, dd = validate(w, sd, mod, prep)
print("validate %.1fs: %d of %d rejected, %d states" % (time.time() - t, len(rej), len(raw), dd))
byev = {}
for i, at in rej.items():
    ev = prep[i]["ev"]
    e = ev[at - 1] if at - 1 < len(ev) else {"e": "?"}
    key = e["e"]
    if key == "ret":
        c = [x for x in ev[:at - 1] if x["e"] == "call" and x["t"] == e["t"]][-1]
        key = "ret " + c["o"] + " " + str(e.get("x", ""))
    byev.setdefault(key, []).append((len(ev), i, at))
for k, v in byev.items():
    print("==", k, len(v))
    for _, i, at in sorted(v)[:show]:
        print("   cfg", prep[i]["cfg"], {x: raw[i][x] for x in raw[i] if x not in ("ev", "forced")})
        for j, e in enumerate(prep[i]["ev"][:at + 1]):
            print("    ", "->" if j == at - 1 else "  ", json.dumps({x: e[x] for x in e if x not in ("d",)}))
w.close()

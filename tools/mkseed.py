#!/usr/bin/env python3
"""Development helper: write one planted bug and confirm it.
mkseed.py FILE...: each FILE defines id, prop, needs, breaks, edits=[(path, old, new)], demo (C++ text),
and optionally sdk, srcs (repo sources), flags, libs. Confirms: demo passes without, fails with the patch; builds; stable tests pass."""
import os, shutil, subprocess, sys, json, tempfile
R, V = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = ["core/modules/core/include", "core/modules/mem_mdlw/include", "core/modules/socket_mdlw/include",
       "serialization/modules/serialization/include", "high_performance/modules/high_performance/include",
       "state_machine/modules/state_machine/include", "state_machine/modules/json_conf/include"]
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 if the property holds on what this tries
d=$(cd "$(dirname "$0")" && pwd); R=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "${w:?}"' EXIT
INC="%s"
for q in /usr/include/concurrentqueue/moodycamel /usr/include/concurrentqueue; do [ -e $q/concurrentqueue.h ] && INC="$INC -I$q"; done
g++ -std=c++17 -O1 -g -w -DHAS_EPOLL -faligned-new -DSPDLOG_COMPILED_LIB %s $INC "$d/demo.cpp" %s -o "$w/demo" %s -lspdlog -lfmt -lpthread || exit 3
cd "$w" && timeout %d "$w/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh("git -C /repo checkout -- .")
def tests():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: return "build failed: " + r.stdout[-1500:]
    sh("bash /opt/vp/test.sh /tmp/seed-test.json")
    o = json.load(open("/tmp/seed-test.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    return o, base
ok_all = True
for f in sys.argv[1:]:
    g = {"sdk": False, "srcs": [], "flags": "", "libs": "", "timeout": 120, "extra": {}}
    exec(open(f).read(), g)
    d = os.path.join(V, "seeded", g["id"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    inc = " ".join("-I$R/" + i for i in INC) + (" -I$d/sdk" if g["sdk"] else "")
    if g["sdk"]: shutil.copytree(V + "/sdk_stub", d + "/sdk")
    open(d + "/demo.cpp", "w").write(g["demo"])
    for n, t in g["extra"].items(): open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write(DEMO % (inc, g["flags"], " ".join('"$R/%s"' % s if "*" not in s else "$R/" + s for s in g["srcs"]), g["libs"], g["timeout"]))
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    clean()
    for path, old, new in g["edits"]:
        s = open(R + "/" + path).read()
        if s.count(old) != 1:
            print(g["id"], "edit matches", s.count(old), "times in", path); ok_all = False; break
        open(R + "/" + path, "w").write(s.replace(old, new))
    else:
        open(d + "/patch.diff", "w").write(subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout)
        bad = sh("bash %s/demo.sh" % d, cwd=R)
        t = tests()
        clean()
        good = sh("bash %s/demo.sh" % d, cwd=R)
        res = "?"
        if isinstance(t, str): res = t
        else:
            o, base = t
            def names(x):
                if isinstance(x, dict):
                    for k in ("passed", "pass", "stable", "tests"):
                        if k in x and isinstance(x[k], list): return set(map(str, x[k]))
                return set()
            miss = names(base) - names(o)
            res = "tests ok" if not miss and names(base) else "TESTS MISSING %s" % sorted(miss)[:5]
        verdict = good.returncode == 0 and bad.returncode not in (0, 2, 3) and res == "tests ok"
        ok_all &= verdict
        print(g["id"], "OK" if verdict else "BAD", "good rc", good.returncode, "bad rc", bad.returncode, res)
        if not verdict: print(good.stdout[-800:], "----", bad.stdout[-800:])
clean()
sys.exit(0 if ok_all else 1)

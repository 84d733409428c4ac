"""Machinery shared by all checks: build a driver against /repo, run it, validate what it recorded
with TLC, model check the specifications, and write the evidence."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KPSR_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
try:
    NCPU = len(os.sched_getaffinity(0))
except Exception:
    NCPU = os.cpu_count() or 4
NCPU = max(1, min(NCPU, 8))

INCLUDES = ["core/modules/core/include", "core/modules/mem_mdlw/include",
            "core/modules/socket_mdlw/include", "core/modules/zmq_mdlw/include",
            "serialization/modules/serialization/include",
            "high_performance/modules/high_performance/include",
            "state_machine/modules/state_machine/include",
            "state_machine/modules/json_conf/include"]


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


class Work:
    """A scratch directory, removed at the end."""
    def __init__(self, prop):
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="%s-" % prop, dir=base)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                          timeout=timeout, env=e, cwd=cwd, errors="replace")


def find_inc(name, suffixes=("", "concurrentqueue/moodycamel", "concurrentqueue")):
    for root in ("/usr/include", "/usr/local/include"):
        for s in suffixes:
            if os.path.exists(os.path.join(root, s, name)):
                return os.path.join(root, s)
    return None


KNOWN_SRCS = {"configuration_environment.cpp", "core_container.cpp", "prop_file_environment.cpp", "version.cpp",
              "basic_scheduler.cpp", "in_memory_queue_poller.cpp", "mem_env.cpp", "base_socket.cpp",
              "connect_socket.cpp", "data_socket.cpp", "protocol.cpp", "protocol_simple.cpp",
              "server_socket.cpp", "zmq_env.cpp", "event_loop_scheduler.cpp", "json_config_loader.cpp",
              "kpsr_state_machine.cpp", "sm_factory_impl.cpp", "state_impl.cpp", "state_machine_impl.cpp",
              "state_machine_listener.cpp", "transition_impl.cpp"}


class Driver:
    """A harness program built from /verif/harness/drv and sources of /repo."""
    def __init__(self, name, srcs=(), repo_srcs=(), sim=True, sdk=False, libs=(), flags=(),
                 opt="-O1"):
        self.name, self.sim, self.sdk = name, sim, sdk
        self.srcs = ["drv/%s.cpp" % name] + list(srcs)
        self.repo_srcs, self.libs, self.flags, self.opt = list(repo_srcs), list(libs), list(flags), opt
        self.exe = None

    def repo_files(self):
        """The sources of /repo the driver needs, and files added next to them (the build of the
        repository takes all files of these directories)."""
        files = {g for s in self.repo_srcs for g in glob.glob(os.path.join(REPO, s))}
        for d in {os.path.dirname(f) for f in files}:
            files |= {g for g in glob.glob(os.path.join(d, "*.cpp")) if os.path.basename(g) not in KNOWN_SRCS}
        return sorted(files)

    def build(self, work):
        if self.exe:
            return self.exe
        inc = ["-I" + os.path.join(REPO, i) for i in INCLUDES]
        if self.sdk:
            inc.append("-I" + os.path.join(VERIF, "sdk_stub"))
        cq = find_inc("concurrentqueue.h")
        if cq:
            inc.append("-I" + cq)
        base = ["g++", "-std=c++17", "-g1", "-w", "-DHAS_EPOLL", "-faligned-new",
                "-fno-strict-overflow", "-DSPDLOG_COMPILED_LIB"] + list(self.flags) + inc
        jobs = []
        for s in self.srcs:
            jobs.append((os.path.join(HARN, s), True))
        for g in self.repo_files():
            jobs.append((g, True))
        if self.sim:
            jobs.append((os.path.join(HARN, "sim/ksim.cpp"), False))
        objs = []

        def comp(j):
            src, instr = j
            o = work.path("%s_%s.o" % (self.name, hashlib.sha1(src.encode()).hexdigest()[:10]))
            cmd = base + ([self.opt, "-fsanitize=thread", "-Wno-tsan"] if self.sim and instr
                          else ["-O2"] if not instr else [self.opt])
            r = run(cmd + ["-c", src, "-o", o], timeout=600)
            if r.returncode:
                raise HarnessError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(comp, jobs))
        exe = work.path(self.name)
        r = run(["g++", "-g1"] + objs + ["-o", exe] + list(self.libs) + ["-lspdlog", "-lfmt", "-lpthread", "-ldl"],
                timeout=300)
        if r.returncode:
            raise HarnessError("linking %s failed:\n%s" % (self.name, r.stderr[-4000:]))
        self.exe = exe
        return exe


def salvage(ln):
    """A run that corrupts memory may garble its own log: keep the events that are whole, then a crash."""
    i = ln.find('"ev":[')
    if i < 0:
        return None
    try:
        t = json.loads(ln[:i] + '"ev":[]}')
    except ValueError:
        return None
    dec, k = json.JSONDecoder(), i + 6
    while True:
        try:
            e, k = dec.raw_decode(ln, k)
        except ValueError:
            break
        if not isinstance(e, dict) or "e" not in e:
            break
        t["ev"].append(e)
        if ln[k:k + 1] != ",":
            break
        k += 1
    t["ev"].append({"e": "crash", "garbled": 1})
    return t


def parse_line(ln):
    try:
        return json.loads(ln)
    except ValueError:
        return salvage(ln)


def sim_runs(work, drv, scen, runs, mode="random", weakpct=0, spur=0, maxsec=20, maxdistinct=None,
             pb=2, ds=None, tag="", spd=4):
    """Run a simulated driver in NCPU processes; returns (list of raw traces, stats)."""
    exe = drv.build(work)
    procs = []
    for i in range(NCPU):
        out = work.path("raw-%s-%s-%s-%d.nd" % (drv.name, scen, tag or mode, i))
        cmd = [exe, "--scen", scen, "--runs", str(runs), "--seed", str(seed()), "--part", str(i),
               "--parts", str(NCPU), "--out", out, "--mode", mode, "--weakpct", str(weakpct),
               "--spur", str(spur), "--maxsec", str(maxsec), "--cpu", str(i), "--pb", str(pb),
               "--spd", str(spd)]
        if ds is not None:
            cmd += ["--ds", str(ds)]
        if maxdistinct:
            cmd += ["--maxdistinct", str(max(1, maxdistinct // NCPU))]
        procs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                            text=True, errors="replace")))
    traces, stats, seen = [], {"runs": 0, "steps": 0, "switches": 0, "stuck": 0, "crash": 0, "weak": 0,
                               "complete": True}, set()
    for out, p in procs:
        try:
            _, err = p.communicate(timeout=maxsec + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            raise HarnessError("driver %s did not finish" % drv.name)
        if p.returncode != 0:
            raise HarnessError("driver %s exited %s: %s" % (drv.name, p.returncode, err[-1500:]))
        line = [x for x in err.splitlines() if x.startswith('{"runs"')]
        if not line:
            raise HarnessError("driver %s gave no statistics: %s" % (drv.name, err[-1500:]))
        s = json.loads(line[-1])
        for k in ("runs", "steps", "switches", "stuck", "crash", "weak"):
            stats[k] += s[k]
        stats["complete"] = stats["complete"] and s["complete"]
        with open(out, errors="replace") as f:
            for ln in f:
                t = parse_line(ln)
                if t is None:
                    raise HarnessError("driver %s wrote a bad line: %s" % (drv.name, ln[:300]))
                k = json.dumps(t["ev"])
                if k not in seen:
                    seen.add(k)
                    t["drv"] = drv.name
                    traces.append(t)
        os.unlink(out)
    stats["distinct"] = len(traces)
    return traces, stats


def replay_run(work, drv, t):
    out = work.path("replay.nd")
    cmd = [drv.build(work), "--mode", "one", "--scen", t["scen"], "--ds", str(t["ds"]), "--seed",
           str(t["ss"]), "--weak", str(t["weak"]), "--out", out, "--spur", str(t.get("spur", 0))]
    if t["mode"] == 1:
        cmd += ["--forced", t["forced"] or "-"]
    r = run(cmd, timeout=120)
    if r.returncode:
        raise HarnessError("replay failed: " + r.stderr[-500:])
    with open(out, errors="replace") as f:
        n = parse_line(f.readline())
    n["drv"] = drv.name
    return n


def lin_prepare(t):
    """Raw history -> input of LinTrace: configuration, thread set, responses attached to calls."""
    cfg, ev, threads, open_ = {}, [], set(), {}
    for e in t["ev"]:
        if e["e"] == "cfg":
            cfg.update({k: v for k, v in e.items() if k != "e"})
            continue
        if e["e"] == "call":
            c = dict(e)
            c.update(d=0, r=[], x="")
            open_[e["t"]] = c
            threads.add(e["t"])
            ev.append(c)
        elif e["e"] == "ret":
            c = open_.pop(e["t"], None)
            if c is None:
                ev.append({"e": "impossible", "t": e["t"], "what": "return without call"})
                continue
            c["d"], c["r"], c["x"] = 1, e["r"], e.get("x", "")
            ev.append(e)
        else:
            if "t" in e:
                threads.add(e["t"])
            ev.append(e)
    if not cfg:
        cfg = {"none": 0}
    return {"cfg": cfg, "ev": ev, "threads": sorted(threads) or [0]}


# ------------------------------------------------------------------------------------------- TLC
def tlc(work, module_dir, module, cfg, env=None, workers=1, timeout=600, heap="2g", extra=(),
        dfs=False, tag=""):
    d = work.path("tlc-%s-%s" % (module, tag or hashlib.sha1(os.urandom(8)).hexdigest()[:8]))
    os.makedirs(d)
    for src in (module_dir, os.path.join(SPEC, "lib")):
        for f in glob.glob(os.path.join(src, "*.tla")) + glob.glob(os.path.join(src, "*.cfg")):
            shutil.copy(f, d)
    jopt = ["-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss16m"]
    if workers == 1:
        jopt += ["-XX:TieredStopAtLevel=4"]
    if dfs:
        jopt.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd = ["java"] + jopt + ["-cp", JARS, "tlc2.TLC", "-config", cfg, "-workers", str(workers),
                             "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE"] + list(extra) + [module]
    try:
        r = run(cmd, timeout=timeout, env=env, cwd=d)
    except subprocess.TimeoutExpired:
        raise HarnessError("TLC on %s timed out" % module)
    shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
    r.dir = d
    return r


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc_stats(out):
    m = STATS.findall(out.replace(",", ",").replace("\u202f", ""))
    m = STATS.findall(re.sub(r"(?<=\d),(?=\d)", "", out))
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def validate(work, spec_dir, module, prepared, dfs=False, chunk=None, timeout=700, cfg=None):
    """Validate prepared traces with the trace specification; returns (rejected {index: furthest
    event}, states, distinct)."""
    if not prepared:
        return {}, 0, 0
    n = len(prepared)
    k = min(NCPU, max(1, n // 20 + 1)) if chunk is None else max(1, (n + chunk - 1) // chunk)
    parts = [list(range(i, n, k)) for i in range(k)]

    def one(j):
        idx = parts[j]
        f = work.path("tr-%s-%d-%s.nd" % (module, j, hashlib.sha1(os.urandom(8)).hexdigest()[:8]))
        with open(f, "w") as o:
            for i in idx:
                o.write(json.dumps(prepared[i]) + "\n")
        r = tlc(work, os.path.join(SPEC, spec_dir), module, (cfg or module) + ".cfg", env={"TRACES": f},
                timeout=timeout, dfs=dfs)
        out = r.stdout
        if "<<\"CHECKED\", %d>>" % len(idx) not in out:
            keep = os.path.join(VERIF, "build", "tlc-failure.txt")
            with open(keep, "w") as o:
                o.write(out + r.stderr)
            raise HarnessError("TLC failed on %s (see %s):\n%s" % (module, keep, out[-3000:]))
        rej = {}
        for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out):
            rej[idx[int(a) - 1]] = int(b)
        g, dd = tlc_stats(out)
        os.unlink(f)
        shutil.rmtree(r.dir, ignore_errors=True)
        return rej, g, dd
    rej, gs, ds = {}, 0, 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for a, g, d in ex.map(one, range(k)):
            rej.update(a)
            gs += g
            ds += d
    return rej, gs, ds


def model_check(work, spec_dir, module, cfg=None, workers=None, timeout=800, heap="6g", extra=()):
    """Exhaustive TLC run of a design specification; returns dict or raises on a violation."""
    r = tlc(work, os.path.join(SPEC, spec_dir), module, (cfg or module) + ".cfg",
            workers=workers or NCPU, timeout=timeout, heap=heap, extra=extra)
    ok = "Model checking completed. No error has been found." in r.stdout
    g, d = tlc_stats(r.stdout)
    if not ok:
        raise HarnessError("model checking %s/%s failed:\n%s" % (spec_dir, cfg or module, r.stdout[-3500:]))
    return {"spec": "%s/%s" % (spec_dir, cfg or module), "generated": g, "distinct": d, "out": r.stdout}


# ------------------------------------------------------------------------------------------ check
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.work = Work(prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "model_checking_runs": [], "trace_suites": []}
        self.assumptions = []
        self.violations = []
        self.known = load_known(prop)
        self.known_hits = {}

    # --- design model checking
    def mc(self, spec_dir, module, cfg=None, **kw):
        t = time.time()
        r = model_check(self.work, spec_dir, module, cfg, **kw)
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["model_checking_runs"].append({"spec": r["spec"], "states": r["distinct"],
                                                "transitions": r["generated"],
                                                "seconds": round(time.time() - t, 1)})
        log("[%s] model checked %s: %d states, %.1fs" % (self.prop, r["spec"], r["distinct"], time.time() - t))
        return r

    # --- recorded traces
    def traces(self, label, raw, prep, spec_dir, module, rerun=None, stats=None, dfs=False, cfg=None,
               timeout=700):
        t = time.time()
        prepared = [prep(x) for x in raw]
        rej, g, d = validate(self.work, spec_dir, module, prepared, dfs=dfs, cfg=cfg, timeout=timeout)
        n = len(prepared)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov["traces_validated_against_impl"] += n - len(rej)
        suite = {"suite": label, "spec": "%s/%s" % (spec_dir, module), "traces": n, "rejected": len(rej),
                 "trace_states": d, "events": sum(len(p["ev"]) for p in prepared)}
        if stats:
            suite.update({k: stats[k] for k in stats})
        self.cov["trace_suites"].append(suite)
        if n and len(self.cov["samples"]) < 6:
            mid = prepared[n // 2]
            self.cov["samples"].append({"suite": label, "cfg": mid.get("cfg"), "events": mid["ev"][:12]})
        log("[%s] %s: %d traces validated, %d rejected, %d states, %.1fs%s" %
            (self.prop, label, n, len(rej), d, time.time() - t,
             "" if not stats else " (runs %s, sim %s steps)" % (stats.get("runs"), stats.get("steps"))))
        self._reject(label, raw, prepared, rej, spec_dir, module, prep, rerun, dfs, cfg)

    def _reject(self, label, raw, prepared, rej, spec_dir, module, prep, rerun, dfs, cfg):
        unrep = 0
        for i in sorted(rej, key=lambda i: len(prepared[i]["ev"])):
            if sum(1 for v in self.violations if v["suite"] == label) >= 3:
                break
            t, p = raw[i], prepared[i]
            # the same recorded trace must be rejected again, and so must a fresh run of the same case
            again, _, _ = validate(self.work, spec_dir, module, [p], dfs=dfs, cfg=cfg)
            if 0 not in again:
                raise HarnessError("TLC accepted a trace it had rejected (%s)" % label)
            repeat = None
            if rerun:
                for _ in range(3):
                    t2 = rerun(t)
                    p2 = prep(t2)
                    r2, _, _ = validate(self.work, spec_dir, module, [p2], dfs=dfs, cfg=cfg)
                    if 0 in r2:
                        repeat = True
                        break
                if not repeat:
                    unrep += 1
                    log("[%s] rejection of %s ds=%s ss=%s did not repeat" % (self.prop, label, t.get("ds"), t.get("ss")))
                    if unrep < 20:
                        continue
                    raise HarnessError("rejections of %s do not repeat" % label)
            at = again[0]
            k = self._known(label, t, p, at)
            if k:
                self.known_hits.setdefault(k["id"], 0)
                self.known_hits[k["id"]] += 1
                continue
            self.violations.append({"suite": label, "spec": "%s/%s" % (spec_dir, module), "at": at,
                                    "event": p["ev"][at - 1] if at - 1 < len(p["ev"]) else None,
                                    "trace": p, "raw": {x: t[x] for x in t if x != "ev"}})

    def _known(self, label, raw, prepared, at):
        for k in self.known:
            if k.get("kind") == "finding" and k.get("suite") == label:
                ev = prepared["ev"][at - 1] if at - 1 < len(prepared["ev"]) else {}
                if all(ev.get(a) == b for a, b in k.get("event", {}).items()) and \
                   all(prepared.get("cfg", {}).get(a) == b for a, b in k.get("cfg", {}).items()):
                    return k
        return None

    def violation(self, suite, what, detail=None):
        self.violations.append({"suite": suite, "what": what, "detail": detail})

    def finish(self):
        rd = os.path.join(VERIF, "build", "replays")
        ev = {"property": self.prop, "tier": tier() if tier() in ("quick", "thorough") else "quick",
              "seed": seed(), "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.work.close()
        for k in self.known:
            if k.get("kind") == "finding":
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            os.makedirs(rd, exist_ok=True)
            for n, v in enumerate(self.violations[:5]):
                path = os.path.join(rd, "%s-%d.json" % (self.prop, n))
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                log("[%s] %s: rejected at event %s: %s" % (self.prop, v["suite"], v.get("at"),
                                                          v.get("event") or v.get("what")))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s traces=%d states=%d wall=%.1fs" %
              (self.prop, self.cov["traces_validated_against_impl"], self.cov["states"], time.time() - self.t0))
        return 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                k = json.loads(ln)
                if k.get("property") == prop:
                    out.append(k)
    return out


def sim_suite(chk, drv, scen, spec_dir, module, runs, thorough_runs=None, prep=lin_prepare, mode="random",
              dfs=False, maxtraces=None, label=None, cfg=None, **kw):
    """Record simulated runs of a scenario and validate them."""
    th = tier() == "thorough"
    n = (thorough_runs or runs * 12) if th else runs
    kw.setdefault("maxsec", 240 if th else 15)
    raw, st = sim_runs(chk.work, drv, scen, n, mode=mode, tag=(label or scen), **kw)
    for t in raw:
        t["spur"] = kw.get("spur", 0)
    chk.traces(label or "%s/%s/%s" % (drv.name, scen, mode), raw, prep, spec_dir, module,
               rerun=lambda t: replay_run(chk.work, drv, t), stats=st, dfs=dfs, cfg=cfg)


def main(prop, fn):
    try:
        chk = Check(prop)
        try:
            fn(chk)
            rc = chk.finish()
        finally:
            chk.work.close()
    except HarnessError as e:
        log("ERROR: %s" % e)
        sys.exit(2)
    sys.exit(rc)

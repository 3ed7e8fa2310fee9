#!/usr/bin/env python3
"""check.py <property> [quick|thorough]     decide one property by seeded simulation
   check.py --replay <property> <file>       re-execute a replay file against /repo's current tree
   check.py --setup                          build every simulator"""
import json, os, subprocess, sys, time, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import build
from specs import SPECS

def env():
    e = dict(os.environ)
    for k in ("ASAN_OPTIONS", "MALLOC_ARENA_MAX", "LD_PRELOAD"): e.pop(k, None)
    e["LC_ALL"] = "C"; e["TZ"] = "UTC"
    return e

def exe_of(st):
    b = dict(st["build"]); return build.build(b.pop("name"), b.pop("flavour"), b.pop("wl"), **b)

def known(pid):
    out = []
    for l in open(os.path.join(HERE, "known_findings.jsonl")):
        l = l.strip()
        if not l or l.startswith("#") or l.startswith("fixed:"): continue
        d = json.loads(l)
        if d["property"] == pid: out.append(d)
    return out

def run_stage(pid, st, tier, seed, tmp, deadline):
    exe = exe_of(st)
    n = st[tier]; W = min(build.jobs(), n)
    key = st["workload"] + "-" + st["build"]["flavour"]
    stop = os.path.join(tmp, "stop-" + key)
    kf = os.path.join(tmp, "known-" + key); ks = [k for k in known(pid) if k["workload"] == st["workload"]]
    with open(kf, "w") as f:
        for k in ks: f.write("%s|%s\n" % (k["class"], k["match"]))
    procs = []
    for i in range(W):
        out = os.path.join(tmp, "%s-%d.json" % (key, i))
        c = n // W + (1 if i < n % W else 0)
        cmd = [exe, "run", "--wl", st["workload"], "--base", str(seed), "--first", str(i), "--stride", str(W), "--count", str(c), "--out", out, "--stop", stop, "--time", "%.1f" % max(5, deadline - time.time()), "--shrink", "20" if tier == "quick" else "60", "--tier", tier, "--known", kf]
        procs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env(), cwd=tmp)))
    res = []
    for out, p in procs:
        err = p.communicate()[1].decode(errors="replace")
        d = None
        if os.path.exists(out):
            try: d = json.load(open(out))
            except ValueError: d = None
        res.append((p.returncode, d, out, err))
    return exe, res, ks

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        t = time.time()
        for pid in SPECS:
            for st in SPECS[pid]["stages"]:
                exe_of(st)
        print("built all simulators in %.0f s" % (time.time() - t)); return 0
    if a and a[0] == "--replay":
        pid, f = a[1], a[2]
        wl = [l.split()[1] for l in open(f) if l.startswith("workload ")][0]
        fl = ([l.split()[1] for l in open(f) if l.startswith("flavour ")] + ["asan"])[0]
        st = [s for s in SPECS[pid]["stages"] if s["workload"] == wl and s["build"]["flavour"].startswith(fl)][0]
        return subprocess.call([exe_of(st), "replay", "--file", f] + (["--trace", "1"] if "-v" in a else []), env=env())
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = SPECS[pid]
    t0 = time.time()
    limit = float(os.environ.get("SIM_LIMIT", "0")) or (500 if tier == "quick" else 6 * 3600)
    build.prune()
    tmp = tempfile.mkdtemp(prefix="flamecheck-")
    rc = 0
    tot = dict(runs=0, discarded=0, double=0, choices=0, sim=0.0, logs=0); counters = {}; reach = set(); samples = []; stages = []; viol = None; findings = []; bad = []
    tb = 0.0
    try:
        for st in spec["stages"]:
            tt = time.time(); exe_of(st); tb += time.time() - tt
            tt = time.time()
            exe, res, ks = run_stage(pid, st, tier, seed, tmp, t0 + limit)
            wall = time.time() - tt
            sr = 0; sreach = set(); kn = [0] * len(ks)
            for code, d, out, err in res:
                if d is None: bad.append("worker died (exit %s): %s" % (code, err[-800:])); continue
                sr += d["runs"]; tot["runs"] += d["runs"]; tot["discarded"] += d["discarded"]; tot["double"] += d["double_runs"]; tot["choices"] += d["choices"]; tot["sim"] += d["sim_seconds"]; tot["logs"] += d["distinct_logs"]
                for k, v in d["counters"].items():
                    if k.startswith("known."): kn[int(k[6:])] += v
                    else: counters[k] = counters.get(k, 0) + v
                sreach.update(d["reach"]); samples += [st["workload"] + " " + s for s in d["samples"]]
                if d["bad"]: bad.append(d["bad"])
                if d.get("violation") and viol is None:
                    r = subprocess.run([exe, "replay", "--file", out + ".replay"], stdout=subprocess.PIPE, env=env(), cwd=tmp)
                    o = r.stdout.decode(errors="replace"); c = d["violation"]["class"]
                    if r.returncode == 1 or (r.returncode == 3 and "class=" + c + " " in o):
                        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                        dst = os.path.join(HERE, "replays", "%s-%s-%s-%d.replay" % (pid, st["workload"], st["build"]["flavour"], d["violation"]["seed"]))
                        shutil.copy(out + ".replay", dst); shutil.copy(out + ".full", dst + ".full")
                        viol = (dst, d["violation"], st["workload"])
                    else: bad.append("violation of seed %d (%s) not reproduced in a fresh process: %s" % (d["violation"]["seed"], c, o[:600]))
            for k, n in zip(ks, kn):
                if n: findings.append((k, n))
            reach |= {(st["workload"], st["build"]["flavour"], h) for h in sreach}
            stages.append({"workload": st["workload"], "flavour": st["build"]["flavour"], "runs": sr, "wall_s": round(wall, 2), "runs_per_hour": int(sr / max(wall, 1e-3) * 3600), "distinct_reached": len(sreach)})
            if viol: break
    except build.BuildError as e:
        print("ERROR: cannot build the simulator from /repo: %s" % e); shutil.rmtree(tmp, ignore_errors=True); return 2
    wall = time.time() - t0
    faults = {k: v for k, v in sorted(counters.items()) if k.startswith("fault.")}
    probes = {k: v for k, v in sorted(counters.items()) if not k.startswith("fault.")}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if viol else 0,
          "assumptions": spec["assumptions"],
          "coverage": {"evaluations": tot["runs"], "distinct_nontrivial": len(reach), "rule": spec["rule"], "samples": samples[:6] or ["none"],
                       "seeds": tot["runs"], "runs_per_hour": int(tot["runs"] / max(wall - tb, 1e-3) * 3600), "build_s": round(tb, 2), "stages": stages,
                       "simulated_seconds": tot["sim"], "choices_drawn": tot["choices"], "distinct_event_logs": tot["logs"], "discarded_runs": tot["discarded"],
                       "determinism_double_runs": tot["double"], "faults_injected": faults, "probes": probes,
                       "real_components": spec["real"], "stubbed_components": spec["stub"], "known_findings_seen": {k["id"]: n for k, n in findings}}}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    shutil.rmtree(tmp, ignore_errors=True)
    for k, n in findings: print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (pid, k["what"], n))
    if viol:
        print("%s: workload %s seed %d class %s: %s" % (pid, viol[2], viol[1]["seed"], viol[1]["class"], viol[1]["message"][:1200]))
        print("VIOLATION property=%s replay=%s" % (pid, viol[0])); return 1
    if bad:
        for b in bad: print("ERROR: " + b)
        return 2
    print("OK property=%s tier=%s runs=%d distinct=%d faults=%d wall=%.1fs (build %.1fs)" % (pid, tier, tot["runs"], len(reach), sum(faults.values()), wall, tb)); return 0

if __name__ == "__main__": sys.exit(main())

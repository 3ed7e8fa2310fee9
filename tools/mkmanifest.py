#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools"); sys.dont_write_bytecode = True
from specs import SPECS
NA = json.load(open(HERE + "/tools/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks = []
for p in ids:
    if p not in SPECS: continue
    s = SPECS[p]
    fl = sorted({st["build"]["flavour"] for st in s["stages"]})
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection: seeded search over histories%s and faults, reference-model oracle, minimised replay" % (", thread schedules" if "sched" in fl else ""),
        "level": "exploration",
        "level_note": "Sampled, not exhaustive: real repository code under simulated allocator, file system%s and clock; every choice comes from one seed. %s" % (", thread scheduler" if "sched" in fl else "", "Assumes: " + "; ".join(s["assumptions"]) + "." if s["assumptions"] else "")})
na = [{"property": p, "reason": NA[p]} for p in ids if p not in SPECS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "none", "enable": "no hooks in /repo are needed: the seams are the allocator, libc file calls, pthread calls and compiler instrumentation, all outside /repo", "source_commits": []}, "checks": checks, "not_applicable": na,
  "notes": "check.py --replay <ID> <file> [-v] re-executes a replay file against /repo's current tree."}, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")

#!/usr/bin/env python3
"""regenerates MANIFEST.json from the list of claimed checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CL = {
 "C01": (T + "pool under simulated threads/processes/pipes, seeded schedules, worker crashes, fork failures", "exploration",
         "real dispatcher code; seeded sampling of schedules at lock/IPC and source-line granularity; trusts the simulator's model of fork, pipes and signals"),
 "C02": (T + "deadlock/step-cap detection, worker count and list-scheduling bound in virtual time", "exploration",
         "liveness = progress in virtual time; seeded sampling; trusts the simulator's model of fork, pipes and signals"),
 "C03": (T + "virtual clock, asynchronous kill delivery, effects of stopped workers", "exploration",
         "durations placed within 1e-6 of the timeout in virtual time; seeded sampling"),
}
EXTRA = {}
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] in CL:
        t, lv, note = CL[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick",
                       "thorough_cmd": f"bin/check {p['id']} thorough", "technique": t,
                       "level": lv, "level_note": note, "evidence_file": f"evidence/{p['id']}.json"})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")} for p in props if p["id"] not in CL]
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the simulator replaces standard-library primitives (threading, multiprocessing, time, files, joblib backend, numpy generators) in its own process before importing smote_variants from /repo. Replay: bin/check --replay FILE. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

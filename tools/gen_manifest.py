#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import scenarios
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in scenarios.ALL:
        sc = scenarios.ALL[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": scenarios.TECH.get(i, "bounded symbolic execution of the Go SSA over all schedules and symbolic inputs, assertions decided by Z3 (cvc5 for floats), counterexamples replayed on the compiled code"),
            "level": "model_checking",
            "level_note": "Holds for every schedule and every symbolic input of %d scenarios (%s) within their stated bounds; trusts the engine's Go semantics and its models of context, fmt, errors, pprof and sync, cross-checked by replaying reachability witnesses on the real code." % (len(sc), ", ".join(s.fn for s in sc)),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: instrumentation for replays is generated from the current source into /verif/out and applied with a build overlay. /repo has fix: commits only; see known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C22": "pure text formatting of one argument: no concurrency, time, I/O, callback or history for a schedule or a "
           "fault to act on, so simulation would degenerate to input fuzzing",
    "C23": "pure function of one string (shell-like tokenisation of a key): nothing nondeterministic and no fault "
           "can reach it; its results are only used indirectly by the simulated histories",
    "C24": "pure function of one string (comment stripping): nothing nondeterministic and no fault can reach it",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C11": "deterministic simulation: seeded thread interleavings of the real code, decided line by line by the "
           "simulator, compared with solo runs",
    "C25": "deterministic simulation with fault injection: every seeded history and fault schedule is executed twice on the real "
           "code, with different diagnostic settings, and the recorded histories are compared",
    "C26": "deterministic simulation with fault injection: the real wrappers in bash over simulated tools whose exits, deaths, "
           "signals and published files follow a seeded schedule, checked against an executable reference model",
}
DEFAULT_TECH = ("deterministic simulation with fault injection: seeded histories and fault schedules over the real code, "
                "checked against an executable reference model")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(HERE, "sim", "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, DEFAULT_TECH),
            "level": "exploration",
            "level_note": "Seeded random search over simulated executions of the real code: evidence, not proof. Trusts "
                          "the reference model and the interposed seams described in DESIGN.md.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: every seam is a Python-level call that the simulator interposes from "
              "outside. ./check replay <file> re-executes a recorded violation."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

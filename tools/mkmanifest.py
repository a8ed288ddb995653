#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. BUILT lists the properties that have a check."""
import json, subprocess
BUILT = ["C%02d" % i for i in range(1, 31)]
NA = {}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=Export main under cfg"], capture_output=True, text=True).stdout.split()
TECH = "stateless model checking of the real program under a controlled scheduler and simulated environment; exhaustive enumeration of operation sequences, faults and schedules within bounds, judged by a specification automaton"
NOTES = {}
GENERIC = ("Every execution within the stated bounds (operation sequences, environment answers, schedules up to the deviation bound) of the real, whole program is run and judged. "
           "Trusts the simulated standard library and environment, the specification automaton, and that bugs show within the bounds.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUILT:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=TECH, level="model_checking", level_note=NOTES.get(i, GENERIC)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./build.sh",
    hooks=dict(guard="pizauth_verif", enable="mc/sut/build.rs passes --cfg pizauth_verif (cargo:rustc-cfg=pizauth_verif) when it compiles /repo/src", source_commits=hook),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md. ./check.sh PROPERTY quick|thorough; replay a violation with mc/target/debug/mc PROPERTY --replay FILE.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)

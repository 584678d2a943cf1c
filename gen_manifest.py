#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
A = "explicit-state exploration of all grammar-bounded programs and their executions, real macro in-process, conformance replay on rustc-compiled expansions"
C = "exhaustive exploration of operation sequences and field answers on the real derived enum, compared with the bare field"
CHECKS = json.load(open(os.path.join(V, "claims.json")))
D = "exhaustive enumeration of the macro's input space up to a stated size, every input run through the real macro in-process and its output judged against a specification model"
E = "exhaustive enumeration of programs or configurations up to a stated bound, each compiled by rustc with the real macro built from /repo, every verdict compared with a specification model"
T = {"A": A, "C": C, "D": D, "E": E, "D2": D + "; and " + E}
m = {
    "version": 1,
    "setup_cmd": "python3 /verif/setup.py",
    "hooks": {
        "guard": "auto_enums_verif",
        "enable": "aelib/build.rs passes --cfg auto_enums_verif when it builds /repo/src/lib.rs as an ordinary library (path in aelib/Cargo.toml)",
        "source_commits": ["f48c301a"],
    },
    "checks": [],
    "not_applicable": [],
    "notes": "See DESIGN.md. Every check: python3 /verif/check.py <id> <tier>.",
}
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=cfg hook"], capture_output=True, text=True).stdout.split()
m["hooks"]["source_commits"] = h
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 /verif/check.py {i} quick",
            "thorough_cmd": f"python3 /verif/check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": T.get(c["technique"], c["technique"]),
            "level": "model_checking",
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

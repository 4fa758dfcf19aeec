#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed once checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TRACE = ("TLC judges recorded answers of the real index builder and server against spec/Sparql.tla (trace validation "
         "by spec/EngineTrace.tla)")
NOTE_ENGINE = ("Every answer of the explored sessions equals the one the specification computes from the data and the "
               "query; the sessions are generated (seeded), so the guarantee is for the explored data and queries. "
               "Trusted: TLC, the rendering of queries and the parsing of answers in lib/gen.py, lib/qlever.py.")
T = {}
N = {}
LEVEL = {}
exec(open(os.path.join(V, "lib", "manifest_notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": T.get(i, TRACE), "level": LEVEL.get(i, "model_checking"),
                       "level_note": N.get(i, NOTE_ENGINE)})
    else:
        na.append({"property": i, "reason": "No check for it has been built yet (see DESIGN.md for the planned one)."})
m = {"version": 1, "setup_cmd": "python3 lib/qbuild.py",
     "hooks": {"guard": "QLEVER_VERIF_HOOKS",
               "enable": "lib/qbuild.py compiles a copy of /repo's sources with -DQLEVER_VERIF_HOOKS; limits are then read from QLEVER_LIMIT_<NAME> environment variables",
               "source_commits": ["01a81c4"]},
     "checks": checks, "not_applicable": na,
     "notes": "Specification language: TLA+ with TLC. spec/ holds the specification, lib/ and checks/ the conformance machinery, harness/ C++ drivers. Genuine defects: known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not claimed")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and specs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import specs
NA = {"G01": "No CUDA toolchain or device exists in this sandbox: the accelerator back end is excluded by the preprocessor in every build that can be made here, so there is no execution for a monitor to observe."}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.PROPS:
        s = specs.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 /verif/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
                       "technique": s.get("technique", "runtime monitoring: generated workloads under address/undefined-behaviour sanitizers, judged by a reference-model oracle"),
                       "level": s.get("level", "exploration"),
                       "level_note": s.get("note", "Held on the executions generated and monitored (see evidence); not a proof for inputs never driven.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Each check compiles what it needs from /repo's working tree into /verif/build (ignored by git) and runs it; no hooks in /repo are needed."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in na])

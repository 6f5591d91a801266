#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.join(H, "..")
sys.path.insert(0, os.path.join(R, "harness"))
import jobs as J
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in J.PROPS:
        s = J.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
            technique=s.get("technique", "runtime monitoring: model oracle over executions, ASan/UBSan"), level=s.get("level", "exploration"),
            level_note=s.get("note", "Held on the executions produced (counts in the evidence file); says nothing about paths and schedules not driven. Trusts the compiler sanitizers, the C library and the harness oracle.")))
    else:
        na.append(dict(property=i, reason=J.NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    hooks=dict(guard="VP_HOOKS", enable="no hooks are committed in /repo: the checks compile /repo's sources with sanitizer flags, -Dmemcpy=vp_memcpy and linker --wrap options instead", source_commits=[]),
    notes="python3 run.py --replay FILE re-runs a recorded case; see DESIGN.md")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1); print(len(checks), "claimed", len(na), "not")

#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props, checks
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
cs = []
for p in props.PROPS:
    c = checks.CHECKS.get(p["id"])
    if not c: continue
    cs.append({"property": p["id"], "quick_cmd": "python3 tools/run.py %s quick" % p["id"], "thorough_cmd": "python3 tools/run.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique", "model checking: bounded exhaustive exploration of the real code in lockstep with a reference model"),
        "level": "model_checking", "level_note": c["note"]})
na = [{"property": p["id"], "reason": checks.NOT_APPLICABLE.get(p["id"], "check not built yet")} for p in props.PROPS if p["id"] not in checks.CHECKS]
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "SPROUT_VERIF_HOOKS", "enable": "no hook was needed: the harnesses include /repo's headers unchanged", "source_commits": []},
     "checks": cs, "not_applicable": na,
     "notes": "tools/run.py compiles the harnesses in mc/ against /repo's working tree on every run; tools/gen.py writes this file and properties.jsonl from tools/props.py and tools/checks.py."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

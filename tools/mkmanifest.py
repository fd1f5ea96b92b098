"""Regenerates MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "lib"))
import registry
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.RUN:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           evidence_file=f"evidence/{i}.json", technique=registry.TECH.get(i, registry.TECH["*"]),
                           level="model_checking", level_note=registry.NOTE.get(i, registry.NOTE["*"])))
    else:
        na.append(dict(property=i, reason=registry.NA.get(i, "no check has been built for it yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks are needed: the checks use the public API of the crates", source_commits=[]),
         checks=checks, not_applicable=na, notes="see DESIGN.md")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "na")

#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i.lower()):
        n = notes[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="python3 run.py %s --thorough" % i,
                           technique=n[0], level="model_checking", level_note=n[1]))
    else: na.append(dict(property=i, reason="not built yet"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks: checks use the public API, the plugin interface and compiler instrumentation", source_commits=[]),
               checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")

"""Writes MANIFEST.json from props.META and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import META
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in META:
        m = META[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=m["technique"], level=m["level"], level_note=m["note"]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 check.py --build-all", checks=checks, not_applicable=na),
          open(V + "/MANIFEST.json", "w"), indent=1)

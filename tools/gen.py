"""Writes properties.jsonl (and MANIFEST.json) from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
V = os.path.dirname(HERE)
with open(f"{V}/properties.jsonl", "w") as f:
    for x in props.P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
claimed = getattr(props, "CLAIMED", None)
try:
    from claims import CLAIMS
except ImportError:
    CLAIMS = {}
checks, nas = [], []
for x in props.P:
    i = x["id"]
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                           technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        nas.append(dict(property=i, reason=props.NA.get(i, "Not claimed yet: its check is still being built.")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=nas), open(f"{V}/MANIFEST.json", "w"), indent=1)

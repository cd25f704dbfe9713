"""writes MANIFEST.json from props.py and the list of properties"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append(
            dict(
                property=i,
                quick_cmd="python3 tools/check.py %s" % i,
                thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s" % i,
                evidence_file="evidence/%s.json" % i,
                technique=p.get("technique", "abstract interpretation of the MIR against obligations in entry programs"),
                level="other",
                level_note=p.get("level_note", props.LEVEL_NOTE),
            )
        )
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "not decided yet: no check in this version of the framework")))
json.dump(
    dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na),
    open(os.path.join(V, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks", len(na), "not applicable")

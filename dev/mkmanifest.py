"""Writes /verif/MANIFEST.json.  Run by hand after adding a check."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from sa.props import PROPS
from dev.notes import TECH, NOTE, NA
props = [json.loads(l) for l in open(V / "properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"python3 -m sa.check {i}", thorough_cmd=f"VERIF_TIER=thorough python3 -m sa.check {i}",
                           technique=TECH[i], level="other", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "static check still under construction")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="Python static analysis written for this codebase (/verif/sa, standard library only). No hooks in /repo.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")

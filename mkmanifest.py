"""Generates MANIFEST.json from pmv/props.py and the texts below."""
import json
from pmv.props import PROPS
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NA = dict(
)
checks = []
for i in ids:
    if i not in PROPS: continue
    P = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3-vt -m pmv.run %s" % i, thorough_cmd="VERIF_TIER=thorough python3-vt -m pmv.run %s" % i,
        evidence_file="evidence/%s.json" % i, technique=P.get("technique", "contracts on the real code, checked at run time (bounded stand-in)"),
        level=P["level"], level_note=P.get("note", "bounded: contracts checked on generated inputs")))
na = [dict(property=i, reason=NA.get(i, "check under construction")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, pycparser; print(z3.get_version_string())'", checks=checks, not_applicable=na,
    notes="Checks: python3-vt -m pmv.run <id>; see DESIGN.md."), open("/verif/MANIFEST.json", "w"), indent=1)

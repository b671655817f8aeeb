"""Regenerates properties.jsonl and MANIFEST.json from mc/props.py and
mc/registry.py (text and machinery live there; these files are outputs)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import env
from mc.props import PROPS
from mc.registry import REGISTRY

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    r = REGISTRY.get(p["id"])
    if r is None:
        na.append(dict(property=p["id"], reason="no check built yet"))
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd="sh check.sh %s quick" % p["id"],
        thorough_cmd="sh check.sh %s thorough" % p["id"],
        technique=r.get("technique", "explicit-state model checking: exhaustive bounded exploration of operation "
                        "histories of the real library, in lockstep with a dense reference model"),
        level=r["level"],
        level_note=r.get("note", "Exhaustive within the stated bounds (every configuration and operation sequence); continuous "
                         "inputs range over a fixed finite alphabet. Trusts NumPy/SciPy and the dense model in mc/ref.py.")))
man = dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na,
           hooks=dict(guard="EVOMPS_MC (unused: no hooks were needed)", enable="nothing to enable; the checks import /repo as it is", source_commits=[]))
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")

import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from spec import PROPS
try:
    from claims import CLAIMS, NOT_APPLICABLE
except ImportError:
    CLAIMS, NOT_APPLICABLE = {}, {}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"bash check.sh {i}",
                           evidence_file=f"evidence/{i}.json", technique=c["technique"],
                           level="other", level_note=c["level_note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "Check not built yet.")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Static analysis of the MIR of the crate as compiled by the pinned nightly; see DESIGN.md. No hooks: /repo carries only fix: commits.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"])

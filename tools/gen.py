"""Write properties.jsonl and MANIFEST.json from pgstatic/properties.py."""
import json, sys
from pathlib import Path
HERE = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
from pgstatic.properties import NA_REASON, NOT_APPLICABLE, PROPS

(HERE / "properties.jsonl").write_text("".join(json.dumps(p.json()) + "\n" for p in [*PROPS, *NOT_APPLICABLE]))
checks = []
for p in PROPS:
    checks.append({
        "property": p.id,
        "quick_cmd": f"python3 check.py {p.id}",
        "thorough_cmd": f"python3 check.py {p.id} --thorough",
        "technique": "static analysis: path-sensitive effect summaries of the anchoring entry points compared with confirmed "
                     "ones" + (f"; structural rules {', '.join(p.rules)}" if p.rules else ""),
        "level": "other",
        "level_note": "Sound up to the stated abstraction for every entry point reported equal (helpers inlined, external libraries uninterpreted, exact "
                      "arithmetic); entry points the abstraction cannot compare are counted as undecided, not reported. Decides what the code of this "
                      "repository does on each path, not what the external libraries compute from it.",
    })
man = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q pgstatic check.py",
    "checks": checks,
    "not_applicable": [{"property": p.id, "reason": NA_REASON[p.id]} for p in NOT_APPLICABLE],
    "notes": "No hooks: /repo is only parsed. Known findings and fixes: known_findings.txt.",
}
(HERE / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")

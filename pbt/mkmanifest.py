"""Regenerates MANIFEST.json from properties.jsonl and the check modules."""

import json
import re
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
TECH = json.loads((ROOT / "pbt" / "techniques.json").read_text())

checks, missing = [], []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    prop = json.loads(line)["id"]
    mod = ROOT / "pbt" / "props" / f"{prop.lower()}.py"
    if not mod.exists():
        missing.append({"property": prop, "reason": "check not built yet"})
        continue
    num = re.findall(r'Sub\("(\w+)"', mod.read_text())
    tech, note = TECH[prop]
    checks.append(
        {
            "property": prop,
            "quick_cmd": f"VERIF_TIER=quick ./check {prop}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {prop}",
            "technique": f"property-based testing: {tech}",
            "level": "exploration",
            "level_note": f"{note} Sub-checks: {', '.join(num)}.",
        }
    )

manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python pbt/build.py",
    "checks": checks,
    "not_applicable": missing,
    "notes": (
        "All checks are generated-input searches against explicit oracles; see "
        "DESIGN.md. Each check builds /repo's working tree into /verif/.cache."
    ),
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")

"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from catalog import PROPERTIES, NOT_APPLICABLE  # noqa: E402

ROOT = HERE.parent

with open(ROOT / "properties.jsonl", "w") as out:
    for prop in PROPERTIES:
        record = {
            "id": prop["id"],
            "title": prop["title"],
            "statement": prop["statement"],
            "quantifier": {"over": prop["over"], "text": prop["for_all"]},
            "why_tests_cant": prop["why"],
            "anchors": {
                "files": prop["files"],
                "mechanism": [
                    {"name": name, "where": where} for name, where in prop["mechanism"]
                ],
                "hook_needed": None,
            },
        }
        if prop.get("state"):
            record["anchors"]["state"] = prop["state"]
        if prop.get("observe"):
            record["anchors"]["observe_at"] = prop["observe"]
        assert len(record["title"]) <= 80, prop["id"]
        out.write(json.dumps(record) + "\n")

skipped = {entry["property"] for entry in NOT_APPLICABLE}
checks = []
for prop in PROPERTIES:
    if prop["id"] in skipped:
        continue
    assert (ROOT / "checks" / f"{prop['id'].lower()}.py").exists(), prop["id"]
    checks.append(
        {
            "property": prop["id"],
            "quick_cmd": f"bash run.sh {prop['id']} --tier quick",
            "thorough_cmd": f"bash run.sh {prop['id']} --tier thorough",
            "technique": prop["technique"],
            "level": "exploration",
            "level_note": prop["note"],
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks in /repo: all properties are observed through its python API. "
    "shim/ replaces the two libraries which can not be installed here.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(PROPERTIES), "properties,", len(checks), "checks")

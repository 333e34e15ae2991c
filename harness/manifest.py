"""Writes MANIFEST.json from the checks that exist:  /opt/venv/bin/python harness/manifest.py"""
import json
from pathlib import Path

import checks

ROOT = Path(__file__).resolve().parent.parent
TECH = "TLA+ specification checked with TLC; replay of its behaviours and validation of recorded traces on the real code"
NOTE = ("Exhaustive over the bounded model named in DESIGN.md; every behaviour of it is replayed on the real code and random "
        "recorded runs are judged by TLC against the same specification. Trusts TLC, the workbook writer of the harness, "
        "CPython, pyarrow and numpy; numba and polars branches are not installed and not exercised.")


def main():
    props = [json.loads(x)["id"] for x in (ROOT / "properties.jsonl").read_text().splitlines()]
    done = [p for p in props if p in checks.CHECKS]
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python run.py setup",
        "checks": [{"property": p, "quick_cmd": f"/opt/venv/bin/python run.py {p}",
                    "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python run.py {p}",
                    "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "model_checking",
                    "level_note": checks.NOTES.get(p, "") + " " + NOTE} for p in done],
        "not_applicable": [{"property": p, "reason": "not yet built"} for p in props if p not in done],
        "notes": "No hooks are needed: everything is observed through public names.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()

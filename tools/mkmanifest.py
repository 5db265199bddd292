"""Writes MANIFEST.json from the registry of checks: PYTHONPATH=/repo:. /opt/venv/bin/python tools/mkmanifest.py"""
import json
import pathlib
import sys

root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root))
from vt.checks import load  # noqa: E402

props = [json.loads(line) for line in (root / "properties.jsonl").read_text().splitlines()]
checks = load()
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                "technique": checks[p["id"]].technique, "level": checks[p["id"]].level,
                "level_note": checks[p["id"]].note + ". Trusts: " + "; ".join(checks[p["id"]].assumptions)} for p in props if p["id"] in checks],
    "hooks": {"guard": "PYCEP_VT_HOOKS", "enable": "no hooks: the checks observe the public interface, audit events, trace events of the interpreter and system calls from outside; the guard is reserved and nothing in /repo reads it", "source_commits": []},
    "not_applicable": [],
    "notes": "Python is interpreted, so a check 'builds' by importing pycep from /repo's working tree. VT_REPO=<dir> runs the checks against another tree (used for planted bugs only); VT_BUDGET=<s> limits a run; ./check replay <file> runs one failing case again.",
}
assert len(m["checks"]) == len(props), set(p["id"] for p in props) ^ set(checks)
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")

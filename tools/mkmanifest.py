#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/registry.py (run by hand)."""
import json, pathlib, sys
R = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(R / "checks"))
import registry  # noqa: E402
props = [json.loads(l)["id"] for l in (R / "properties.jsonl").read_text().splitlines()]
m = dict(version=1, setup_cmd="python3-vt checks/setup.py", checks=[], not_applicable=[])
for p in props:
    if p in registry.CHECKS:
        m["checks"].append(dict(property=p, quick_cmd=f"python3-vt checks/run.py {p} quick", thorough_cmd=f"python3-vt checks/run.py {p} thorough",
                                technique=registry.TECH[p][0], level="model_checking", level_note=registry.TECH[p][1]))
    else:
        m["not_applicable"].append(dict(property=p, reason=registry.NA.get(p, "no check yet")))
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")

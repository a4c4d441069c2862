"""Regenerates /verif/MANIFEST.json from the table below."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parents[1]
PY = "/opt/venv/bin/python"
T = json.loads((V / "tools" / "checks.json").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "checks" / f"{i.lower()}.py").exists() and i in T["checks"]:
        c = T["checks"][i]
        checks.append(dict(property=i, quick_cmd=f"{PY} harness/check.py {i}",
            thorough_cmd=f"VERIF_TIER=thorough {PY} harness/check.py {i}",
            technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=T["not_applicable"].get(i, "no check has been built for it yet; not claimed")))
(V / "MANIFEST.json").write_text(json.dumps(dict(version=1,
    setup_cmd=f"{PY} tools/setup.py",
    hooks=dict(guard="PYTMD_VERIF", enable="no hooks are needed: every observation is made at the public API (no commit in /repo reads the variable)", source_commits=[]),
    checks=checks, not_applicable=na, notes=T.get("notes", "")), indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")

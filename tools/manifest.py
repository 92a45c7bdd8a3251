"""Regenerates MANIFEST.json from the check modules that are present."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
reasons = json.loads((root / "tools" / "not_applicable.json").read_text())
for p in props:
    pid = p["id"]
    mod = root / "checks" / f"{pid.lower()}.py"
    if pid in reasons or not mod.exists():
        na.append({"property": pid, "reason": reasons.get(pid, "check under construction")})
        continue
    src = mod.read_text()
    ns = {}
    m = re.search(r"^TECHNIQUE = (\(.*?\)|\".*?\")$", src, re.S | re.M)
    tech = eval(m.group(1))
    m = re.search(r"^LEVEL_NOTE = (\(.*?\)|\".*?\")$", src, re.S | re.M)
    note = eval(m.group(1)) if m else "randomised workload with full oracles on every execution; not exhaustive"
    checks.append({"property": pid, "quick_cmd": f"./check {pid} --tier quick", "thorough_cmd": f"./check {pid} --tier thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": "exploration", "level_note": note})
(root / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "All checks run the code of /repo's working tree in fresh processes; nothing is cached between runs. See DESIGN.md."}, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")

"""properties.jsonl + the list of check modules -> MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8") if l.strip()]
notes = json.load(open(os.path.join(ROOT, "tools", "notes.json"), encoding="utf-8"))
checks, na = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(ROOT, "pbt", "props", pid.lower() + ".py")):
        na.append({"property": pid, "reason": notes.get("na", {}).get(pid, "check not built yet")})
        continue
    n = notes.get(pid, {})
    checks.append({"property": pid, "quick_cmd": F"./check {pid}", "thorough_cmd": F"VERIF_TIER=thorough ./check {pid}",
                   "technique": n.get("technique", "property-based testing (Hypothesis) against an explicit oracle"),
                   "level": "exploration",
                   "level_note": n.get("note", "Seeded random search with shrinking; holds on the generated cases only; trusts the reference model written in the check.")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check drives the public API of the working tree of /repo (VERIF_REPO overrides the path)."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

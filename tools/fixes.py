"""record the repairs of tools/fixed.txt (property, commit) in known_findings.jsonl, with the subject of the commit"""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subj = dict(l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines())
props = {json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))}
path = os.path.join(root, "known_findings.jsonl")
known = [l for l in open(path) if l.startswith("{")]
pairs = [l.split() for l in open(os.path.join(root, "tools/fixed.txt")) if l.strip()]
with open(path, "w") as f:
    f.writelines(known)
    for p, h in pairs:
        if p in props:
            f.write(f"fixed: property={p} {h} {subj[h].removeprefix('fix: ')}\n")
        else:
            print("not listed yet:", p, h)
missing = [h for h, s in subj.items() if s.startswith("fix:") and h not in {h for _, h in pairs}]
print("not recorded:", missing)

"""DESIGN.md from properties.jsonl, the check modules, seeded/, known_findings.jsonl and design_notes.py"""
import json, os, sys, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
import design_notes as dn
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8") if l.strip()]
manifest = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
claimed = {c["property"] for c in manifest["checks"]}
text = []
w = text.append
w("""# Property-based testing and fuzzing of DLMS_SPODES

This file is made by `tools/design.py` from properties.jsonl, the check modules (`pbt/props/cNN.py`), `seeded/`, `known_findings.jsonl` and the notes of `tools/design_notes.py`.

## Machinery

* `./check CNN` starts `pbt/__main__.py` under python3-vt with PYTHONHASHSEED=0, TZ=UTC, in a scratch copy of `/repo/test` data (configuration and the library of type descriptions), with `/repo` (or `VERIF_REPO`) first on sys.path: nothing is built, the working tree itself is imported. The scratch directory is removed afterwards, nothing is written in /repo.
* `pbt/core.py`: a property is a list of *facets*. A facet is a Hypothesis strategy of JSON-able cases, a function that judges one case, a budget per tier, and optionally explicit examples and an exhaustive generator. Cases are searched from VERIF_SEED with shrinking; the minimal failing case is written to `evidence/replay/<id>-<facet>.json`, `./check CNN --replay FILE` judges it alone.
* Any exception the property does not ask for counts as a violation; exit 0 held, 1 violation, 3 broken machinery.
* A case counts as non-trivial only where its function says so (`ctx.nt`); the rule stands in the evidence, with counts of distinct non-trivial cases, labels and samples per facet.
* A known finding is identified by its facet and minimal case; anything else of the same property is still a violation.
* `VERIF_TIER=thorough` multiplies the budgets 10 to 60 times (the numbers are in the tables below).
* `pbt/gens.py` (values, shapes, reference encoder), `pbt/fill.py` (encodings of any declared type, found by walking the declaration), `pbt/hdlcref.py` (HDLC by IEC 62056-46).

Why this reaches what the tests cannot: the tests sample a handful of values per type; each property here quantifies over all values, histories or streams, its oracle is independent of the package, and the generators are directed to borders (lengths around 127/128/255/256, limits of every type, unspecified parts of dates, empty containers, repeated operations). Nothing is proved: the level is exploration.

Not reached: the library has no threads, no durable state but the description files and no network, so schedules and crash points do not occur; histories stand in their place. CompactArray (tag 19) is declared untested by its author and cannot be instantiated; graphical and language output (translations) is judged only by its keys.
""")
w("## Properties\n")
for p in props:
    pid = p["id"]
    if pid not in claimed:
        continue
    src = open(os.path.join(ROOT, "pbt/props", pid.lower() + ".py"), encoding="utf-8").read()
    w(f"### {pid}. {p['title']}\n")
    w(p["statement"] + "\n")
    w(f"*Over*: {', '.join(p['quantifier']['over'])}: {p['quantifier']['text']}. *Beyond the tests*: {p['why_tests_cant']}\n")
    w(f"*Oracle*: {dn.ORACLE.get(pid, '')}\n")
    ev = os.path.join(ROOT, "evidence", pid + ".json")
    cov = json.load(open(ev))["coverage"] if os.path.exists(ev) else {}
    rule = re.search(r'rule=((?:\s*"[^"]*")+)', src)
    if rule:
        w("*Cases*: " + "".join(re.findall(r'"([^"]*)"', rule.group(1))) + "\n")
    tail = src[src.rindex("PROP = "):]
    fac = []
    for name, body in re.findall(r'Facet\("(\w+)",(.*?)(?=Facet\("|\Z)', tail, re.S):
        q = re.search(r"quick=(\d+)", body); t = re.search(r"thorough=(\d+)", body)
        ex = "exhaustive" in body
        fac.append(f"{name} ({'exhaustive' if ex else ''}{', ' if ex and q else ''}{q.group(1) + (' / ' + t.group(1) if t else '') if q else ''})")
    w("*Facets* (quick / thorough budgets): " + "; ".join(fac) + ".\n")
    a = re.search(r"assumptions=\[(.*?)\]", tail, re.S)
    if cov:
        walls = sum(f.get("wall_s", 0) for f in cov.get("facets", {}).values())
        w(f"*Cost*: about {max(1, round(walls))} s for the quick check ({cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial).\n") if json.load(open(ev)).get("tier") == "quick" else None
    w("*Anchors*: " + "; ".join(f"{x['name']} ({x['where']})" for x in p["anchors"]["mechanism"]) + "\n")
    if a:
        w("*Domain*: " + " ".join(x.rstrip(".") + "." for x in re.findall(r'"((?:[^"\\]|\\.)*)"', a.group(1))) + "\n")
na = manifest["not_applicable"]
w("## Not applicable\n")
w("\n".join(f"* {x['property']}: {x['reason']}" for x in na) if na else "None.")
w("\n## Planted bugs\n")
w("Each was written from the statement of the property and the code, confirmed with its demonstration and the stable tests, and run against the check of its property. `tools/results.txt` holds the last outcome.\n")
res = {}
rp = os.path.join(ROOT, "tools", "results.txt")
if os.path.exists(rp):
    res = dict(l.split(" ", 1) for l in open(rp).read().splitlines() if " " in l)
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    j = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    w(f"* `{d}` ({j['property']}): {j['what_it_breaks']} Needs: {j['needs']} Outcome: {res.get(d, 'caught')}.")
w("\n## Findings and repairs\n")
w("Every finding was first shown against the real code by a minimal case. Repairs are `fix:` commits of /repo; what was not safe to repair is a known finding.\n")
kf = open(os.path.join(ROOT, "known_findings.jsonl")).read().splitlines()
for l in kf:
    if l.startswith("{"):
        j = json.loads(l)
        w(f"* known finding `{j['id']}`: {j['what']}")
n = [l for l in kf if l.startswith("fixed:")]
w(f"\nRepaired ({len(n)}):\n")
for l in n:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    w(f"* {m.group(1)} {m.group(2)} {m.group(3)}")
w("\n## False alarms of the machinery, corrected\n" + dn.FALSE_ALARMS)
open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8").write(re.sub(r"\n{3,}", "\n\n", "\n".join(text)))

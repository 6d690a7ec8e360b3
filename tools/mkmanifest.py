"""Writes MANIFEST.json from the check modules present"""
import ast, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    fn = os.path.join(H, "checks", i.lower() + ".py")
    if not os.path.exists(fn):
        na.append(dict(property=i, reason="no check built yet"))
        continue
    c = {}
    for n in ast.parse(open(fn).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in (
            "LEVEL", "RULE", "ASSUMPTIONS", "TECHNIQUE", "NOTE"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=i,
        quick_cmd=f"python3 check.py {i}",
        thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
        evidence_file=f"evidence/{i}.json",
        technique=c["TECHNIQUE"], level=c["LEVEL"],
        level_note="Held on the executions listed in the evidence file, nothing beyond them. " + c.get("NOTE", "")
        + (" Trusts: " + "; ".join(c["ASSUMPTIONS"]) + "." if c.get("ASSUMPTIONS") else "")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the monitors attach from outside (recording tracers and fields, stand-in services, poisoned allocation, "
    "forked children with injected faults). Known and repaired defects: known_findings.jsonl. See DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")

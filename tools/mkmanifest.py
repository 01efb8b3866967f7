"""Regenerate MANIFEST.json and the generated part of DESIGN.md from props/*.py."""
import ast
import json
import re
from pathlib import Path

root = Path(__file__).resolve().parent.parent
ids = [json.loads(l)["id"] for l in (root / "properties.jsonl").read_text().splitlines()]
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in (root / "properties.jsonl").read_text().splitlines()}
WHY_NOT = json.loads((root / "tools" / "not_claimed.json").read_text()) if (root / "tools" / "not_claimed.json").exists() else {}
checks, na, doc = [], [], []
for pid in ids:
    f = root / "props" / f"{pid}.py"
    if not f.exists() or pid in WHY_NOT:
        na.append({"property": pid, "reason": WHY_NOT.get(pid, "planned; the check for this property is not built yet, so it is not claimed")})
        doc.append(f"### {pid} {titles[pid]}\nNot claimed: {na[-1]['reason']}.\n")
        continue
    tree = ast.parse(f.read_text())
    c = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple):
            for t, v in zip(n.targets[0].elts, n.value.elts):
                if isinstance(t, ast.Name):
                    c[t.id] = ast.literal_eval(v)
    checks.append({
        "property": pid, "quick_cmd": f"bash check.sh {pid}", "thorough_cmd": f"bash check.sh {pid}",
        "evidence_file": f"evidence/{pid}.json", "technique": c["TECHNIQUE"], "level": c.get("LEVEL", "exploration"),
        "level_note": c["NOTE"]})
    d = ast.get_docstring(tree) or ""
    doc.append(f"### {pid} {titles[pid]}\n*Cases*: {c['RULE']}. *Decided by*: {c['TECHNIQUE']}. *Assurance*: {c['NOTE']} "
               f"*Size*: {c['QUICK']} generated cases quick, {c['THOROUGH']} thorough.\n" + (f"\n{d}\n" if d else ""))
(root / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
    "notes": "All checks: python3-vt -m vlib.driver <id>; replay a violation with: bash check.sh <id> --replay <file>. No hooks are needed in /repo.",
}, indent=1) + "\n")
des = (root / "DESIGN.md").read_text()
a, b = "<!-- generated: properties -->", "<!-- end generated -->"
des = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + "\n" + "\n".join(doc) + b, des, flags=re.S)
(root / "DESIGN.md").write_text(des)
print(len(checks), "claimed;", len(na), "not")

"""Regenerates MANIFEST.json from properties.jsonl, contracts' CLAIMS and the reasons below."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
claims = json.loads((ROOT / "tools/claims.json").read_text())
reasons = json.loads((ROOT / "tools/not_applicable.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claims:
        c = claims[i]
        lv, c = c if isinstance(c, list) else ("proof", c)
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "technique": "contract-based deductive verification (pyvc: VC generation from the real functions' AST, z3/cvc5)",
            "level": lv,
            "level_note": c,
        })
    else:
        na.append({"property": i, "reason": reasons.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", len(na), "not")

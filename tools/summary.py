"""Prints the contract and seed tables of DESIGN.md (run with the interpreter of ./check)."""
import json, pathlib, sys
R = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = ["/repo/shepherd_core", "/repo/shepherd_data", str(R)]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc.run import load, setup_quiet
setup_quiet()
for l in (R / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)
    cs = load(p["id"])
    fns = sorted({f.split(":")[1] for c in cs for f in c.on})
    b = [c.name for c in cs if c.bounded or not c.symbolic]
    sh = ", ".join(f"`{f}`" for f in fns[:14]) + (f" and {len(fns) - 14} more" if len(fns) > 14 else "")
    print(f"| {p['id']} | {len(cs)} | {sh} | {'; '.join(b[:6]) + (f' and {len(b) - 6} more' if len(b) > 6 else '') if b else 'none'} |")

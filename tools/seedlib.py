"""Builds seeded/<id>/ from (file, old, new) replacements and a demonstration."""
import json, pathlib, shutil, subprocess, sys, tempfile
ROOT = pathlib.Path(__file__).resolve().parent.parent
DEMO_SH = '''#!/bin/bash
W=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$W"' EXIT
export XDG_CACHE_HOME="$W/cache" MPLCONFIGDIR="$W/mpl" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PWNLIB_NOTERM=1 TZ=UTC SCRATCH="$W/scratch"
mkdir -p "$W/scratch"
D=$(cd "$(dirname "$0")" && pwd)
cd "$W/scratch" || exit 2
/opt/venv/bin/python "$D/demo.py"
'''
C = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"


def seed(id, prop, edits, needs, breaks, demo):
    d = ROOT / "seeded" / id
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    with tempfile.TemporaryDirectory() as w:
        for f in {e[0] for e in edits}:
            s = pathlib.Path("/repo", f).read_text()
            for e in edits:
                if e[0] == f:
                    assert s.count(e[1]) == 1, (id, f, e[1], s.count(e[1]))
                    s = s.replace(e[1], e[2])
            for side, txt in (("a", pathlib.Path("/repo", f).read_text()), ("b", s)):
                p = pathlib.Path(w, side, f)
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text(txt)
        r = subprocess.run(["git", "diff", "--no-index", "--no-color", "a", "b"], cwd=w, capture_output=True, text=True)
        out = r.stdout.replace("a/a/", "a/").replace("b/b/", "b/")
    (d / "patch.diff").write_text(out)
    (d / "demo.sh").write_text(DEMO_SH)
    (d / "demo.py").write_text(demo.lstrip("\n"))
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    print(id)

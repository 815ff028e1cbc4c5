#!/bin/bash
# usage: tools/seedtest.sh ID [notest]   -- confirms seeded/ID in a scratch copy of /repo and runs its property's check on it
set -u
ID=$1; D=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX); trap '/bin/rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; R=$W/repo
export PYTHONDONTWRITEBYTECODE=1 HOME=/root TZ=UTC MPLBACKEND=Agg PWNLIB_NOTERM=1 TMPDIR=$W XDG_CACHE_HOME=$W/cache
export PYTHONPATH=$R/shepherd_core:$R/shepherd_data
cp -r "$D" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
(cd "$R" && timeout 300 bash "$W/demo/demo.sh" >"$W/o1" 2>&1); c=$?
git -C "$R" apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
(cd "$R" && timeout 300 bash "$W/demo/demo.sh" >"$W/o2" 2>&1); b=$?
echo "$ID: demo clean=$c patched=$b $( [ $c = 0 ] && [ $b != 0 ] && echo ok || { echo BAD; tail -5 $W/o1; })"; tail -2 "$W/o2" | cut -c1-200
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
PYTHONPATH= PYVC_EXTRA=$R/shepherd_core:$R/shepherd_data /verif/check "$P" > "$W/o3" 2>&1; echo "check $P rc=$?"; grep -E "VIOLATION|UNDECIDED| in C" "$W/o3" | head -5 | cut -c1-300
if [ "${2:-}" != notest ]; then
  for p in shepherd_core shepherd_data; do
    (cd "$R/$p"; timeout 900 /opt/venv/bin/python -m pytest tests -c pyproject.toml --rootdir="$R" -o addopts= -q -x -p no:cacheprovider --timeout=300 --basetemp="$W/t_$p" </dev/null >"$W/$p.log" 2>&1; echo "tests $p: $(tail -1 $W/$p.log)"; grep ^FAILED $W/$p.log | head -3) &
  done; wait
fi
cp "$W/o3" /tmp/seed-$ID.log

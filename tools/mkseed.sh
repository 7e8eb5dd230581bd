#!/bin/bash
# mkseed.sh <id> <property> <needs> <what_it_breaks>: takes the current diff of /tmp/seedwork (a copy of /repo)
# as patch, demo.py from stdin; verifies: tests pass with the patch, demo passes without and fails with it.
V=${V:-/verif}; R=${R:-/repo}; export V; id=$1; d=$V/seeded/$id; mkdir -p $d
cat > $d/demo.py
for x in $EXTRA; do cp $x $d/; done
git -C /tmp/seedwork diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
cat > $d/demo.sh <<'X'
#!/bin/bash
# exit 0 iff the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
X
chmod +x $d/demo.sh
python3 - "$@" <<'X'
import json,sys
_,id,prop,needs,what=sys.argv
json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(__import__('os').environ['V']+f'/seeded/{id}/meta.json','w'),indent=1)
X
(cd $R && bash $d/demo.sh >/tmp/demo_ok.txt 2>&1) || { echo "$id: demo FAILS on clean tree"; tail -5 /tmp/demo_ok.txt; }
(cd /tmp/seedwork && bash $d/demo.sh >/tmp/demo_bad.txt 2>&1) && echo "$id: demo passes WITH patch" || { tail -1 /tmp/demo_bad.txt; }
git -C /tmp/seedwork checkout -q -- .

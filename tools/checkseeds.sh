#!/bin/bash
# for each seed (args or all): apply to the repository, run stable tests and the property's check, undo
# (V, R: the verification folder and the repository, by default /verif and /repo)
export V=${V:-/verif} R=${R:-/repo}
cd $V
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C $R apply --check $V/seeded/$d/patch.diff || { echo "$d: DOES NOT APPLY"; continue; }
  git -C $R apply $V/seeded/$d/patch.diff
  t=$( [ -n "$NOTEST" ] || { (cd $R; PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=$R /opt/venv/bin/python -m pytest -q -p no:cacheprovider -o addopts= --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/o.xml tests >/dev/null 2>&1); python3 -c "
import json,xml.etree.ElementTree as T;b=json.load(open('/opt/vp/BASELINE.json'));bad=[c.get('name') for c in T.parse('/tmp/o.xml').iter('testcase') if len(c)]
m=[s for s in b['stable'] if any(s.endswith(n) for n in bad)];print('tests-ok' if not m else 'TESTS-BROKEN %s'%m)"; })
  s=$(date +%s); VERIF_REPO=$R ./run.sh $p --tier quick > /tmp/chk.txt 2>&1; rc=$?; e=$(date +%s)
  git -C $R checkout -q -- .
  echo "$d property=$p rc=$rc $(grep -c VIOLATION /tmp/chk.txt) $((e-s))s $t :: $(grep -m1 counterexample /tmp/chk.txt | cut -c1-140) $(grep -m1 'INCONC\|REDUC' /tmp/chk.txt | cut -c1-100)"
done

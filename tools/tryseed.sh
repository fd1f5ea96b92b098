#!/bin/bash
# tryseed.sh ID [CHECK...]: demo clean, apply, build+tests, demo patched, checks; then undo.
id=$1; shift; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
checks=${*:-$prop}
bash $d/demo.sh >/dev/null 2>&1; echo "$id demo clean: $?"
git -C /repo apply $d/patch.diff || { echo "PATCH FAILS"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1; echo "$id build: $?"
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def passed(x):
    if 'passed' in x and isinstance(x['passed'],list): return set(x['passed'])
    return set(k for k,v in x.get('results',x).items() if v in ('pass','passed','ok',True))
st=None
for k in ('stable','stable_tests','passed','tests'):
    if k in b and isinstance(b[k],list): st=set(b[k]); break
if st is None: print('baseline keys',list(b)[:10], list(r)[:10])
else: print('tests missing:', sorted(st-passed(r))[:5])
P
bash $d/demo.sh >/tmp/seed.demo 2>&1; echo "$id demo patched: $?"
cd /verif; for c in $checks; do VERIF_SEED=1 python3 check.py $c > /tmp/seed.$c 2>&1; echo "$id check $c: $? $(grep -c VIOLATION /tmp/seed.$c) $(grep -m1 -B1 VIOLATION /tmp/seed.$c | head -1 | cut -c1-150)"; done
git -C /repo checkout -- .

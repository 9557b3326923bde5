#!/bin/bash
# trybug.sh ID [nobuild]: applies the planted bug, runs build, tests, demo and the property's check, and undoes it.
id=$1; b=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
cd /repo && git apply "$b/patch.diff" || { echo "patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != fast ]; then
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { tail -20 /tmp/tb.log; echo "$id: BUILD FAILS"; exit 1; }
bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1
python3 - <<P
import json
a=json.load(open('/opt/vp/BASELINE.json')); b=json.load(open('/tmp/tb.json'))
stable=set(a.get('passed') or a.get('stable') or []); got=set(b['passed'])
print("$id: tests lost:", sorted(stable-got) or "none")
P
( cd /repo && bash $b/demo.sh >/tmp/tb.demo 2>&1 ); echo "$id: demo exit $? (want nonzero): $(tail -3 /tmp/tb.demo | tr '\n' ' ' | cut -c1-200)"
fi
cd /verif && python3 check.py $prop > /tmp/tb.check 2>&1; echo "$id: check $prop exit $? : $(grep -a 'violated clauses' /tmp/tb.check | sort | uniq -c | tr '\n' ';' | cut -c1-200)"

#!/bin/bash
# try_bug.sh ID [check] : validate one planted bug end to end and run its property's quick check on it
id=$1; d=/verif/seeded/$id; cd /repo || exit 2
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=$(mktemp -d /tmp/tb-XXXX); cp $d/* $t/; rm -f $t/*.diff $t/meta.json
r="id=$id prop=$prop"
timeout 300 bash $t/demo.sh >$t/o1 2>&1; r="$r clean_demo=$?"
if ! git apply $d/patch.diff; then echo "$r APPLYFAIL"; exit 1; fi
if bash /opt/vp/build.sh >$t/b 2>&1; then
  bash /opt/vp/test.sh $t/out.json >$t/tt 2>&1
  r="$r tests=$(python3 - $t/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x,k):
    v=x.get(k) or []
    return set(v) if not isinstance(v,dict) else set(v)
bs=b.get('stable') or b.get('passed') or b.get('tests')
op=o.get('passed')
bad=[x for x in bs if x not in set(op)]
print('ok' if not bad else 'BROKEN:'+','.join(bad)[:200].replace(' ','_'))
P
)"
  timeout 300 bash $t/demo.sh >$t/o2 2>&1; r="$r bug_demo=$?"
  if [ "$2" != nocheck ]; then
  s=$(date +%s); timeout 900 /verif/run.sh $prop quick >$t/c 2>&1; rc=$?; e=$(date +%s)
  r="$r check=$rc viol=$(grep -c "^VIOLATION property=$prop " $t/c) secs=$((e-s))"; fi
else r="$r BUILDFAIL"; tail -5 $t/b; fi
git checkout -q -- .
echo "$r"
cp $t/c /tmp/last_check_$id.log 2>/dev/null; cp $t/o2 /tmp/last_demo_$id.log 2>/dev/null; cp $t/o1 /tmp/last_demo1_$id.log
rm -rf "$t"

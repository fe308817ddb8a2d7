#!/bin/bash
# seedcheck.sh ID: confirm a planted bug in a scratch copy of /repo.
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/sw.XXXX); cp -a /repo/. $w/
run_tests() { (cd $w && sed "s#/repo#$w#g" /opt/vp/test.sh > $w.test.sh; bash $w.test.sh $w.json >/dev/null 2>&1); }
cd $w
bash $d/demo.sh >/tmp/sc.out 2>&1 || { echo "$id: demo FAILS on clean tree"; tail -5 /tmp/sc.out; rm -rf $w $w.*; exit 1; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf $w $w.*; exit 1; }
. /root/env.sh; go build ./... || { echo "$id: no build"; rm -rf $w $w.*; exit 1; }
bash $d/demo.sh >/tmp/sc.out 2>&1 && { echo "$id: demo passes with bug"; rm -rf $w $w.*; exit 1; }
tail -2 /tmp/sc.out
run_tests
python3 - $w.json <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
b=set(base['stable'])
p=set()
def rec(x):
    if isinstance(x,dict):
        for k,v in x.items():
            if k in('passed','pass') and isinstance(v,list): p.update(v)
            elif v in('pass','passed'): p.add(k)
            else: rec(v)
rec(r)
miss=b-p
print('baseline',len(b),'missing',len(miss),sorted(miss)[:5])
sys.exit(1 if miss or not b else 0)
P
rc=$?
rm -rf $w $w.*
[ $rc = 0 ] && echo "$id: OK" || echo "$id: TESTS BREAK"
exit $rc

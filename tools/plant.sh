#!/bin/bash
# plant.sh <seeded id> [check ids...]: confirm a planted bug in a scratch copy (builds, tests pass, demo 0 -> nonzero) and run the checks on it
set -u
ID=$1; shift; D=/verif/seeded/$ID; W=/tmp/plant; R=$W/repo
if [ ! -d $R ]; then mkdir -p $W; git clone -q /repo $R; cp -a /opt/vp $W/vp; sed -i "s#/repo#$R#g" $W/vp/*.sh $W/vp/*.py; sed -i "s#/opt/vp/\(targets\|runtests\|results\|build\)#$W/vp/\1#g" $W/vp/*.sh; fi
git -C $R fetch -q origin; git -C $R checkout -q -f $(git -C /repo rev-parse HEAD); git -C $R clean -qfd -e _build
rm -rf $W/demo; mkdir $W/demo; cp -r $D/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
(cd $R && timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1); d0=$?
git -C $R apply --check $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
git -C $R apply $D/patch.diff
b=ok; bash $W/vp/test.sh $W/out.json >$W/build.log 2>&1 || b=fail
t=$(python3 -c "
import json;o=json.load(open('$W/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(o['passed']);print('%d missing %s'%(len(p),[x for x in b if x not in p][:5]))")
(cd $R && timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1); d1=$?
echo "$ID: build $b tests $t demo clean=$d0 patched=$d1"
for c in "$@"; do (cd /verif && NB_REPO=$R NB_WORK=$W/work python3 check.py $c quick 2>&1 | cut -c1-400 | tail -4); done
git -C $R checkout -q -f .

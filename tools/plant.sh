#!/bin/bash
# plant.sh <id>... : for each seeded bug, in a scratch copy of /repo: demo passes on the clean tree, patch applies, builds, tests pass, demo fails.
# notest=1 skips the test suite; check="A quick seconds" also runs the property's check against the copy.
for id in "$@"; do
	S=/verif/seeded/$id; W=/tmp/plant.$id; rm -rf "/tmp/plant.$id"; mkdir -p $W; cp -a /repo $W/repo; mkdir $W/vp; cp /opt/vp/* $W/vp/
	sed -i "s#/repo#$W/repo#g; s#/opt/vp#$W/vp#g" $W/vp/*; cp -a $S $W/seed; rm -f $W/seed/*.diff $W/seed/meta.json
	(cd $W/repo && bash $W/vp/build.sh) >$W/b0.log 2>&1 || echo "$id: clean build failed"
	(cd $W/repo && bash $W/seed/demo.sh) >$W/d0.log 2>&1; r0=$?
	(cd $W/repo && git apply $S/patch.diff) || { echo "$id: patch does not apply"; continue; }
	(cd $W/repo && bash $W/vp/build.sh) >$W/b1.log 2>&1 || echo "$id: patched build failed"
	(cd $W/repo && bash $W/seed/demo.sh) >$W/d1.log 2>&1; r1=$?
	t=skipped
	if [ -z "$notest" ]; then unshare -rn bash -c "ip link set lo up; bash $W/vp/test.sh $W/out.json" >$W/t.log 2>&1; t=$(python3 -c "
import json; o=json.load(open('$W/out.json')); b=json.load(open('/opt/vp/BASELINE.json')); s=b.get('stable') or b.get('passed') or b; print(len(o['passed']),'passed', [x for x in s if x not in o['passed']][:5] if isinstance(s,list) else '')"); fi
	p=$(python3 -c "import json; print(json.load(open('$S/meta.json'))['property'])"); c=-
	if [ -z "$nocheck" ]; then SIM_REPO=$W/repo SIM_TIME=${simtime:-28} SIM_NOEVID=1 python3 /verif/tools/run.py $p quick >$W/c.log 2>&1; c="rc=$? $(grep -h VIOLATION $W/c.log | head -1)"; fi
	echo "$id [$p]: demo clean=$r0 patched=$r1 tests: $t check: $c"
	[ -z "$keep" ] && rm -rf "/tmp/plant.$id"
done

#!/bin/bash
# seedtest.sh ID...: confirms planted changes: stable tests pass, the demo tells
# the trees apart, and shows what the checks say. Works on a scratch copy for the
# checks, on /repo (restored afterwards) for the tests.
cd /verif
go_env() { export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0; }
go_env; (cd checker && go build -o /tmp/ck .) || exit 1
for id in "$@"; do
	d=/verif/seeded/$id
	git -C /repo diff --quiet || { echo "dirty /repo"; exit 1; }
	prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	tmp=$(mktemp -d); cp -r $d $tmp/x; rm -f $tmp/x/patch.diff $tmp/x/meta.json
	(cd /repo; timeout 300 bash $tmp/x/demo.sh) >/tmp/demo.log 2>&1; clean=$?
	[ $clean = 0 ] || { echo "$id: demo fails on the clean tree:"; tail -5 /tmp/demo.log; }
	git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
	bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$id: does not build"; tail -5 /tmp/b.log; }
	bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
	miss=$(python3 - <<E
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/o.json'))
p=o.get('passed') or o.get('pass') or [k for k,v in o.get('tests',{}).items() if v in('pass','passed',True)]
print(len(b-set(p)))
E
)
	(cd /repo; timeout 300 bash $tmp/x/demo.sh) >/tmp/demo2.log 2>&1; bad=$?
	out=$(/tmp/ck check /verif /repo $prop quick 2>&1); rc=$?
	all=""
	if [ -n "$ALL" ]; then for p in $(python3 -c "import json;[print(c['property']) for c in json.load(open('/verif/MANIFEST.json'))['checks']]"); do /tmp/ck check /verif /repo $p quick >/dev/null 2>&1 || all="$all $p"; done; fi
	git -C /repo checkout -q -- .
	echo "$id [$prop]: demo clean=$clean patched=$bad, stable tests lost=$miss, check rc=$rc $all"
	[ -n "$V" ] && echo "$out" | cut -c1-400 | head -${V}
	rm -rf $tmp
done

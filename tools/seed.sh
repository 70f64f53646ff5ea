#!/bin/bash
# seed.sh ID...: confirms that planted bugs count: each applies to /repo's HEAD,
# builds, passes the stable tests, and its demo tells the two trees apart.
# With -c also runs the property's check against it (in /repo, undone afterwards).
V=/verif; c=0; [ "$1" = -c ] && { c=1; shift; }
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
for id in "$@"; do
	s=$V/seeded/$id; w=/tmp/seedwt.$$
	mkdir -p "$w" && git -C /repo archive HEAD | tar -x -C "$w" || exit 1
	r=""
	(cd "$w" && bash "$s/demo.sh" >/tmp/seed.$$.log 2>&1) || { r="$r demo-fails-unchanged"; cat /tmp/seed.$$.log; }
	(cd "$w" && git apply --unsafe-paths "$s/patch.diff" 2>/dev/null || patch -sp1 < "$s/patch.diff") || r="$r no-apply"
	(cd "$w" && go build ./... ) || r="$r no-build"
	if (cd "$w" && bash "$s/demo.sh" >/tmp/seed.$$.log 2>&1); then r="$r demo-passes-patched"; elif ! grep -q -e '--- FAIL' -e '^panic' -e 'timed out' /tmp/seed.$$.log; then r="$r demo-odd"; tail -5 /tmp/seed.$$.log; fi
	t=$(cd "$w" && go test -json -vet=off -count=1 -cpu=1 -timeout 3m ./... 2>/dev/null | python3 -c '
import sys,json
b=json.load(open("/opt/vp/BASELINE.json")); 
st=set(b.get("stable") or b.get("passing") or b.get("tests") or [])
f=[]
for l in sys.stdin:
    try: e=json.loads(l)
    except Exception: continue
    if e.get("Action")=="fail" and e.get("Test"): f.append(e["Package"].split("/")[-1]+"."+e["Test"])
print(" ".join(f))')
	[ -n "$t" ] && r="$r tests-fail($t)"
	rm -rf /tmp/seedwt.$$ /tmp/seed.$$.log
	echo "$id: ${r:-ok}"
	if [ $c = 1 ] && [ -z "$r" ]; then
		p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$s/meta.json")
		git -C /repo apply "$s/patch.diff" && (cd $V && ./check.sh $p | grep -e VIOLATION -e HOLDS -e NOT -e ERROR | head -3); git -C /repo checkout -q -- .
	fi
done

#!/bin/bash
# Runs every planted bug (or the given ones) against its property's check and rewrites its line of tools/seed_results.txt.
V=/verif; R=$V/tools/seed_results.txt; touch $R
[ $# = 0 ] && set -- $(ls $V/seeded)
for id in "$@"; do
	s=$V/seeded/$id
	p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$s/meta.json")
	git -C /repo apply "$s/patch.diff" || { echo "$id: does not apply"; continue; }
	out=$(cd $V && ./check.sh $p); git -C /repo checkout -q -- .
	h=$(echo "$out" | grep -B1 "^VIOLATION" | grep -o "^  Check[A-Za-z]*" | sort -u | tr -d ' ' | paste -sd, )
	if [ -n "$h" ]; then r="caught by $p ($h)"; else r="missed by $p"; fi
	grep -v "^$id: " $R > $R.new; echo "$id: $r" >> $R.new; sort $R.new > $R; rm -f $R.new
	echo "$id: $r"
done

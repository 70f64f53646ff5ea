#!/bin/bash
# check.sh <property> [tier]: decides one property on /repo's current tree.
# Builds the engine first when it is missing or older than its sources.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS
bin=.build/verifeng
build() {
	mkdir -p .build
	(cd engine && go build -o "../.build/verifeng.$$" .) && mv ".build/verifeng.$$" "$bin"
}
if [ ! -x "$bin" ] || [ -n "$(find engine -newer "$bin" -print -quit)" ]; then
	build || { echo "ERROR: the engine does not build"; exit 2; }
fi
[ "$1" = build ] && exit 0
exec "$bin" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$PWD" -repo /repo

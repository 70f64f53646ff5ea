#!/bin/bash
# Runs demo_test.go inside the package of the current directory.
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
exec timeout 250 go test -vet=off -count=1 -timeout 200s -run '^TestSeed$' -overlay <(printf '{"Replace":{"%s/zz_seed_test.go":"%s/demo_test.go","%s/zz_mem_test.go":"%s/mem_test.go"}}' "$PWD" "$d" "$PWD" "$d") .

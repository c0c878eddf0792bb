#!/bin/bash
# exit 0: the property holds in this demonstration; non-zero: it does not
here=$(cd "$(dirname "$0")" && pwd)
ov=$(mktemp) || exit 2
trap 'rm -f "$ov"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt","%s/zz_kit_test.go":"%s/kit_test.go.txt"}}' "$PWD" "$here" "$PWD" "$here" > "$ov"
GOFLAGS= GOTOOLCHAIN=local go test -vet=off -count=1 -timeout 240s -overlay "$ov" -run '^TestDemo' .

#!/bin/bash
# Builds the simulator from /repo's current working tree into /verif/.build/sim.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off CGO_ENABLED=1
export CGO_CFLAGS="-O0" GOSUMDB=off
repo=${SIM_REPO:-/repo}
out=${SIM_BUILD:-$here/../.build}
mkdir -p "$out"
cd "$repo"
# golang.org/x/crypto with a cheap bcrypt work factor (2^4 rounds, not 2^10)
xc=$(go list -mod=readonly -m -f '{{.Dir}}' golang.org/x/crypto)
rm -rf "$out/xcrypto.new"
mkdir -p "$out/xcrypto.new"
cp -r "$xc/." "$out/xcrypto.new/"
chmod -R u+w "$out/xcrypto.new"
sed -i 's/DefaultCost int = 10 /DefaultCost int = 4  /' "$out/xcrypto.new/bcrypt/bcrypt.go"
grep -q 'DefaultCost int = 4 ' "$out/xcrypto.new/bcrypt/bcrypt.go"
rm -rf "$out/xcrypto"
mv "$out/xcrypto.new" "$out/xcrypto"
cp go.mod "$out/go.mod"
cp go.sum "$out/go.sum"
printf '\nreplace golang.org/x/crypto => %s/xcrypto\n' "$(cd "$out" && pwd)" >> "$out/go.mod"
extra=()
for f in "$here"/src/*.go; do extra+=("$repo/verifsim/$(basename "$f")=$f"); done
python3 "$here/mkoverlay.py" "$(go env GOROOT)" "$out/overlay" "${extra[@]}"
go build -mod=mod -modfile "$out/go.mod" -overlay "$out/overlay/overlay.json" -ldflags=-w -o "$out/sim" ./verifsim

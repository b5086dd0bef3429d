#!/bin/bash
# usage: build.sh OUT [-race]   builds the simulator from /repo's working tree
set -e
OUT=$1; shift
REPO=${STFS_REPO:-/repo}
SIM=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB=* GOEXPERIMENT=synctest CGO_ENABLED=1
GO=go1.25
mkdir -p "$OUT/ov"
rm -rf "${OUT:?}/src" "${OUT:?}/ov"; mkdir -p "$OUT/ov"
cp -a "$SIM" "$OUT/src"
cd "$OUT/src"
sed -i "s#=> /repo\$#=> $REPO#" go.mod
# scrypt at its production cost needs a gigabyte and seconds per key: the
# simulator caps the cost parameter, for deriving and for checking alike
XC=$($GO list -m -f '{{.Dir}}' golang.org/x/crypto)
rm -rf "$OUT/xcrypto"; mkdir -p "$OUT/xcrypto"
cp -r "$XC/." "$OUT/xcrypto"; chmod -R u+w "$OUT/xcrypto"
sed -i 's/^\txy := make(\[\]uint32, 64\*r)$/\tif N > 64 {\n\t\tN = 64 + 64*(N>>18\&1)\n\t}\n&/' "$OUT/xcrypto/scrypt/scrypt.go"
grep -q 'N = 64 + 64' "$OUT/xcrypto/scrypt/scrypt.go"
$GO mod edit -replace "golang.org/x/crypto=$OUT/xcrypto"
(cd mkoverlay && $GO run main.go "$REPO" "$OUT/src/overlay" "$OUT/ov")
$GO build -trimpath "$@" -overlay "$OUT/ov/overlay.json" -o "$OUT/sim" .

#!/bin/bash
# build.sh GROUP: makes the simulated copy of /repo's working tree and links it
# with the harness for GROUP (hd, eco or svc).  Prints the binary's path.
# Everything goes under /verif/.build (ignored by git).
set -u
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
REPO=${VERIF_REPO:-/repo}
group=${1:?group}
B=${VERIF_BUILD:-$V/.build}
mkdir -p "$B" || exit 3
exec 9>"$B/lock"; flock 9
fail() { echo "build error: $1" >&2; exit 3; }
# module files live in the build directory; the sources stay where they are
{
  cat <<MOD
module verif

go 1.26.0

require (
	github.com/ndau/ndaumath v0.0.0
	github.com/ericlagergren/decimal v0.0.0
	github.com/btcsuite/btcd v0.20.1-beta
	github.com/philhofer/fwd v1.0.0
	github.com/pkg/errors v0.8.1
	github.com/sigurn/crc16 v0.0.0-20211026045750-20ab5afb07e3
	github.com/tinylib/msgp v1.1.0
	golang.org/x/crypto v0.58.0
)

replace github.com/ndau/ndaumath => $B/shadow
replace github.com/ericlagergren/decimal => $V/go/stubs/decimal
MOD
} > "$B/go.mod.new"
cmp -s "$B/go.mod.new" "$B/go.mod" || cp "$B/go.mod.new" "$B/go.mod"
cmp -s "$V/go/deps.sum" "$B/go.sum" || cp "$V/go/deps.sum" "$B/go.sum"
( cd "$V/go/instrument" && go build -modfile="$B/go.mod" -o "$B/instrument" . ) || fail "instrument"
# go list needs the module directory to exist
mkdir -p "$B/shadow"; [ -f "$B/shadow/go.mod" ] || printf 'module github.com/ndau/ndaumath\n\ngo 1.26.0\n' > "$B/shadow/go.mod"
rm -rf "$B/raw"
"$B/instrument" -repo "$REPO" -out "$B/shadow.new" -raw "$B/raw" -modfile "$B/go.mod" -listdir "$V/go" || fail "instrumenting"
rm -rf "$B/raw"
# keep unchanged files' identity (helps nothing but tidiness); swap in
rm -rf "$B/shadow" && mv "$B/shadow.new" "$B/shadow"
( cd "$V/go" && go build -modfile="$B/go.mod" -o "$B/$group.new" ./cmd/$group ) || fail "linking $group"
mv "$B/$group.new" "$B/$group"
echo "$B/$group"

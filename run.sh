#!/bin/bash
# usage: run.sh PROPERTY | replay FILE [log] | det PROPERTY N | run PROPERTY INDEX
# Builds the simulator from /repo's working tree in a scratch directory and runs one check.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${STFS_REPO:-/repo}
mkdir -p "$VERIF/build" "$VERIF/evidence"
OUT=$(mktemp -d "$VERIF/build/sim-XXXXXXXX") || exit 2
trap 'rm -rf "${OUT:?}"' EXIT
if [ "${1:-}" = setup ]; then
	"$VERIF/sim/build.sh" "$OUT" && "$VERIF/sim/build.sh" "$OUT" -race
	exit
fi
case "${1:-}" in
C[0-9][0-9]) PROP=$1; set -- check "$1" ;;
det | run) PROP=$2 ;;
replay) PROP=$(sed -n 's/^ "property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1) ;;
*) echo "usage: run.sh PROPERTY | replay FILE [log] | det PROPERTY N | run PROPERTY INDEX" >&2; exit 2 ;;
esac
RACE=
[ "$PROP" = C11 ] && RACE=-race
if ! STFS_REPO="$REPO" "$VERIF/sim/build.sh" "$OUT" $RACE >"$OUT/build.log" 2>&1; then
	echo "check error: the simulator does not build against $REPO" >&2
	tail -40 "$OUT/build.log" >&2
	exit 2
fi
STFS_VERIF="$VERIF" "$OUT/sim" "$@"

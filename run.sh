#!/bin/bash
# run.sh ID [harness flags]        check property ID against /repo's working tree
# run.sh --replay FILE             re-run one recorded execution, with its trace
# VERIF_TIER=quick|thorough, VERIF_SEED=n; REPO and KEEP=1 are for development.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod TZ=UTC LC_ALL=C
umask 022
ulimit -c 0 2>/dev/null

REPLAY=
if [ "${1:-}" = --replay ]; then
	REPLAY=$2
	ID=$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$REPLAY" | head -1)
	shift 2
else
	ID=$1
	shift
fi

BASE=/tmp
if [ -d /dev/shm ] && [ -w /dev/shm ]; then
	BASE=/dev/shm
fi
S=$(mktemp -d "$BASE/log4g-mc.XXXXXX") || exit 3
cleanup() { if [ -z "${KEEP:-}" ]; then case "$S" in "$BASE"/log4g-mc.*) rm -rf "$S";; esac; else echo "kept $S"; fi; }
trap cleanup EXIT
trap 'exit 3' INT TERM HUP

(cd "$VERIF/mc/instr" && go build -buildvcs=false -o "$S/instr" .) || exit 3

# build OUTPUT ACCESSDIR: instrument the current tree and build the harness
build() {
	rm -rf "$S/src"
	mkdir -p "$S/src"
	cp "$REPO/go.mod" "$S/go.mod"
	cp "$REPO/go.sum" "$S/go.sum"
	"$S/instr" -repo "$REPO" -x "$VERIF/mc/x" ${1:+-access "$1"} -out "$S/src" -modfile "$S/go.mod" || return 1
	OV=$(ls "$S/src/overlay.json" "$S/overlay.json" 2>/dev/null | head -1)
	(cd "$REPO" && go build -buildvcs=false -modfile="$S/go.mod" -overlay "$OV" -o "$S/harness" ./verifx/harness)
}
ACCESS=
if [ -d "$VERIF/mc/access" ]; then ACCESS=$VERIF/mc/access; fi
if ! build "$ACCESS" 2> "$S/build.err"; then
	if [ -n "$ACCESS" ] && build "" 2> "$S/build2.err"; then
		echo "note: built without in-package access: $(head -3 "$S/build.err" | tr '\n' ' ')"
	else
		cat "$S/build.err"
		[ -f "$S/build2.err" ] && cat "$S/build2.err"
		exit 3
	fi
fi

RACE=
X=github.com/xtfly/log4g/verifx
if "$S/harness" -list | grep -q "^$ID/.*race=true"; then
	NR=
	for p in vs vsync vtime vos vioutil vsignal vsyslog vfmt drv; do
		NR="$NR -gcflags=$X/$p=-race=false"
	done
	# sync.Pool orders the goroutines that happen to reuse each other's objects (those
	# of package fmt, say), and by chance not always: without reuse no race is hidden
	POOL=$(go env GOROOT)/src/sync/pool.go
	sed 's/if runtime_randn(4) == 0 {/if runtime_randn(4) < 4 {/' "$POOL" > "$S/pool.go"
	if cmp -s "$S/pool.go" "$POOL"; then
		echo "note: sync.Pool left as it is"
	else
		sed "s|^ *\"Replace\": {|&\n  \"$POOL\": \"$S/pool.go\",|" "$OV" > "$S/overlay.race.json"
		OV=$S/overlay.race.json
	fi
	(cd "$REPO" && go build -buildvcs=false -race $NR "-gcflags=$X/harness=-race=false -l" -modfile="$S/go.mod" -overlay "$OV" -o "$S/harness.race" ./verifx/harness) || exit 3
	RACE="$S/harness.race"
fi

mkdir -p "$S/run"
if [ -n "$REPLAY" ]; then
	"$S/harness" -replay "$REPLAY" -scratch "$S/run" -verif "$VERIF" ${RACE:+-racebin "$RACE"} "$@"
	exit $?
fi
"$S/harness" -prop "$ID" -tier "$TIER" -seed "$SEED" -scratch "$S/run" -verif "$VERIF" ${RACE:+-racebin "$RACE"} "$@"

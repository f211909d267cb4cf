#!/bin/bash
# Model checking of /repo (allenxuxu/gev).
#   bin/check.sh C01 [quick|thorough]   decide one property on /repo's working tree
#   bin/check.sh replay FILE            replay a recorded violation against /repo's working tree
#   bin/check.sh setup                  build once (warms the compiler cache)
# Exit 0: held on everything explored; 1: VIOLATION printed; anything else: no answer.
set -u
ROOT=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off GO111MODULE=on CGO_ENABLED=${CGO_ENABLED:-1}
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}

export VERIF_KNOWN=$ROOT/known_findings.txt
PROP=${1:?property, replay or setup}
TIER=${2:-${VERIF_TIER:-quick}}
case "$PROP" in setup | replay) TIER=quick ;; esac
RACE=0
case "$PROP" in C30 | C01 | C03 | C04 | C07 | C10 | C12 | C14 | C15 | C16 | C17 | C19 | C20 | C21 | C22 | C23 | C24 | C26 | C27 | C28 | C29 | C32) RACE=1 ;; esac
if [ "$PROP" = replay ]; then
	FILE=${2:?replay file}
	FILE=$(readlink -f "$FILE")
	grep -q '"Race": true' "$FILE" && RACE=1
fi
[ "$PROP" = setup ] && RACE=1

mkdir -p "$ROOT/.build" "$ROOT/evidence" "$ROOT/replays"
B=$(mktemp -d "$ROOT/.build/$PROP.XXXXXX") || exit 3
trap 'rm -rf "$B"' EXIT
trap 'exit 3' INT TERM

fail() {
	echo "check.sh: $1" >&2
	tail -40 "$B/log" >&2
	exit 3
}

build() {
	(cd "$ROOT/mc" && go build -o "$B/rewrite" ./cmd/rewrite) >"$B/log" 2>&1 || fail "cannot build the rewriter"
	"$B/rewrite" -repo "$REPO" -mc "$ROOT/mc" -out "$B/src" >"$B/log" 2>&1 || fail "cannot rewrite the sources of $REPO"
	if [ "$PROP" != C30 ] || [ $RACE = 0 ]; then
		(cd "$B/src" && GOFLAGS=-mod=vendor go build -o "$B/h" ./harness) >"$B/log" 2>&1 || fail "cannot build the harness"
	fi
	if [ $RACE = 1 ]; then
		local R=() p
		for p in gevmc/vs gevmc/vkern gevmc/harness gevmc/shim/vsync gevmc/shim/vchan gevmc/shim/vtime gevmc/shim/vmap \
			gevmc/shim/vnet gevmc/shim/vos github.com/RussellLuo/timingwheel github.com/gobwas/pool/pbytes; do
			R+=("-gcflags=$p=-race=false -l")
		done
		(cd "$B/src" && GOFLAGS=-mod=vendor go build -race "${R[@]}" -o "$B/hr" ./harness) >"$B/log" 2>&1 || fail "cannot build the harness with the race detector"
	fi
}

build
if [ "$PROP" = setup ]; then
	echo "setup: built"
	exit 0
fi
H=$B/h
if [ "$PROP" = replay ]; then
	[ $RACE = 1 ] && H=$B/hr
	GORACE="halt_on_error=0 history_size=5" "$H" -replay "$FILE"
	exit $?
fi
if [ "$TIER" = thorough ]; then BUDGET=${VERIF_BUDGET:-600}; else BUDGET=${VERIF_BUDGET:-45}; fi
ALSO=
if [ "$PROP" = C30 ]; then
	H=$B/hr
elif [ $RACE = 1 ]; then
	# the same scenarios under the race detector first
	"$B/hr" -prop "$PROP" -tier "$TIER" -budget "$BUDGET" -seed "${VERIF_SEED:-1}" -out "$ROOT/replays" -evidence "$B/race.json"
	rc=$?
	case $rc in 0) ;; 1) cp "$B/race.json" "$ROOT/evidence/$PROP.json"; exit 1 ;; *) echo "check.sh: the race harness ended with status $rc" >&2; exit 3 ;; esac
	ALSO=$B/race.json
fi
"$H" -prop "$PROP" -tier "$TIER" -budget "$BUDGET" -seed "${VERIF_SEED:-1}" -out "$ROOT/replays" -also "$ALSO" \
	-evidence "$ROOT/evidence/$PROP.json"
rc=$?
case $rc in 0 | 1) exit $rc ;; esac
echo "check.sh: the harness ended with status $rc" >&2
exit 3

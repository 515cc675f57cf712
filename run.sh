#!/bin/bash
# run.sh ID [quick|thorough]   decide property ID on /repo's current tree
# run.sh replay FILE           run one recorded violation again
# Exit: 0 held, 1 violated (with a VIOLATION line), 3 the check could not run.
cd "$(dirname "$0")" || exit 3
V=$PWD
REPO=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOCACHE=$V/.build/gocache
unset GOARCH GOOS GODEBUG GOMAXPROCS GOGC GOMEMLIMIT GOEXPERIMENT
id=$1 tier=${2:-${VERIF_TIER:-quick}}
args=()
if [ "$id" = replay ]; then
	file=$(realpath "$2") || exit 3
	id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
	t=$(sed -n 's/.*"tier": *"\([a-z]*\)".*/\1/p' "$file" | head -1)
	tier=${t:-quick}
	if [ -z "$id" ]; then echo "$file: no property in it"; exit 3; fi
	if ! grep -q '"rerun": *true' "$file"; then args=(-replay "$file"); fi
fi
case $tier in quick|thorough) ;; *) tier=quick ;; esac
case $id in
C07|C10|C19) bin=mat ;;
C21|C22) bin=old ;;
C18|C24) bin=sys ;;
C13) bin=conc ;;
C*) bin=pub ;;
*) echo "usage: run.sh ID [quick|thorough] | replay FILE"; exit 3 ;;
esac
D=$V # evidence, replays and binaries go below this directory
if [ "$REPO" != /repo ]; then # for trying changes in a scratch copy
	D=${VERIF_OUT:-$V/.build/other}
	mkdir -p "$D"
	sed "s,=> /repo,=> $REPO," go.mod >"$D/go.mod"
	GOFLAGS="-mod=mod -modfile=$D/go.mod"
fi
mkdir -p $D/.build $D/evidence $D/replays/$id
if [ $# -ge 1 ] && [ "$1" != replay ]; then rm -f $D/replays/$id/*; fi
if ! go build -o $D/.build/$bin ./cmd/$bin 2>$D/.build/$bin.err; then
	cat $D/.build/$bin.err
	echo "the check does not build"
	exit 3
fi
log=$D/.build/$id.log
( [ $bin = conc ] || [ $id = C21 ] || ulimit -v 24000000 # the race detector reserves far more
  VERIF_REPO=$REPO exec $D/.build/$bin -dir "$D" -tier "$tier" -seed "${VERIF_SEED:-1}" "${args[@]}" "$id" ) 2>"$log"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || {
	tail -c 20000 "$log" >&2
	# A Go run-time crash (fatal error, unrecovered panic in a goroutine) is a violation:
	# no check ends that way on its own account.
	if [ $rc = 2 ] && grep -qE '^(fatal error|panic|runtime): ?' "$log"; then
		f=$D/replays/$id/crash.json
		{ printf '{"property": "%s", "tier": "%s", "rerun": true, "stderr": ' "$id" "$tier"
		  head -c 6000 "$log" | python3 -c 'import json,sys; print(json.dumps(sys.stdin.buffer.read().decode("utf-8","replace"))+"}")'
		} >"$f"
		echo "VIOLATION property=$id replay=$f"
		exit 1
	fi
	exit 3
}
exit $rc

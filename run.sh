#!/bin/bash
# run.sh ID [quick|thorough]   decide one property on /repo's working tree
# run.sh replay FILE           run one replay file again
# Exit codes: 0 held, 1 violated (with a VIOLATION line), anything else: the
# check could not decide.
verif=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off CGO_ENABLED=1
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOCACHE=${GOCACHE:-$HOME/.cache/go-build}
unset FROZEN_CONCURRENCY GOMAXPROCS GOGC GOMEMLIMIT GODEBUG GORACE GOEXPERIMENT GOAMD64
umask 022

id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
if [ "$id" = replay ]; then
	file=$(realpath "$2") || exit 2
	id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
	replay=1
fi
case "$id" in C[0-9][0-9]) ;; *) echo "usage: run.sh ID [quick|thorough] | replay FILE" >&2; exit 2 ;; esac

work=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
trap 'exit 2' INT TERM HUP

build() { # build OUT FLAGS...
	local out=$1
	shift
	(cd "$verif/harness" && go build -modfile="$work/go.mod" -tags "$id" -o "$out" "$@" .) >"$out.log" 2>&1
}
cp "$verif/harness/go.mod" "$verif/harness/go.sum" "$work/" || exit 2
bin=$work/vh
race=
case "$id" in
C22) # one build, with the race detector, is enough
	race=$work/vh
	build "$work/vh" -race || fail=1
	;;
C18 | C23)
	race=$work/vhr
	build "$work/vhr" -race &
	pid=$!
	build "$work/vh" || fail=1
	wait $pid || fail=1
	;;
*) build "$work/vh" || fail=1 ;;
esac
if [ "$fail" ]; then
	cat "$work"/*.log >&2
	echo "the harness does not build against /repo" >&2
	exit 3
fi

args=(-bin "$bin")
[ "$race" ] && args+=(-race "$race")
if [ "$replay" ]; then
	"$bin" replay "${args[@]}" "$file"
	exit $?
fi
budget=240s
[ "$tier" = thorough ] && budget=1500s
mkdir -p "$verif/evidence/replays"
"$bin" check -prop "$id" -tier "$tier" -seed "$seed" -budget "$budget" -dir "$work" \
	-evidence "$verif/evidence/$id.json" -replays "$verif/evidence/replays" \
	-known "$verif/known_findings.txt" "${args[@]}"

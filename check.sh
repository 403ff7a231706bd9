#!/bin/bash
# check.sh <property>      decide one property (VERIF_SEED, VERIF_TIER)
# check.sh setup           build everything once (fills the build cache)
# check.sh all             decide all properties, one after another
# check.sh replay <file>   execute a stored failing case again
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH="$PATH:/opt/veriftools/go1.27.3/bin:/usr/local/go/bin"
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
unset GODEBUG GOGC GOMEMLIMIT GOMAXPROCS GORACE
seed=${VERIF_SEED:-1}
tier=${VERIF_TIER:-quick}
[ "$tier" = thorough ] || tier=quick
case "$seed" in ''|*[!0-9]*) seed=1 ;; esac

build() { # build <output> [flags]
	local out=$1
	shift
	if ! (cd "$here/harness" && go build "$@" -o "$out" .) 2>"$out.log"; then
		cat "$out.log"
		echo "ERROR: the harness does not build against /repo"
		return 1
	fi
}

run() { # run <id>
	local id=$1 flags=() tmp rc
	[ "$id" = C16 ] && flags=(-race)
	tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif-check.XXXXXX") || return 2
	if ! build "$tmp/h" ${flags[@]+"${flags[@]}"}; then
		rm -rf "${tmp:?}"
		return 2
	fi
	mkdir -p "$here/evidence"
	rm -f "$here/evidence/$id.json"
	TMPDIR=$tmp "$tmp/h" -prop "$id" -tier "$tier" -seed "$seed" \
		-evidence "$here/evidence/$id.json" -replays "$here/replays"
	rc=$?
	rm -rf "${tmp:?}"
	return $rc
}

case "${1:-}" in
setup)
	tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif-check.XXXXXX") || exit 2
	build "$tmp/h" && build "$tmp/hr" -race
	rc=$?
	rm -rf "${tmp:?}"
	mkdir -p "$here/evidence" "$here/replays"
	exit $rc
	;;
replay)
	file=$(realpath "${2:?file}")
	flags=()
	grep -q '"property": "C16"' "$file" && flags=(-race)
	tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif-check.XXXXXX") || exit 2
	build "$tmp/h" ${flags[@]+"${flags[@]}"} && "$tmp/h" -replay "$file"
	rc=$?
	rm -rf "${tmp:?}"
	exit $rc
	;;
all)
	rc=0
	for i in $(seq -w 1 19); do
		run "C$i" || rc=1
	done
	exit $rc
	;;
C[0-9][0-9])
	run "$1"
	exit $?
	;;
*)
	sed -n '2,5p' "$0"
	exit 2
	;;
esac
